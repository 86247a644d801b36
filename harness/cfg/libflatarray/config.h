#ifndef VERIF_LIBFLATARRAY_CONFIG_H
#define VERIF_LIBFLATARRAY_CONFIG_H
// Stand-in for the config header CMake generates (see /repo/CMakeLists.txt).
#ifndef VERIF_NO_CPP14
#define LIBFLATARRAY_WITH_CPP14
#endif
#ifdef VERIF_INCREASED_PRECISION
#define LIBFLATARRAY_WITH_INCREASED_PRECISION
#endif
#ifdef VERIF_WITH_CUDA
#define LIBFLATARRAY_WITH_CUDA
#endif
#endif
