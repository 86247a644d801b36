// the few CUDA calls gpu_benchmark makes, on an imaginary machine with several devices
#ifndef VERIF_BENCH_CUDA_H
#define VERIF_BENCH_CUDA_H
#include <cstdio>
#include <cstring>
struct cudaDeviceProp { char name[256]; int major, minor; };
typedef int cudaError_t;
const cudaError_t cudaSuccess = 0, cudaErrorInvalidDevice = 101;
extern int bench_current_device;
extern char bench_device_name[8][256];
inline cudaError_t cudaGetDevice(int *device) { *device = bench_current_device; return cudaSuccess; }
inline cudaError_t cudaGetDeviceCount(int *count) { *count = 8; return cudaSuccess; }
inline cudaError_t cudaGetDeviceProperties(cudaDeviceProp *p, int device)
{
    if (device < 0 || device >= 8) return cudaErrorInvalidDevice;
    std::memset(p, 0, sizeof(*p));
    std::memcpy(p->name, bench_device_name[device], 256);
    return cudaSuccess;
}
#endif
