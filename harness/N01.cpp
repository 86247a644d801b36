// N01: the NEON, QPX and MIC implementations of short_vec, on emulated intrinsics. Same generators and oracles as S01-S05.
#if defined(__VECTOR4DOUBLE__)
#include "qpx/qpx.h"
#elif defined(__MIC__)
#include "mic/mic.h"
#endif
#define SV_FOREIGN
#define S01 N01_arithmetic
#define S02 N01_moves
#define S03 N01_masks
#define S04 N01_division
#define S05 N01_streaming
#if NFILE == 1
#include "S01.cpp"
#elif NFILE == 2
#include "S02.cpp"
#elif NFILE == 3
#include "S03.cpp"
#elif NFILE == 4
#include "S04.cpp"
#else
#include "S05.cpp"
#endif
