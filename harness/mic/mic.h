// Emulation of those Knights Corner intrinsics that AVX-512 doesn't have.
#ifndef VERIF_MIC_H
#define VERIF_MIC_H
#include <cmath>
#include <cstdint>
#include <cstring>
#include <immintrin.h>

namespace verif_mic {

inline void put(float *l, __m512 v) { _mm512_storeu_ps(l, v); }
inline void put(double *l, __m512d v) { _mm512_storeu_pd(l, v); }
inline void put(int *l, __m512i v) { _mm512_storeu_si512(l, v); }
inline __m512 pick(const float *l) { return _mm512_loadu_ps(l); }
inline __m512d pick(const double *l) { return _mm512_loadu_pd(l); }
inline __m512i pick(const int *l) { return _mm512_loadu_si512(l); }

// elements up to the next 64-byte boundary go to / come from the low lanes; reads never leave the cache line of an element in question, so they are not reported
template<typename T, typename V> __attribute__((no_sanitize_address)) V load_lo(V v, const T *p)
{
    T l[64 / sizeof(T)];
    put(l, v);
    std::size_t k = 0;
    do { l[k] = p[k]; ++k; } while (reinterpret_cast<std::uintptr_t>(p + k) % 64);
    return pick(l);
}
// p is 64 bytes ahead: elements from the preceding 64-byte boundary on go to / come from the high lanes
template<typename T, typename V> V load_hi(V v, const T *p)
{
    const std::size_t N = 64 / sizeof(T);
    T l[N];
    put(l, v);
    std::size_t n = reinterpret_cast<std::uintptr_t>(p) % 64 / sizeof(T);
    for (std::size_t i = 0; i < n; ++i) l[N - n + i] = *(p - n + i);
    return pick(l);
}
template<typename T, typename V> void store_lo(T *p, V v)
{
    T l[64 / sizeof(T)];
    put(l, v);
    std::size_t k = 0;
    do { p[k] = l[k]; ++k; } while (reinterpret_cast<std::uintptr_t>(p + k) % 64);
}
template<typename T, typename V> void store_hi(T *p, V v)
{
    const std::size_t N = 64 / sizeof(T);
    T l[N];
    put(l, v);
    std::size_t n = reinterpret_cast<std::uintptr_t>(p) % 64 / sizeof(T);
    for (std::size_t i = 0; i < n; ++i) *(p - n + i) = l[N - n + i];
}
}

static inline __m512 _mm512_loadunpacklo_ps(__m512 v, const void *p) { return verif_mic::load_lo<float>(v, static_cast<const float *>(p)); }
static inline __m512 _mm512_loadunpackhi_ps(__m512 v, const void *p) { return verif_mic::load_hi<float>(v, static_cast<const float *>(p)); }
static inline __m512d _mm512_loadunpacklo_pd(__m512d v, const void *p) { return verif_mic::load_lo<double>(v, static_cast<const double *>(p)); }
static inline __m512d _mm512_loadunpackhi_pd(__m512d v, const void *p) { return verif_mic::load_hi<double>(v, static_cast<const double *>(p)); }
static inline __m512i _mm512_loadunpacklo_epi32(__m512i v, const void *p) { return verif_mic::load_lo<int>(v, static_cast<const int *>(p)); }
static inline __m512i _mm512_loadunpackhi_epi32(__m512i v, const void *p) { return verif_mic::load_hi<int>(v, static_cast<const int *>(p)); }
static inline void _mm512_packstorelo_ps(void *p, __m512 v) { verif_mic::store_lo<float>(static_cast<float *>(p), v); }
static inline void _mm512_packstorehi_ps(void *p, __m512 v) { verif_mic::store_hi<float>(static_cast<float *>(p), v); }
static inline void _mm512_packstorelo_pd(void *p, __m512d v) { verif_mic::store_lo<double>(static_cast<double *>(p), v); }
static inline void _mm512_packstorehi_pd(void *p, __m512d v) { verif_mic::store_hi<double>(static_cast<double *>(p), v); }
static inline void _mm512_storenr_ps(void *p, __m512 v) { _mm512_store_ps(p, v); }
static inline void _mm512_storenr_pd(void *p, __m512d v) { _mm512_store_pd(p, v); }
static inline __m512 _mm512_rcp23_ps(__m512 v) { return _mm512_div_ps(_mm512_set1_ps(1.0f), v); }
static inline __m512 _mm512_rsqrt23_ps(__m512 v) { return _mm512_div_ps(_mm512_set1_ps(1.0f), _mm512_sqrt_ps(v)); }
static inline __m512d _mm512_i32logather_pd_(__m512i i, const void *p) { return _mm512_i32gather_pd(_mm512_castsi512_si256(i), p, 8); }
static inline void _mm512_i32loscatter_pd_(void *p, __m512i i, __m512d v) { _mm512_i32scatter_pd(p, _mm512_castsi512_si256(i), v, 8); }
template<int S> struct verif_mic_scale;
template<> struct verif_mic_scale<8> { static const int ok = 1; };
#define _mm512_i32logather_pd(I, P, S) (void(verif_mic_scale<S>::ok), _mm512_i32logather_pd_(I, P))
#define _mm512_i32loscatter_pd(P, I, V, S) (void(verif_mic_scale<S>::ok), _mm512_i32loscatter_pd_(P, I, V))
#define _mm512_permute4f128_epi32(V, P) _mm512_shuffle_i32x4(V, V, P)
#endif
