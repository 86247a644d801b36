// Emulation of the NEON intrinsics short_vec uses, after ARM's reference manual (DDI 0487, IHI 0073).
#ifndef VERIF_ARM_NEON_H
#define VERIF_ARM_NEON_H
#include <cmath>
#include <cstdint>
#include <cstring>

typedef float float32x4_t __attribute__((vector_size(16)));
typedef std::uint32_t uint32x4_t __attribute__((vector_size(16)));

static inline float32x4_t vdupq_n_f32(float a) { return float32x4_t{a, a, a, a}; }
static inline uint32x4_t vdupq_n_u32(std::uint32_t a) { return uint32x4_t{a, a, a, a}; }
static inline float32x4_t vld1q_f32(const float *p) { float32x4_t r; std::memcpy(&r, p, 16); return r; }
static inline void vst1q_f32(float *p, float32x4_t v) { std::memcpy(p, &v, 16); }
static inline float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
static inline float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
static inline float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
static inline float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
static inline uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
static inline uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
static inline uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
static inline uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a == b); }
static inline uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a == b); }
static inline uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a < b); }
static inline uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a <= b); }
static inline uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a > b); }
static inline uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a >= b); }
static inline float32x4_t vabsq_f32(float32x4_t a) { for (int i = 0; i < 4; ++i) a[i] = std::fabs(a[i]); return a; }
// absolute compare
static inline uint32x4_t vcaleq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(vabsq_f32(a) <= vabsq_f32(b)); }
static inline uint32x4_t vcageq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(vabsq_f32(a) >= vabsq_f32(b)); }
static inline float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { float32x4_t r; std::memcpy(&r, &a, 16); return r; }
static inline uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { uint32x4_t r; std::memcpy(&r, &a, 16); return r; }
static inline uint32x4_t vbslq_u32(uint32x4_t m, uint32x4_t a, uint32x4_t b) { return (m & a) | (~m & b); }
static inline float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return vreinterpretq_f32_u32(vbslq_u32(m, vreinterpretq_u32_f32(a), vreinterpretq_u32_f32(b))); }

// estimates carry eight bits of mantissa
static inline float verif_estimate(double v)
{
    if (v != v || std::isinf(v) || v == 0) return float(v);
    int e;
    double m = std::frexp(v, &e);
    return float(std::ldexp((std::trunc(m * 256) + (m < 0 ? -0.5 : 0.5)) / 256, e));
}
static inline float32x4_t vrecpeq_f32(float32x4_t a) { for (int i = 0; i < 4; ++i) a[i] = verif_estimate(1.0 / double(a[i])); return a; }
static inline float32x4_t vrsqrteq_f32(float32x4_t a) { for (int i = 0; i < 4; ++i) a[i] = a[i] == 0 ? std::copysign(HUGE_VALF, a[i]) : verif_estimate(1.0 / std::sqrt(double(a[i]))); return a; }
// steps treat 0 * inf as 0
static inline bool verif_zi(float a, float b) { return (a == 0 && std::isinf(b)) || (b == 0 && std::isinf(a)); }
static inline float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = verif_zi(a[i], b[i]) ? 2.0f : float(2.0 - double(a[i]) * double(b[i])); return r; }
static inline float32x4_t vrsqrtsq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; ++i) r[i] = verif_zi(a[i], b[i]) ? 1.5f : float((3.0 - double(a[i]) * double(b[i])) / 2); return r; }
// not used by the library at present
static inline float32x4_t vmovq_n_f32(float a) { return vdupq_n_f32(a); }
static inline uint32x4_t vmovq_n_u32(std::uint32_t a) { return vdupq_n_u32(a); }
static inline float32x4_t vld1q_dup_f32(const float *p) { return vdupq_n_f32(*p); }
static inline uint32x4_t vld1q_u32(const std::uint32_t *p) { uint32x4_t r; std::memcpy(&r, p, 16); return r; }
static inline void vst1q_u32(std::uint32_t *p, uint32x4_t v) { std::memcpy(p, &v, 16); }
static inline float32x4_t vnegq_f32(float32x4_t a) { return -a; }
static inline float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a * vdupq_n_f32(b); }
static inline float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
static inline float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a - b * c; }
static inline uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
static inline uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
static inline uint32x4_t vcaltq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(vabsq_f32(a) < vabsq_f32(b)); }
static inline uint32x4_t vcagtq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(vabsq_f32(a) > vabsq_f32(b)); }
#define vgetq_lane_f32(v, i) ((v)[i])
#define vgetq_lane_u32(v, i) ((v)[i])
static inline float32x4_t vsetq_lane_f32(float a, float32x4_t v, int i) { v[i] = a; return v; }
static inline float32x4_t vld1q_lane_f32(const float *p, float32x4_t v, int i) { v[i] = *p; return v; }
static inline void vst1q_lane_f32(float *p, float32x4_t v, int i) { *p = v[i]; }
#ifdef VERIF_AARCH64
static inline float32x4_t vsqrtq_f32(float32x4_t a) { for (int i = 0; i < 4; ++i) a[i] = std::sqrt(a[i]); return a; }
#endif
#endif
