// The NEON operations the library uses, lane by lane, as the ARM architecture defines them, on the compiler's generic vectors.
// A stub of <arm_neon.h> for configuration "n"; operations missing here make that configuration fail to build.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>

typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x2_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
struct float32x4x2_t { float32x4_t val[2]; };

#define NEON_FN static inline __attribute__((always_inline))
#define NEON_EACH(T, expr) T r; for (int i = 0; i < 4; i++) r[i] = (expr); return r

template<class T> NEON_FN T neonCast_(const void* p) { T r; __builtin_memcpy(&r, p, sizeof(T)); return r; }

// moves
NEON_FN float32x4_t vdupq_n_f32(float a) { return (float32x4_t){a, a, a, a}; }
NEON_FN int32x4_t vdupq_n_s32(int32_t a) { return (int32x4_t){a, a, a, a}; }
NEON_FN uint32x4_t vdupq_n_u32(uint32_t a) { return (uint32x4_t){a, a, a, a}; }
NEON_FN float32x4_t vmovq_n_f32(float a) { return vdupq_n_f32(a); }
NEON_FN int32x4_t vmovq_n_s32(int32_t a) { return vdupq_n_s32(a); }
NEON_FN uint32x4_t vmovq_n_u32(uint32_t a) { return vdupq_n_u32(a); }
NEON_FN float32x2_t vdup_n_f32(float a) { return (float32x2_t){a, a}; }
NEON_FN float vget_lane_f32(float32x2_t a, int i) { return a[i & 1]; }
NEON_FN float vgetq_lane_f32(float32x4_t a, int i) { return a[i & 3]; }
NEON_FN int32_t vgetq_lane_s32(int32x4_t a, int i) { return a[i & 3]; }
NEON_FN uint32_t vgetq_lane_u32(uint32x4_t a, int i) { return a[i & 3]; }
NEON_FN float32x4_t vsetq_lane_f32(float v, float32x4_t a, int i) { a[i & 3] = v; return a; }
NEON_FN int32x4_t vsetq_lane_s32(int32_t v, int32x4_t a, int i) { a[i & 3] = v; return a; }
NEON_FN uint32x4_t vsetq_lane_u32(uint32_t v, uint32x4_t a, int i) { a[i & 3] = v; return a; }
NEON_FN float32x4_t vdupq_laneq_f32(float32x4_t a, int i) { return vdupq_n_f32(a[i & 3]); }
NEON_FN int32x4_t vdupq_laneq_s32(int32x4_t a, int i) { return vdupq_n_s32(a[i & 3]); }
NEON_FN uint32x4_t vdupq_laneq_u32(uint32x4_t a, int i) { return vdupq_n_u32(a[i & 3]); }
NEON_FN float32x2_t vget_low_f32(float32x4_t a) { return (float32x2_t){a[0], a[1]}; }
NEON_FN float32x2_t vget_high_f32(float32x4_t a) { return (float32x2_t){a[2], a[3]}; }
NEON_FN float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { return (float32x4_t){a[0], a[1], b[0], b[1]}; }
NEON_FN float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { return {{(float32x4_t){a[0], b[0], a[1], b[1]}, (float32x4_t){a[2], b[2], a[3], b[3]}}}; }
NEON_FN float32x4x2_t vuzpq_f32(float32x4_t a, float32x4_t b) { return {{(float32x4_t){a[0], a[2], b[0], b[2]}, (float32x4_t){a[1], a[3], b[1], b[3]}}}; }
NEON_FN float32x4x2_t vtrnq_f32(float32x4_t a, float32x4_t b) { return {{(float32x4_t){a[0], b[0], a[2], b[2]}, (float32x4_t){a[1], b[1], a[3], b[3]}}}; }
NEON_FN float32x4_t vextq_f32(float32x4_t a, float32x4_t b, int n) { NEON_EACH(float32x4_t, i + n < 4 ? a[i + n] : b[i + n - 4]); }

// memory: no alignment is needed
NEON_FN float32x4_t vld1q_f32(const float* p) { return neonCast_<float32x4_t>(p); }
NEON_FN int32x4_t vld1q_s32(const int32_t* p) { return neonCast_<int32x4_t>(p); }
NEON_FN uint32x4_t vld1q_u32(const uint32_t* p) { return neonCast_<uint32x4_t>(p); }
NEON_FN void vst1q_f32(float* p, float32x4_t a) { __builtin_memcpy(p, &a, 16); }
NEON_FN void vst1q_s32(int32_t* p, int32x4_t a) { __builtin_memcpy(p, &a, 16); }
NEON_FN void vst1q_u32(uint32_t* p, uint32x4_t a) { __builtin_memcpy(p, &a, 16); }

// reinterpretation
NEON_FN float32x4_t vreinterpretq_f32_s32(int32x4_t a) { return (float32x4_t)a; }
NEON_FN float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return (float32x4_t)a; }
NEON_FN int32x4_t vreinterpretq_s32_f32(float32x4_t a) { return (int32x4_t)a; }
NEON_FN int32x4_t vreinterpretq_s32_u32(uint32x4_t a) { return (int32x4_t)a; }
NEON_FN uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return (uint32x4_t)a; }
NEON_FN uint32x4_t vreinterpretq_u32_s32(int32x4_t a) { return (uint32x4_t)a; }

// arithmetic (integers wrap around)
NEON_FN float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
NEON_FN float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
NEON_FN float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
NEON_FN float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
NEON_FN float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a * vdupq_n_f32(b); }
NEON_FN float32x4_t vnegq_f32(float32x4_t a) { return -a; }
NEON_FN float32x4_t vmlaq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { return c + a * b; }
NEON_FN float32x4_t vmlsq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { return c - a * b; }
NEON_FN float32x4_t vfmaq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { NEON_EACH(float32x4_t, __builtin_fmaf(a[i], b[i], c[i])); }
NEON_FN float32x4_t vfmsq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { NEON_EACH(float32x4_t, __builtin_fmaf(-a[i], b[i], c[i])); }
NEON_FN float32x4_t vabsq_f32(float32x4_t a) { return (float32x4_t)((uint32x4_t)a & vdupq_n_u32(0x7FFFFFFFu)); }
NEON_FN float32x4_t vsqrtq_f32(float32x4_t a) { NEON_EACH(float32x4_t, __builtin_sqrtf(a[i])); }
NEON_FN float32x2_t vsqrt_f32(float32x2_t a) { return (float32x2_t){__builtin_sqrtf(a[0]), __builtin_sqrtf(a[1])}; }
NEON_FN float neonMin_(float a, float b) { return a != a || b != b ? __builtin_nanf("") : a < b || (a == b && std::signbit(a)) ? a : b; }
NEON_FN float neonMax_(float a, float b) { return a != a || b != b ? __builtin_nanf("") : a > b || (a == b && !std::signbit(a)) ? a : b; }
NEON_FN float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { NEON_EACH(float32x4_t, neonMin_(a[i], b[i])); }
NEON_FN float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { NEON_EACH(float32x4_t, neonMax_(a[i], b[i])); }
NEON_FN uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) { return a + b; }
NEON_FN uint32x4_t vsubq_u32(uint32x4_t a, uint32x4_t b) { return a - b; }
NEON_FN uint32x4_t vmulq_u32(uint32x4_t a, uint32x4_t b) { return a * b; }
NEON_FN int32x4_t vaddq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a + (uint32x4_t)b); }
NEON_FN int32x4_t vsubq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a - (uint32x4_t)b); }
NEON_FN int32x4_t vmulq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a * (uint32x4_t)b); }
NEON_FN int32x4_t vnegq_s32(int32x4_t a) { return (int32x4_t)(-(uint32x4_t)a); }
NEON_FN int32x4_t vabsq_s32(int32x4_t a) { NEON_EACH(int32x4_t, a[i] < 0 ? (int32_t)(0u - (uint32_t)a[i]) : a[i]); }
NEON_FN int32x4_t vminq_s32(int32x4_t a, int32x4_t b) { NEON_EACH(int32x4_t, a[i] < b[i] ? a[i] : b[i]); }
NEON_FN int32x4_t vmaxq_s32(int32x4_t a, int32x4_t b) { NEON_EACH(int32x4_t, a[i] > b[i] ? a[i] : b[i]); }
NEON_FN uint32x4_t vminq_u32(uint32x4_t a, uint32x4_t b) { NEON_EACH(uint32x4_t, a[i] < b[i] ? a[i] : b[i]); }
NEON_FN uint32x4_t vmaxq_u32(uint32x4_t a, uint32x4_t b) { NEON_EACH(uint32x4_t, a[i] > b[i] ? a[i] : b[i]); }

// over all lanes
NEON_FN float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
NEON_FN uint32_t vaddvq_u32(uint32x4_t a) { return a[0] + a[1] + a[2] + a[3]; }
NEON_FN uint32_t vminvq_u32(uint32x4_t a) { uint32_t r = a[0]; for (int i = 1; i < 4; i++) if (a[i] < r) r = a[i]; return r; }
NEON_FN uint32_t vmaxvq_u32(uint32x4_t a) { uint32_t r = a[0]; for (int i = 1; i < 4; i++) if (a[i] > r) r = a[i]; return r; }
NEON_FN float vminvq_f32(float32x4_t a) { return neonMin_(neonMin_(a[0], a[1]), neonMin_(a[2], a[3])); }
NEON_FN float vmaxvq_f32(float32x4_t a) { return neonMax_(neonMax_(a[0], a[1]), neonMax_(a[2], a[3])); }

// bits
NEON_FN int32x4_t vandq_s32(int32x4_t a, int32x4_t b) { return a & b; }
NEON_FN uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
NEON_FN int32x4_t vorrq_s32(int32x4_t a, int32x4_t b) { return a | b; }
NEON_FN uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
NEON_FN int32x4_t veorq_s32(int32x4_t a, int32x4_t b) { return a ^ b; }
NEON_FN uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
NEON_FN int32x4_t vbicq_s32(int32x4_t a, int32x4_t b) { return a & ~b; }
NEON_FN uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
NEON_FN int32x4_t vmvnq_s32(int32x4_t a) { return ~a; }
NEON_FN uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
NEON_FN float32x4_t vbslq_f32(uint32x4_t c, float32x4_t t, float32x4_t f) { return (float32x4_t)((c & (uint32x4_t)t) | (~c & (uint32x4_t)f)); }
NEON_FN int32x4_t vbslq_s32(uint32x4_t c, int32x4_t t, int32x4_t f) { return (int32x4_t)((c & (uint32x4_t)t) | (~c & (uint32x4_t)f)); }
NEON_FN uint32x4_t vbslq_u32(uint32x4_t c, uint32x4_t t, uint32x4_t f) { return (c & t) | (~c & f); }

// shifts: the count is the lowest byte of the lane, signed; negative counts shift right
NEON_FN uint32_t neonShl_(uint32_t a, int32_t n) { n = (int8_t)n; return n <= -32 || n >= 32 ? 0 : n < 0 ? a >> -n : a << n; }
NEON_FN int32_t neonShl_(int32_t a, int32_t n) { n = (int8_t)n; return n >= 32 ? 0 : n <= -32 ? (a < 0 ? -1 : 0) : n < 0 ? a >> -n : (int32_t)((uint32_t)a << n); }
NEON_FN uint32x4_t vshlq_u32(uint32x4_t a, int32x4_t n) { NEON_EACH(uint32x4_t, neonShl_((uint32_t)a[i], n[i])); }
NEON_FN int32x4_t vshlq_s32(int32x4_t a, int32x4_t n) { NEON_EACH(int32x4_t, neonShl_((int32_t)a[i], n[i])); }
NEON_FN uint32x4_t vshrq_n_u32(uint32x4_t a, int n) { NEON_EACH(uint32x4_t, n > 31 ? 0 : a[i] >> n); }
NEON_FN int32x4_t vshrq_n_s32(int32x4_t a, int n) { NEON_EACH(int32x4_t, a[i] >> (n > 31 ? 31 : n)); }
NEON_FN uint32x4_t vshlq_n_u32(uint32x4_t a, int n) { NEON_EACH(uint32x4_t, a[i] << n); }
NEON_FN int32x4_t vshlq_n_s32(int32x4_t a, int n) { NEON_EACH(int32x4_t, (int32_t)((uint32_t)a[i] << n)); }

// comparisons
#define NEON_CMP(name, op) \
	NEON_FN uint32x4_t name##_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a op b); } \
	NEON_FN uint32x4_t name##_s32(int32x4_t a, int32x4_t b) { return (uint32x4_t)(a op b); } \
	NEON_FN uint32x4_t name##_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a op b); }
NEON_CMP(vceqq, ==)
NEON_CMP(vcltq, <)
NEON_CMP(vcgtq, >)
NEON_CMP(vcleq, <=)
NEON_CMP(vcgeq, >=)

// conversions: toward zero, saturating, NaN becomes zero; to float in the rounding mode in force
NEON_FN int32_t neonS32_(float a) { return a != a ? 0 : a >= 2147483648.0f ? INT32_MAX : a < -2147483648.0f ? INT32_MIN : (int32_t)a; }
NEON_FN uint32_t neonU32_(float a) { return !(a > 0.0f) ? 0 : a >= 4294967296.0f ? UINT32_MAX : (uint32_t)a; }
NEON_FN int32x4_t vcvtq_s32_f32(float32x4_t a) { NEON_EACH(int32x4_t, neonS32_(a[i])); }
NEON_FN uint32x4_t vcvtq_u32_f32(float32x4_t a) { NEON_EACH(uint32x4_t, neonU32_(a[i])); }
NEON_FN float32x4_t vcvtq_f32_s32(int32x4_t a) { NEON_EACH(float32x4_t, (float)(int32_t)a[i]); }
NEON_FN float32x4_t vcvtq_f32_u32(uint32x4_t a) { NEON_EACH(float32x4_t, (float)(uint32_t)a[i]); }

// rounding (vrndn: to nearest, ties to even, whatever the mode)
NEON_FN float neonEven_(float a)
{
	if (!(__builtin_fabsf(a) < 8388608.0f)) return a;
	float f = __builtin_floorf(a), d = a - f;
	float r = d > 0.5f ? f + 1.0f : d < 0.5f ? f : __builtin_fmodf(f, 2.0f) == 0.0f ? f : f + 1.0f;
	return __builtin_copysignf(r, a);
}
NEON_FN float32x4_t vrndnq_f32(float32x4_t a) { NEON_EACH(float32x4_t, neonEven_(a[i])); }
NEON_FN float32x4_t vrndmq_f32(float32x4_t a) { NEON_EACH(float32x4_t, __builtin_floorf(a[i])); }
NEON_FN float32x4_t vrndpq_f32(float32x4_t a) { NEON_EACH(float32x4_t, __builtin_ceilf(a[i])); }
NEON_FN float32x4_t vrndq_f32(float32x4_t a) { NEON_EACH(float32x4_t, __builtin_truncf(a[i])); }
NEON_FN float32x4_t vrndaq_f32(float32x4_t a) { NEON_EACH(float32x4_t, __builtin_roundf(a[i])); }
