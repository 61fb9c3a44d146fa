// Scenario "replica" (C20, C21, C24, C25): a replicated state machine whose replicas execute one agreed log of vector, matrix and quaternion
// operations with different implementations: a SIMD node (f32x4, i32x4, u32x4, f32x4x4, quat) and scalar nodes of width 4, 3 and 2. Messages are
// delivered with delays, loss and retransmission, duplicates and reordering; nodes crash, restart from a snapshot written with the library's stores
// and execute the log again, alone or on parallel simulated threads. Every outcome is compared with a double-precision (or integer) reference, every
// re-execution with the bits it gave before, and the register files of all replicas with the agreed state.
#include "common.h"
#include "math/vector.hpp"
#include "math/matrix.hpp"
#include "math/quaternion.hpp"
#include "math/angles.hpp"
#include "math/matrix/transform.hpp"
#include "math/matrix/projection.hpp"
#include "math/version.hpp"
#include "math/flags.hpp"
#include "math/color.hpp"
#include "math/tone-mapping.hpp"
#include <map>
#include <queue>
#include <limits>

using sim::Op; using sim::Plan; using sim::Rng;
namespace mt = math;
typedef mt::f32x4 f4; typedef mt::i32x4 i4; typedef mt::u32x4 u4; typedef mt::f32x4x4 m4; using mt::quat;

enum class Bits : uint64_t { None = 0 };
namespace math { DECLARE_ENUM_CLASS_FLAG_OPERATORS(Bits) }

namespace
{
enum Kind { ARITH, COMPARE, PICKS, ROUNDS, GEOM, BLEND, INTS, UINTS, CONVERT, LANES, MATRIX, INVERSE, QUATS, XFORM, EXPLOG, POWERS, TRIG, STDFN, CODES, FORMS, PROJ, NKINDS };
const char* opName(int k)
{
	static const char* n[] = {"arithmetic", "compare", "select_min_max", "rounding", "geometry", "interpolate", "integers", "unsigned", "convert", "lanes", "matrix", "inverse", "quaternion", "transform", "exp_log", "power", "sin_cos", "elementary", "codes", "forms", "projections"};
	return n[(unsigned)k % NKINDS];
}
enum { P_LOST = rt::P_FIRST, P_DUP, P_REORDER, P_DELAYED, P_CRASH, P_REPLAYED, P_SNAPSHOT, P_PARALLEL, P_APPLIED, P_BIGUINT, P_SINGULAR, P_DUPLICATE_RUN };
enum { NODES = 4, REGS = 6, SLOTS = 40, LANES4 = 4 };
const char* nodeName[NODES] = {"SIMD", "scalar4", "scalar3", "scalar2"};

// ------------------------------------------------------------------ node types
template<int N> struct T;
template<> struct T<0> { enum { W = 4, simd = 1 }; typedef f4 F; typedef i4 I; typedef u4 U; };
template<> struct T<1> { enum { W = 4, simd = 0 }; typedef mt::float4 F; typedef mt::int4 I; typedef mt::uint4 U; };
template<> struct T<2> { enum { W = 3, simd = 0 }; typedef mt::float3 F; typedef mt::int3 I; typedef mt::uint3 U; };
template<> struct T<3> { enum { W = 2, simd = 0 }; typedef mt::float2 F; typedef mt::int2 I; typedef mt::uint2 U; };
int widthOf(int node) { static const int w[] = {4, 4, 3, 2}; return w[node]; }

struct Regs { float f[REGS][4]; int32_t i[REGS][4]; uint32_t u[REGS][4]; float m[REGS][16]; float q[REGS][4]; };
// what an operation reads: the registers it names and its immediate values
struct In { float a[4], b[4], c[4], s, t; int32_t ia[4], ib[4], n; uint32_t ua[4], ub[4], un, sh; float m[16], p[16], q[4], r[4]; };
struct Out { float f[SLOTS][4]; int32_t i[SLOTS][4]; uint32_t u[SLOTS][4]; };
struct Agreed { In in; float f[4]; int32_t i[4]; uint32_t u[4]; float m[16], q[4]; }; // inputs and the value agreed for the destination
struct Node { Regs* regs; int applied; int snapAt; Regs* snap; std::vector<bool> seen; std::vector<uint64_t> hash; std::vector<int> order; };
struct World { const Plan* plan; std::vector<Agreed> log; Regs model; Node node[NODES]; Out* out[NODES]; };
World* W;

void put(float* o, f4 v) { v.store(o); }
void put(float* o, mt::float4 v) { o[0] = v.x; o[1] = v.y; o[2] = v.z; o[3] = v.w; }
void put(float* o, mt::float3 v) { o[0] = v.x; o[1] = v.y; o[2] = v.z; }
void put(float* o, mt::float2 v) { o[0] = v.x; o[1] = v.y; }
void put(float* o, float v) { o[0] = v; }
void put(int32_t* o, i4 v) { v.store(o); }
void put(int32_t* o, mt::int4 v) { o[0] = v.x; o[1] = v.y; o[2] = v.z; o[3] = v.w; }
void put(int32_t* o, mt::int3 v) { o[0] = v.x; o[1] = v.y; o[2] = v.z; }
void put(int32_t* o, mt::int2 v) { o[0] = v.x; o[1] = v.y; }
void put(int32_t* o, int32_t v) { o[0] = v; }
void put(uint32_t* o, u4 v) { v.store(o); }
void put(uint32_t* o, mt::uint4 v) { o[0] = v.x; o[1] = v.y; o[2] = v.z; o[3] = v.w; }
void put(uint32_t* o, mt::uint3 v) { o[0] = v.x; o[1] = v.y; o[2] = v.z; }
void put(uint32_t* o, mt::uint2 v) { o[0] = v.x; o[1] = v.y; }
void put(uint32_t* o, uint32_t v) { o[0] = v; }
void putM(float (*o)[4], const m4& m) { put(o[0], m.c0); put(o[1], m.c1); put(o[2], m.c2); put(o[3], m.c3); }
void putM(float (*o)[4], const mt::float4x4& m) { put(o[0], m.c0); put(o[1], m.c1); put(o[2], m.c2); put(o[3], m.c3); }
void putM(float (*o)[4], const mt::float4x3& m) { put(o[0], m.c0); put(o[1], m.c1); put(o[2], m.c2); put(o[3], m.c3); }
void putM(float (*o)[4], const mt::float3x3& m) { put(o[0], m.c0); put(o[1], m.c1); put(o[2], m.c2); }
void putM(float (*o)[4], const mt::float2x2& m) { put(o[0], m.c0); put(o[1], m.c1); }
f4 get(const float* p, f4*) { return f4(p); }
mt::float4 get(const float* p, mt::float4*) { return mt::float4(p[0], p[1], p[2], p[3]); }
mt::float3 get(const float* p, mt::float3*) { return mt::float3(p[0], p[1], p[2]); }
mt::float2 get(const float* p, mt::float2*) { return mt::float2(p[0], p[1]); }
i4 get(const int32_t* p, i4*) { return i4(p); }
mt::int4 get(const int32_t* p, mt::int4*) { return mt::int4(p[0], p[1], p[2], p[3]); }
mt::int3 get(const int32_t* p, mt::int3*) { return mt::int3(p[0], p[1], p[2]); }
mt::int2 get(const int32_t* p, mt::int2*) { return mt::int2(p[0], p[1]); }
u4 get(const uint32_t* p, u4*) { return u4(p); }
mt::uint4 get(const uint32_t* p, mt::uint4*) { return mt::uint4(p[0], p[1], p[2], p[3]); }
mt::uint3 get(const uint32_t* p, mt::uint3*) { return mt::uint3(p[0], p[1], p[2]); }
mt::uint2 get(const uint32_t* p, mt::uint2*) { return mt::uint2(p[0], p[1]); }
m4 getM(const float* p, m4*) { return m4(f4(p), f4(p + 4), f4(p + 8), f4(p + 12)); }
mt::float4x4 getM(const float* p, mt::float4x4*) { mt::float4 c[4]; for (int i = 0; i < 4; i++) c[i] = get(p + 4 * i, (mt::float4*)nullptr); return mt::float4x4(c[0], c[1], c[2], c[3]); }
mt::float4x3 getM(const float* p, mt::float4x3*) { mt::float3 c[4]; for (int i = 0; i < 4; i++) c[i] = get(p + 4 * i, (mt::float3*)nullptr); return mt::float4x3(c[0], c[1], c[2], c[3]); }
mt::float3x3 getM(const float* p, mt::float3x3*) { mt::float3 c[3]; for (int i = 0; i < 3; i++) c[i] = get(p + 4 * i, (mt::float3*)nullptr); return mt::float3x3(c[0], c[1], c[2]); }
mt::float2x2 getM(const float* p, mt::float2x2*) { mt::float2 c[2]; for (int i = 0; i < 2; i++) c[i] = get(p + 4 * i, (mt::float2*)nullptr); return mt::float2x2(c[0], c[1]); }
uint32_t yes(bool b) { return b ? 1 : 0; }

// ------------------------------------------------------------------ library code: one operation on one kind of node
#define A get(x.a, (F*)nullptr)
#define B get(x.b, (F*)nullptr)
#define C get(x.c, (F*)nullptr)
#define IA get(x.ia, (I*)nullptr)
#define IB get(x.ib, (I*)nullptr)
#define UA get(x.ua, (U*)nullptr)
#define UB get(x.ub, (U*)nullptr)

template<int N> void arith(const In& x, Out& o)
{
	typedef typename T<N>::F F; F a = A, b = B; float s = x.s;
	put(o.f[0], a + b); put(o.f[1], a - b); put(o.f[2], a * b); put(o.f[3], a / b); put(o.f[4], -a);
	put(o.f[5], a + s); put(o.f[6], a - s); put(o.f[7], a * s); put(o.f[8], a / s); put(o.f[9], s + a); put(o.f[10], s - a); put(o.f[11], s * a); put(o.f[12], s / a);
	F r = a; r += b; put(o.f[13], r); r = a; r -= b; put(o.f[14], r); r = a; r *= b; put(o.f[15], r); r = a; r /= b; put(o.f[16], r);
	r = a; r += s; put(o.f[17], r); r = a; r -= s; put(o.f[18], r); r = a; r *= s; put(o.f[19], r); r = a; r /= s; put(o.f[20], r); r = s; put(o.f[21], r);
	put(o.f[22], F(s)); put(o.f[23], F::zero); put(o.f[24], F::one); put(o.f[25], F::minusOne);
	put(o.f[26], mt::radians(a)); put(o.f[27], mt::degrees(a)); o.f[28][0] = mt::radians(s); o.f[28][1] = mt::degrees(s);
}
template<int N> void compare(const In& x, Out& o)
{
	typedef typename T<N>::F F; typedef typename T<N>::U U; F a = A, b = B; float s = x.s;
	put(o.u[0], a < b); put(o.u[1], a > b); put(o.u[2], a <= b); put(o.u[3], a >= b); put(o.u[4], equal(a, b)); put(o.u[5], notEqual(a, b));
	put(o.u[6], a < s); put(o.u[7], a > s); put(o.u[8], a <= s); put(o.u[9], a >= s); put(o.u[10], s < a); put(o.u[11], s > a); put(o.u[12], s <= a); put(o.u[13], s >= a);
	o.u[14][0] = yes(a == b); o.u[14][1] = yes(a != b); o.u[15][0] = yes(a == s); o.u[15][1] = yes(a != s); o.u[16][0] = yes(s == a); o.u[16][1] = yes(s != a);
	U m = a < b; o.u[17][0] = (uint32_t)getTrues(m); o.u[17][1] = yes(areAllTrue(m)); o.u[18][0] = yes(areAllFalse(m)); o.u[18][1] = yes(areAnyTrue(m)); o.u[19][0] = yes(areAnyFalse(m));
	o.u[20][0] = yes(F(s) == s); o.u[20][1] = yes(F(s) != s); o.u[21][0] = yes(isBinaryLess(a, b) && isBinaryLess(b, a)); o.u[21][1] = yes(isBinaryLess(a, a));
}
template<int N> void picks(const In& x, Out& o)
{
	typedef typename T<N>::F F; typedef typename T<N>::I I; typedef typename T<N>::U U; F a = A, b = B, c = C;
	put(o.f[0], select(a < b, a, b)); put(o.f[1], min(a, b)); put(o.f[2], max(a, b)); put(o.f[3], clamp(c, min(a, b), max(a, b))); put(o.f[4], fma(a, b, c));
	put(o.f[5], abs(a)); put(o.f[6], sqrt(abs(a))); put(o.f[7], sign(a)); put(o.f[8], select(UA, a, b)); o.i[0][0] = signBits(a);
	if constexpr (!T<N>::simd) { put(o.f[9], min(a, b, c)); put(o.f[10], max(a, b, c)); }
	else { o.f[11][0] = min4(a); o.f[11][1] = max4(a); o.f[12][0] = min3(a); o.f[12][1] = max3(a); }
	U m = a < c; put(o.u[0], select(m, UA, UB)); put(o.i[1], select(m, IA, IB));
}
template<int N> void rounds(const In& x, Out& o)
{
	typedef typename T<N>::F F; F a = A;
	put(o.f[0], round(a)); put(o.f[1], floor(a)); put(o.f[2], ceil(a)); put(o.f[3], trunc(a)); put(o.f[4], repeat(a)); put(o.f[5], mod(a, B));
}
template<int N> void geom(const In& x, Out& o)
{
	typedef typename T<N>::F F; F a = A, b = B;
	if constexpr (T<N>::simd)
	{
		o.f[0][0] = dot4(a, b); o.f[1][0] = lengthSq4(a); o.f[2][0] = length4(a); o.f[3][0] = distanceSq4(a, b); o.f[4][0] = distance4(a, b); put(o.f[5], normalize4(a)); put(o.f[6], dotV4(a, b));
		o.u[0][0] = yes(isNormalized4(a, 0.01f)); o.u[0][1] = yes(isNormalized4(normalize4(a), 1e-5f)); o.u[0][2] = yes(isNormalized4(a));
		o.f[10][0] = dot3(a, b); o.f[11][0] = lengthSq3(a); o.f[12][0] = length3(a); o.f[13][0] = distanceSq3(a, b); o.f[14][0] = distance3(a, b); put(o.f[15], normalize3(a)); put(o.f[16], dotV3(a, b)); put(o.f[17], cross3(a, b));
		o.u[1][0] = yes(isNormalized3(a, 0.01f)); o.u[1][1] = yes(isNormalized3(normalize3(a), 1e-5f)); o.u[1][2] = yes(isNormalized3(a));
	}
	else
	{
		o.f[0][0] = dot(a, b); o.f[1][0] = lengthSq(a); o.f[2][0] = length(a); o.f[3][0] = distanceSq(a, b); o.f[4][0] = distance(a, b); put(o.f[5], normalize(a));
		o.u[0][0] = yes(isNormalized(a, 0.01f)); o.u[0][1] = yes(isNormalized(normalize(a), 1e-5f)); o.u[0][2] = yes(isNormalized(a)); o.u[2][0] = yes(isClose(a, b, 0.25f)); o.u[2][1] = yes(isClose(a, b));
		if constexpr (T<N>::W == 3) put(o.f[17], cross(a, b));
	}
}
template<int N> void blend(const In& x, Out& o)
{
	typedef typename T<N>::F F; F a = A, b = B;
	put(o.f[0], lerp(a, b, x.t)); put(o.f[1], lerpDelta(a, b, x.t, std::fabs(x.s))); put(o.f[2], lerp(a, b, 0.0f)); put(o.f[3], lerp(a, b, 1.0f));
	o.f[4][0] = mt::lerp(x.a[0], x.b[0], x.t); o.f[4][1] = mt::lerpDelta(x.a[0], x.b[0], x.t, std::fabs(x.s)); o.f[4][2] = mt::repeat(x.a[0]); o.f[4][3] = mt::sign(x.a[0]);
	o.f[5][0] = mt::min(x.a[0], x.b[0], x.c[0]); o.f[5][1] = mt::max(x.a[0], x.b[0], x.c[0]); o.i[0][0] = mt::min(x.ia[0], x.ib[0], x.n); o.i[0][1] = mt::max(x.ia[0], x.ib[0], x.n);
}
template<int N> void ints(const In& x, Out& o)
{
	typedef typename T<N>::I I; typedef typename T<N>::U U; I a = IA, b = IB; int32_t n = x.n, h = (int32_t)x.sh; U ush = UB & 31u; I sh = (I)ush;
	put(o.i[0], a + b); put(o.i[1], a - b); put(o.i[2], a * b); put(o.i[3], a / b); put(o.i[4], a % b); put(o.i[5], a & b); put(o.i[6], a | b); put(o.i[7], a ^ b);
	put(o.i[8], a >> h); put(o.i[9], a << h); put(o.i[10], a >> sh); put(o.i[11], a << sh); put(o.i[12], -a); put(o.i[13], !a); put(o.i[14], ~a);
	put(o.i[15], a + n); put(o.i[16], a - n); put(o.i[17], a * n); put(o.i[18], a / n); put(o.i[19], a % n); put(o.i[20], a & n); put(o.i[21], a | n); put(o.i[22], a ^ n);
	put(o.i[23], n + a); put(o.i[24], n - a); put(o.i[25], n * a); put(o.i[26], n / b); put(o.i[27], n % b);
	I r = a; r += b; r -= I(n); r ^= b; r |= I(1); r &= I(0x7FFFFF); r %= I(1000); r *= I(3); r >>= 1; r <<= 2; r /= I(2); put(o.i[28], r);
	r = a; r += n; r -= 3; r ^= 5; r |= 1; r &= 0x7FFFFF; r %= 999; r *= 3; r /= 2; put(o.i[29], r); r = a & I(0xFFFF); r <<= sh & I(7); r >>= sh & I(15); put(o.i[30], r); r = n; put(o.i[31], r);
	put(o.i[32], min(a, b)); put(o.i[33], max(a, b)); put(o.i[34], clamp(a, min(b, I(n)), max(b, I(n)))); put(o.i[35], select(a < b, a, b));
	put(o.u[0], a < b); put(o.u[1], a > b); put(o.u[2], a <= b); put(o.u[3], a >= b); put(o.u[4], equal(a, b)); put(o.u[5], notEqual(a, b)); put(o.u[6], a < n); put(o.u[7], a > n); put(o.u[8], a <= n); put(o.u[9], a >= n);
	o.u[10][0] = yes(a == b); o.u[10][1] = yes(a != b); o.u[11][0] = yes(a == n); o.u[11][1] = yes(a != n); o.u[12][0] = yes(I(n) == n);
	if constexpr (T<N>::simd) { put(o.i[36], bic(a, b)); o.i[37][0] = min4(a); o.i[37][1] = max4(a); o.i[37][2] = min3(a); o.i[37][3] = max3(a); o.i[38][0] = mt::min(a); o.i[38][1] = mt::max(a); }
	else { put(o.i[39], max(min(a, b, I(n)), min(a, b))); put(o.i[36], max(a, b, I(n))); put(o.i[37], max(I(n), a, b)); put(o.i[38], min(b, I(n), a)); }
}
// four words that are not always whole masks: all bits set or none, but for one bit of one lane, or mixed
void bitLanes(const In& x, uint32_t* z)
{
	uint32_t kind = (x.un >> 3) % 6, one = 1u << (x.sh & 31), lane = x.ua[1] & 3;
	for (uint32_t k = 0; k < 4; k++)
	{
		uint32_t base = kind & 1 ? 0xFFFFFFFFu : 0;
		z[k] = kind < 2 ? base : kind < 4 ? (k == lane ? base ^ one : base) : kind == 4 ? x.ua[k] & 0x7F7F7F7Fu : x.ua[k] | 0x80808080u;
	}
}

template<int N> void uints(const In& x, Out& o)
{
	typedef typename T<N>::U U; U a = UA, b = UB; uint32_t n = x.un, h = x.sh; U sh = b & 31u;
	put(o.u[0], a + b); put(o.u[1], a - b); put(o.u[2], a * b); put(o.u[3], a / b); put(o.u[4], a % b); put(o.u[5], a & b); put(o.u[6], a | b); put(o.u[7], a ^ b);
	put(o.u[8], a >> h); put(o.u[9], a << h); put(o.u[10], a >> sh); put(o.u[11], a << sh); put(o.u[12], !a); put(o.u[13], ~a);
	put(o.u[14], a + n); put(o.u[15], a - n); put(o.u[16], a * n); put(o.u[17], a / n); put(o.u[18], a % n); put(o.u[19], a & n); put(o.u[20], a | n); put(o.u[21], a ^ n);
	put(o.u[22], n + a); put(o.u[23], n - a); put(o.u[24], n * a); put(o.u[25], n / b); put(o.u[26], n % b);
	U r = a; r += b; r -= U(n); r ^= b; r |= U(1u); r *= U(3u); r >>= 1u; r <<= 2u; r /= U(2u); r %= U(100003u); r &= U(0xFFFFu); put(o.u[27], r);
	put(o.u[28], min(a, b)); put(o.u[29], max(a, b)); put(o.u[30], clamp(a, min(b, U(n)), max(b, U(n)))); put(o.u[31], select(a < b, a, b));
	put(o.u[32], a < b); put(o.u[33], a > b); put(o.u[34], a <= b); put(o.u[35], a >= b); put(o.u[36], equal(a, b)); put(o.u[37], notEqual(a, b));
	put(o.u[38], a < n); put(o.u[39], n >= a);
	put((uint32_t*)o.f[0], a > n); put((uint32_t*)o.f[1], a <= n); o.i[0][0] = a == b; o.i[0][1] = a != b; o.i[0][2] = a == n; o.i[0][3] = a != n;
	uint8_t mip = (uint8_t)(x.sh % 30);
	{
		uint32_t zz[4]; bitLanes(x, zz); U z = b; for (int k = 0; k < T<N>::W; k++) z[k] = zz[k];
		o.i[2][0] = areAllTrue(z); o.i[2][1] = areAllFalse(z); o.i[2][2] = areAnyTrue(z); o.i[2][3] = areAnyFalse(z); o.i[3][0] = getTrues(z);
	}
	if constexpr (T<N>::simd)
	{
		put((uint32_t*)o.f[2], bic(a, b)); uint32_t t[4] = {min4(a), max4(a), min3(a), max3(a)}; memcpy(o.f[3], t, 16); o.i[1][0] = (int32_t)mt::min(a); o.i[1][1] = (int32_t)mt::max(a);
		o.i[1][2] = mt::calcMipCount3(b); put((uint32_t*)o.f[4], mt::calcSizeAtMip3(a, mip));
	}
	else
	{
		put((uint32_t*)o.f[3], max(min(a, b, U(n)), U(2u))); put((uint32_t*)o.f[5], max(a, b, U(n))); put((uint32_t*)o.f[6], max(U(n), a, b)); put((uint32_t*)o.f[7], min(b, U(n), a));
		if constexpr (T<N>::W == 3) { o.i[1][2] = mt::calcMipCount(b); put((uint32_t*)o.f[4], mt::calcSizeAtMip(a, mip)); }
		if constexpr (T<N>::W == 2) { o.i[1][2] = mt::calcMipCount(b); put((uint32_t*)o.f[4], mt::calcSizeAtMip(a, mip)); }
		if constexpr (T<N>::W == 4) { o.i[1][2] = mt::calcMipCount(b.x); uint32_t t[4] = {mt::calcSizeAtMip(a.x, mip), mt::calcSizeAtMip(a.y, mip), mt::calcSizeAtMip(a.z, mip), mt::calcSizeAtMip(a.w, mip)}; memcpy(o.f[4], t, 16); }
	}
}
template<int N> void convert(const In& x, Out& o)
{
	typedef typename T<N>::F F; typedef typename T<N>::I I; typedef typename T<N>::U U; F a = A; F c = abs(C);
	put(o.i[0], (I)a); put(o.u[0], (U)c); put(o.f[0], (F)IA); put(o.f[1], (F)UA); put(o.i[1], (I)UA); put(o.u[1], (U)IA);
	put(o.u[7], IA < IB); put(o.u[8], IA >= IB); put(o.u[9], equal(IA, IB)); put(o.i[10], min(IA, IB)); put(o.i[11], max(IA, IB));
	if constexpr (T<N>::simd)
	{
		put(o.f[2], mt::uintAsFloat(mt::floatAsUint(a))); put(o.f[3], mt::intAsFloat(mt::floatAsInt(a))); put(o.u[2], mt::floatAsUint(a)); put(o.i[2], mt::floatAsInt(a)); put(o.i[3], mt::uintAsInt(UA));
		put(o.f[4], (mt::float4)a); put(o.f[5], (mt::float3)a); put(o.f[6], (mt::float2)a); o.f[7][0] = (float)a; put(o.i[4], (mt::int4)IA); put(o.u[3], (mt::uint4)UA); put(o.i[5], (mt::int3)IA); put(o.u[4], (mt::uint2)UA);
		o.i[6][0] = (int32_t)IA; o.u[5][0] = (uint32_t)UA; put(o.i[13], (mt::int2)IA); put(o.u[15], (mt::uint3)UA);
	}
	else
	{
		o.f[7][0] = (float)a; o.i[6][0] = (int32_t)IA; o.u[5][0] = (uint32_t)UA;
		I ia = IA; o.i[12][0] = (int32_t)a; o.u[10][0] = (uint32_t)c; o.u[10][1] = (uint32_t)ia;
		if constexpr (T<N>::W >= 3) { put(o.u[11], (mt::uint2)c); put(o.u[12], (mt::uint2)ia); }
		if constexpr (T<N>::W == 4) { put(o.u[13], (mt::uint3)ia); put(o.u[14], (mt::uint3)UA); }
		if constexpr (T<N>::W >= 3) { put(o.f[6], (mt::float2)a); put(o.u[4], (mt::uint2)UA); put(o.i[7], (mt::int2)a); put(o.i[8], (mt::int2)IA); }
		if constexpr (T<N>::W == 4) { put(o.f[5], (mt::float3)a); put(o.i[5], (mt::int3)IA); put(o.i[9], (mt::int3)a); put(o.u[6], (mt::uint3)c); }
	}
}
template<int N> void lanes(const In& x, Out& o)
{
	typedef typename T<N>::F F; typedef typename T<N>::I I; typedef typename T<N>::U U; F a = A, b = B;
	if constexpr (T<N>::simd)
	{
		put(o.f[0], f4(x.a[0], x.a[1], x.a[2], x.a[3])); put(o.f[1], f4(x.a[0], x.a[1], x.a[2])); put(o.f[2], f4(a, x.s)); put(o.f[3], f4(mt::float4(x.a[0], x.a[1], x.a[2], x.a[3]))); put(o.f[4], f4(mt::float3(x.a[0], x.a[1], x.a[2]))); put(o.f[5], f4(mt::float2(x.a[0], x.a[1])));
		o.f[6][0] = a.getX(); o.f[6][1] = a.getY(); o.f[6][2] = a.getZ(); o.f[6][3] = a.getW(); f4 r = a; r.setX(x.b[0]); r.setY(x.b[1]); r.setZ(x.b[2]); r.setW(x.b[3]); put(o.f[7], r); r = a; r.fixW(); put(o.f[8], r);
		put(o.f[9], a.template swizzle<mt::SwW, mt::SwZ, mt::SwY, mt::SwX>()); put(o.f[10], a.template swizzle<mt::SwY, mt::SwY, mt::SwX, mt::SwW>()); put(o.f[11], a.splatX()); put(o.f[12], a.splatY()); put(o.f[13], a.splatZ()); put(o.f[14], a.splatW());
		for (int k = 0; k < 4; k++) o.f[15][k] = a[(size_t)k];
		r = a; r[x.sh & 3] = x.s; put(o.f[16], r); alignas(16) float tmp[4]; a.storeAligned(tmp); memcpy(o.f[17], tmp, 16); r.loadAligned(tmp); put(o.f[18], r);
		i4 ia = IA, ib = IB; put(o.i[0], i4(x.ia[0], x.ia[1], x.ia[2])); put(o.i[1], i4(ia, x.n)); put(o.i[2], ia.template swizzle<mt::SwW, mt::SwZ, mt::SwY, mt::SwX>()); ia.setX(x.ib[0]); ia.setY(x.ib[1]); ia.setZ(x.ib[2]); ia.setW(x.ib[3]); put(o.i[3], ia); ia = ib; ia.fixW(); put(o.i[4], ia); put(o.i[5], i4(mt::int3(x.ia[0], x.ia[1], x.ia[2])));
		o.i[6][0] = ib.getX(); o.i[6][1] = ib.getY(); o.i[6][2] = ib.getZ(); o.i[6][3] = ib.getW(); put(o.i[7], ib.splatY()); put(o.i[8], i4(mt::int2(x.ia[0], x.ia[1]))); put(o.i[9], i4(mt::int4(x.ia[0], x.ia[1], x.ia[2], x.ia[3])));
		put(o.i[10], i4(x.ia[0], x.ia[1], x.ia[2], x.ia[3])); put(o.i[11], ib.splatX()); put(o.i[12], ib.splatZ()); put(o.i[13], ib.splatW()); for (int k = 0; k < 4; k++) o.i[14][k] = ib[(size_t)k]; ia = ib; ia[x.sh & 3] = x.n; put(o.i[15], ia); alignas(16) int32_t itmp[4]; ib.storeAligned(itmp); memcpy(o.i[16], itmp, 16); ia.loadAligned(itmp); put(o.i[17], ia);
		put(o.i[18], ib.template swizzle<mt::SwZ, mt::SwX, mt::SwW, mt::SwY>()); put(o.i[19], ib.template swizzle<mt::SwY, mt::SwY, mt::SwX, mt::SwW>()); put(o.i[20], ib.template swizzle<mt::SwX, mt::SwY, mt::SwZ, mt::SwW>()); put(o.i[21], (i4)u4(x.ua[0], x.ua[1], x.ua[2], x.ua[3])); put(o.i[22], i4(ib.data)); put(o.i[23], i4((mt::int4)ib));
		u4 ua = UA, ub = UB; put(o.u[0], u4(x.ua[0], x.ua[1], x.ua[2])); put(o.u[1], u4(ua, x.un)); put(o.u[2], ua.template swizzle<mt::SwW, mt::SwZ, mt::SwY, mt::SwX>()); ua.setX(x.ub[0]); ua.setY(x.ub[1]); ua.setZ(x.ub[2]); ua.setW(x.ub[3]); put(o.u[3], ua); ua = ub; ua.fixW(); put(o.u[4], ua); put(o.u[5], u4(mt::uint3(x.ua[0], x.ua[1], x.ua[2])));
		o.u[6][0] = ub.getX(); o.u[6][1] = ub.getY(); o.u[6][2] = ub.getZ(); o.u[6][3] = ub.getW(); put(o.u[7], ub.splatZ()); put(o.u[8], u4(mt::uint2(x.ua[0], x.ua[1]))); put(o.u[9], u4(mt::uint4(x.ua[0], x.ua[1], x.ua[2], x.ua[3])));
		put(o.u[10], u4(x.ua[0], x.ua[1], x.ua[2], x.ua[3])); put(o.u[11], ub.splatX()); put(o.u[12], ub.splatY()); put(o.u[13], ub.splatW()); for (int k = 0; k < 4; k++) o.u[14][k] = ub[(size_t)k]; ua = ub; ua[x.sh & 3] = x.un; put(o.u[15], ua); alignas(16) uint32_t utmp[4]; ub.storeAligned(utmp); memcpy(o.u[16], utmp, 16); ua.loadAligned(utmp); put(o.u[17], ua);
		put(o.u[18], ub.template swizzle<mt::SwZ, mt::SwX, mt::SwW, mt::SwY>()); put(o.u[19], ub.template swizzle<mt::SwY, mt::SwY, mt::SwX, mt::SwW>()); put(o.u[20], ub.template swizzle<mt::SwX, mt::SwY, mt::SwZ, mt::SwW>()); put(o.u[21], (u4)i4(x.ia[0], x.ia[1], x.ia[2], x.ia[3])); put(o.u[22], u4(ub.data)); put(o.u[23], u4((mt::uint4)ub));
		put(o.f[19], a.template swizzle<mt::SwZ, mt::SwX, mt::SwW, mt::SwY>()); put(o.f[20], a.template swizzle<mt::SwX, mt::SwZ, mt::SwZ, mt::SwX>()); put(o.f[21], f4(a.data)); put(o.f[22], f4((mt::float4)a));
	}
	else
	{
		for (int k = 0; k < T<N>::W; k++) o.f[15][k] = a[(size_t)k];
		F r = a; r[x.sh % T<N>::W] = x.s; put(o.f[16], r);
		if constexpr (T<N>::W == 4)
		{
			using namespace mt; float2 xy(x.a[0], x.a[1]), yz(x.a[1], x.a[2]), zw(x.a[2], x.a[3]); put(o.f[0], float4(xy, x.a[2], x.a[3])); put(o.f[1], float4(x.a[0], yz, x.a[3])); put(o.f[2], float4(x.a[0], x.a[1], zw)); put(o.f[3], float4(xy, zw));
			put(o.f[4], float4(float3(x.a[0], x.a[1], x.a[2]), x.a[3])); put(o.f[5], float4(x.a[0], float3(x.a[1], x.a[2], x.a[3])));
			int2 ixy(x.ia[0], x.ia[1]), iyz(x.ia[1], x.ia[2]), izw(x.ia[2], x.ia[3]); put(o.i[0], int4(ixy, x.ia[2], x.ia[3])); put(o.i[1], int4(x.ia[0], iyz, x.ia[3])); put(o.i[2], int4(x.ia[0], x.ia[1], izw)); put(o.i[3], int4(ixy, izw)); put(o.i[4], int4(int3(x.ia[0], x.ia[1], x.ia[2]), x.ia[3])); put(o.i[5], int4(x.ia[0], int3(x.ia[1], x.ia[2], x.ia[3])));
			uint2 uxy(x.ua[0], x.ua[1]), uyz(x.ua[1], x.ua[2]), uzw(x.ua[2], x.ua[3]); put(o.u[0], uint4(uxy, x.ua[2], x.ua[3])); put(o.u[1], uint4(x.ua[0], uyz, x.ua[3])); put(o.u[2], uint4(x.ua[0], x.ua[1], uzw)); put(o.u[3], uint4(uxy, uzw)); put(o.u[4], uint4(uint3(x.ua[0], x.ua[1], x.ua[2]), x.ua[3])); put(o.u[5], uint4(x.ua[0], uint3(x.ua[1], x.ua[2], x.ua[3])));
		}
		if constexpr (T<N>::W == 3) { using namespace mt; put(o.f[0], float3(float2(x.a[0], x.a[1]), x.a[2])); put(o.f[1], float3(x.a[0], float2(x.a[1], x.a[2]))); put(o.i[0], int3(int2(x.ia[0], x.ia[1]), x.ia[2])); put(o.i[1], int3(x.ia[0], int2(x.ia[1], x.ia[2]))); put(o.u[0], uint3(uint2(x.ua[0], x.ua[1]), x.ua[2])); put(o.u[1], uint3(x.ua[0], uint2(x.ua[1], x.ua[2]))); }
	}
	const F ka = a; const I ki = IA; const U ku = UA; I ri = IB; U ru = UB; size_t at = T<N>::simd ? x.sh & 3 : x.sh % T<N>::W; ri[at] = x.n; ru[at] = x.un; put(o.i[31], ri); put(o.u[31], ru);
	for (int k = 0; k < T<N>::W; k++) { o.f[30][k] = ka[(size_t)k]; o.i[30][k] = ki[(size_t)k]; o.u[30][k] = ku[(size_t)k]; o.i[32][k] = ri[(size_t)k]; o.u[32][k] = ru[(size_t)k]; }
	(void)b;
}
template<class M, int W> void matrixOps(const In& x, Out& o)
{
	M m = getM(x.m, (M*)nullptr), p = getM(x.p, (M*)nullptr); float s = x.s;
	putM(o.f + 0, m * p); putM(o.f + 4, m + s); putM(o.f + 8, m - s); putM(o.f + 12, m * s); putM(o.f + 16, m / s); const M km = m; for (int k = 0; k < W; k++) put((float*)o.u[2 + k], km[(size_t)k]); M r = m; r *= p; putM(o.f + 20, r);
	o.u[1][0] = yes(M::identity * m == m); o.u[1][1] = yes(M::zero + 1.0f == M::one); r = m; r += s; r -= s * 0.5f; r *= s; r /= 2.0f; putM(o.f + 24, r); o.u[0][0] = yes(m == m); o.u[0][1] = yes(m != m); o.u[0][2] = yes(m == p); o.u[0][3] = yes(m != p);
}
template<int N> void matrix(const In& x, Out& o)
{
	if constexpr (N == 0)
	{
		matrixOps<m4, 4>(x, o); m4 m = getM(x.m, (m4*)nullptr), p = getM(x.p, (m4*)nullptr); f4 v(x.a); put(o.f[28], m * v); put(o.f[29], multiply3x3(m, v)); putM(o.f + 30, transpose4x4(m)); putM(o.f + 34, multiply3x3(m, p));
		putM((float (*)[4])o.i, transpose3x3(m)); m4 r = m; r[1] = v; putM((float (*)[4])(o.i + 4), r); putM((float (*)[4])(o.i + 8), m4((mt::float4x4)m)); putM((float (*)[4])(o.i + 12), (mt::float4x3)m); putM((float (*)[4])(o.i + 16), (mt::float3x3)m); putM((float (*)[4])(o.i + 20), (mt::float2x2)m);
		putM((float (*)[4])(o.i + 24), m4((mt::float3x3)m, m.c3, f4(x.b))); putM((float (*)[4])(o.i + 28), m4((mt::float4x3)m, f4(x.b)));
		putM((float (*)[4])(o.i + 32), m4(x.m[0], x.m[4], x.m[8], x.m[12], x.m[1], x.m[5], x.m[9], x.m[13], x.m[2], x.m[6], x.m[10], x.m[14], x.m[3], x.m[7], x.m[11], x.m[15]));
	}
	if constexpr (N == 1)
	{
		using namespace mt; matrixOps<float4x4, 4>(x, o); float4x4 m = getM(x.m, (float4x4*)nullptr); float4 v = get(x.a, (float4*)nullptr); float s = x.s; put(o.f[28], m * v); put(o.f[29], v * m); putM(o.f + 30, transpose(m)); putM(o.f + 34, s * m);
		putM((float (*)[4])o.i, s + m); float4x4 r = m; r[1] = v; putM((float (*)[4])(o.i + 4), r); putM((float (*)[4])(o.i + 8), s - m); putM((float (*)[4])(o.i + 12), (float4x3)m); putM((float (*)[4])(o.i + 16), (float3x3)m); putM((float (*)[4])(o.i + 20), (float2x2)m);
		putM((float (*)[4])(o.i + 24), float4x4((float3x3)m, m.c3, get(x.b, (float4*)nullptr))); putM((float (*)[4])(o.i + 28), float4x4((float4x3)m, get(x.b, (float4*)nullptr)));
		putM((float (*)[4])(o.i + 32), float4x4(x.m[0], x.m[4], x.m[8], x.m[12], x.m[1], x.m[5], x.m[9], x.m[13], x.m[2], x.m[6], x.m[10], x.m[14], x.m[3], x.m[7], x.m[11], x.m[15])); putM((float (*)[4])(o.i + 36), s / m);
	}
	if constexpr (N == 2)
	{
		using namespace mt; matrixOps<float3x3, 3>(x, o); float3x3 m = getM(x.m, (float3x3*)nullptr); float3 v = get(x.a, (float3*)nullptr); float s = x.s; put(o.f[28], m * v); put(o.f[29], v * m); putM(o.f + 30, transpose(m)); putM(o.f + 34, s * m);
		putM((float (*)[4])o.i, s + m); float3x3 r = m; r[1] = v; putM((float (*)[4])(o.i + 4), r); putM((float (*)[4])(o.i + 8), s - m);
		float4x3 q = getM(x.m, (float4x3*)nullptr); put((float*)o.i[12], q * get(x.a, (float4*)nullptr)); put((float*)o.i[13], ((float4x3)q).c3); putM((float (*)[4])(o.i + 14), q + s); putM((float (*)[4])(o.i + 18), q * s); putM((float (*)[4])(o.i + 22), s - q); putM((float (*)[4])(o.i + 26), q / s);
		float4x3 k = q; k[3] = v; putM((float (*)[4])(o.i + 30), k); putM((float (*)[4])(o.i + 34), (float2x2)q); putM((float (*)[4])(o.i + 36), (float3x3)q);
		const float* e = x.m; const float4x3 kq(e[0], e[4], e[8], e[12], e[1], e[5], e[9], e[13], e[2], e[6], e[10], e[14]); for (int j = 0; j < 4; j++) { put((float*)o.u[6 + j], kq[(size_t)j]); } putM((float (*)[4])(o.u + 10), (float2x2)m);
	}
	if constexpr (N == 3)
	{
		using namespace mt; matrixOps<float2x2, 2>(x, o); float2x2 m = getM(x.m, (float2x2*)nullptr); float2 v = get(x.a, (float2*)nullptr); float s = x.s; put(o.f[28], m * v); put(o.f[29], v * m); putM(o.f + 30, transpose(m)); putM(o.f + 34, s * m);
		putM((float (*)[4])o.i, s + m); float2x2 r = m; r[1] = v; putM((float (*)[4])(o.i + 4), r); putM((float (*)[4])(o.i + 8), s - m);
	}
}
template<int N> void inverses(const In& x, Out& o)
{
	if constexpr (N == 0) { m4 m = getM(x.m, (m4*)nullptr), i = inverse4x4(m); putM(o.f, i); putM(o.f + 4, m * i); }
	if constexpr (N == 1) { auto m = getM(x.m, (mt::float4x4*)nullptr); auto i = inverse(m); putM(o.f, i); putM(o.f + 4, m * i); }
	if constexpr (N == 2) { auto m = getM(x.m, (mt::float3x3*)nullptr); auto i = inverse(m); putM(o.f, i); putM(o.f + 4, m * i); }
	if constexpr (N == 3) { auto m = getM(x.m, (mt::float2x2*)nullptr); auto i = inverse(m); putM(o.f, i); putM(o.f + 4, m * i); }
}
template<int N> void quats(const In& x, Out& o)
{
	if constexpr (N == 0)
	{
		quat q{f4(x.q)}, r{f4(x.r)}; f4 v(x.a); put(o.f[0], q * r); put(o.f[1], q * v); put(o.f[2], v * q); put(o.f[3], conjugate(q)); put(o.f[4], inverse(q)); put(o.f[5], normalize(quat((f4)q * 2.5f)));
		f4 axis = normalize3(f4(x.b)); put(o.f[6], quat(x.s, axis)); put(o.f[7], axis); putM(o.f + 8, mt::rotate(q)); put(o.f[12], mt::extractQuat(mt::rotate(q))); quat k = q; k *= r; put(o.f[13], k);
		put(o.f[14], q * (r * v)); put(o.f[15], (q * r) * v); put(o.f[16], mt::multiply3x3(mt::rotate(q), v)); put(o.f[17], mt::inverse(quat((f4)q * x.t)) * quat((f4)q * x.t)); put(o.f[18], quat::identity * q); typedef decltype(f4().data) Reg; if constexpr (std::is_constructible_v<quat, Reg>) put(o.f[19], quat(Reg(f4(x.q).data))); else put(o.f[19], f4(x.q));
	}
	(void)x; (void)o;
}
template<int N> void xform(const In& x, Out& o)
{
	if constexpr (N == 0)
	{
		using namespace mt; m4 m = getM(x.m, (m4*)nullptr); f4 t(x.a), s(x.c); quat q{f4(x.q)}; f4 sc = select(mt::abs(s) < 0.05f, f4(0.5f), mt::abs(s));
		putM(o.f + 0, translate(t)); putM(o.f + 4, translate(m, t)); putM(o.f + 8, translate(t, m)); putM(o.f + 12, scale(s)); putM(o.f + 16, scale(m, s)); putM(o.f + 20, scale(s, m)); put(o.f[24], sc);
		m4 k = calcModel(t, q, sc); putM(o.f + 25, k); f4 p2, s2; quat q2; extractTransform(k, p2, q2, s2); put(o.f[29], p2); put(o.f[30], q2); put(o.f[31], s2);
		m4 k1 = calcModel(t, q); putM(o.f + 32, k1); f4 p3; quat q3; extractTransform(k1, p3, q3); put(o.f[36], p3); put(o.f[37], q3); put(o.f[38], extractScale(k)); put(o.f[39], getTranslation(m));
		putM((float (*)[4])(o.i + 0), extractRotation(k)); putM((float (*)[4])(o.i + 4), extractRotationOnly(m)); putM((float (*)[4])(o.i + 8), inverseTransRot(k1)); m4 r = m; setTranslation(r, t); putM((float (*)[4])(o.i + 12), r); put((float*)o.i[16], extractScale2(k));
		f4 from = t, to(x.b); putM((float (*)[4])(o.i + 17), lookAt(from, to)); putM((float (*)[4])(o.i + 21), rotate(from, to, f4::top)); put((float*)o.i[25], lookAtQuat(normalize3(to - from))); putM((float (*)[4])(o.i + 26), k1 * inverseTransRot(k1)); putM((float (*)[4])(o.i + 30), calcModel(t)); put((float*)o.i[34], to - from);
	}
	(void)x; (void)o;
}
template<int N> void projections(const In& x, Out& o) // points of the view volume (x.m and x.p, see viewPoint) under the five projections
{
	if constexpr (N < 2)
	{
		using namespace mt; float2 w(x.b[0], x.b[1]), h(x.b[2], x.b[3]), d(x.c[0], x.c[1]);
		const float4x4 P[] = {calcPerspProjInfRevZ(x.a[0], x.a[1], x.a[2]), calcPerspProjRevZ(x.a[0], x.a[1], x.a[2], x.a[3]), calcPerspProj(x.a[0], x.a[1], x.a[2], x.a[3]), calcOrthoProjRevZ(w, h, d), calcOrthoProj(w, h, d)};
		for (int j = 0; j < 5; j++) for (int i = 0; i < 3; i++) { const float* v = (j > 2 ? x.p : x.m) + i * 4; if constexpr (N == 0) put(o.f[j * 3 + i], m4(P[j]) * f4(v[0], v[1], v[2], 1.0f)); else put(o.f[j * 3 + i], P[j] * float4(v[0], v[1], v[2], 1.0f)); }
	}
	(void)x; (void)o;
}
template<int N> void explog(const In& x, Out& o)
{
	typedef typename T<N>::F F; F a = A, b = B; put(o.f[0], log(abs(a))); put(o.f[1], exp(a)); put(o.f[2], exp(log(abs(b)))); put(o.f[3], exp(b)); put(o.f[4], log(abs(C)));
	if constexpr (T<N>::simd) { put(o.f[5], log(f4(INFINITY, 0.0f, -1.0f, 1.0f))); put(o.f[6], exp(f4(0.0f, -200.0f, 200.0f, 1.0f))); put(o.f[7], log(f4(x.t * FLT_MIN, FLT_MAX, FLT_MIN, 2.0f))); }
}
template<int N> void powers(const In& x, Out& o)
{
	typedef typename T<N>::F F; F a = abs(A); F e = clamp(B, F(-6.0f), F(6.0f)); put(o.f[0], pow(a, e)); put(o.f[3], e);
	if constexpr (T<N>::simd) { put(o.f[1], fastPow(a, e)); f4 n = mt::round(e); put(o.f[2], fastPow(A, n)); put(o.f[4], n); put(o.f[5], fastPow(f4::zero, mt::abs(e) + 0.5f)); put(o.f[6], fastPow(a, f4::zero)); put(o.f[8], mt::fastGammaCorrection(clamp(a, f4::zero, f4::one))); put(o.f[10], clamp(a, f4::zero, f4::one)); put(o.f[11], mt::fastGammaCorrection(clamp(a, f4::zero, f4::one), x.t + 0.1f)); }
	else { F g = clamp(a, F(0.0f), F(1.0f)); put(o.f[7], gain(g, abs(e))); put(o.f[10], g); o.f[8][0] = mt::gain(std::min(1.0f, std::fabs(x.a[0])), std::fabs(x.t) * 3); }
}
template<int N> void trig(const In& x, Out& o)
{
	typedef typename T<N>::F F; F a = A, b = B;
	if constexpr (T<N>::simd) { f4 s, c; sinCos(a, s, c); put(o.f[0], s); put(o.f[1], c); sinCos(b * 0.01f, s, c); put(o.f[2], s); put(o.f[3], c); put(o.f[4], b * 0.01f); }
	else { put(o.f[0], sin(a)); put(o.f[1], cos(a)); put(o.f[2], sin(b * 0.01f)); put(o.f[3], cos(b * 0.01f)); put(o.f[4], b * 0.01f); }
}
template<int N> void stdfn(const In& x, Out& o)
{
	typedef typename T<N>::F F;
	if constexpr (!T<N>::simd)
	{
		F a = A, p = abs(A), u = F(x.t) * clamp(B, F(-1.0f), F(1.0f)), h = clamp(C, F(-9.0f), F(9.0f)); put(o.f[30], u); put(o.f[31], h);
		put(o.f[0], exp(h)); put(o.f[1], exp2(h)); put(o.f[2], expm1(h)); put(o.f[3], log(p)); put(o.f[4], log10(p)); put(o.f[5], log2(p)); put(o.f[6], log1p(p)); put(o.f[7], cbrt(a)); put(o.f[8], sin(a)); put(o.f[9], cos(a)); put(o.f[10], tan(u));
		put(o.f[11], asin(u)); put(o.f[12], acos(u)); put(o.f[13], atan(a)); put(o.f[14], atan(a, B)); put(o.f[15], sinh(h)); put(o.f[16], cosh(h)); put(o.f[17], tanh(a)); put(o.f[18], asinh(a)); put(o.f[19], acosh(p + 1.0f)); put(o.f[20], atanh(u * 0.9f)); put(o.f[21], p + 1.0f); put(o.f[22], u * 0.9f);
	}
	(void)x; (void)o;
}
// two colours of related channels and a level, so that every comparison is often true and often just missed
void colours(const In& x, uint8_t* ch)
{
	for (int k = 0; k < 4; k++) { ch[k] = (uint8_t)x.ua[k]; ch[4 + k] = (uint8_t)x.ub[k]; } uint32_t r = x.un; ch[8] = (uint8_t)(r >> 8);
	switch (r % 7)
	{
	case 0: break;
	case 1: for (int k = 0; k < 4; k++) ch[4 + k] = ch[k]; break;
	case 2: case 3: for (int k = 0; k < 4; k++) ch[4 + k] = ch[k]; ch[4 + (r >> 4 & 3)] += r & 64 ? 1 : 255; break;
	case 4: for (int k = 0; k < 4; k++) ch[4 + k] = ch[k] + (r & 64 ? 1 : 255); break;
	case 5: for (int k = 0; k < 4; k++) ch[4 + k] = ch[k] + (r & 64 ? 1 : 255); ch[4 + (r >> 4 & 3)] = ch[r >> 4 & 3]; break;
	default: for (int k = 0; k < 4; k++) ch[4 + k] = ch[k] + (r & 64 ? 1 : 255); ch[4 + (r >> 4 & 3)] = ch[r >> 4 & 3] - (r & 64 ? 1 : 255); break;
	}
	if (r >> 16 & 1) { for (int k = 0; k < 4; k++) ch[k] = ch[8]; if (r >> 17 & 1) ch[r >> 18 & 3] += r >> 20 & 1 ? 1 : 255; if (r >> 21 & 1) for (int k = 0; k < 4; k++) if (k != (int)(r >> 18 & 3)) ch[k] += r >> 22 & 1 ? 1 : 255; }
}
template<int N> void codes(const In& x, Out& o)
{
	if constexpr (N == 0)
	{
		using mt::Version; Version v((uint8_t)x.ua[0], (uint8_t)x.ua[1], (uint8_t)x.ua[2], (uint8_t)x.ua[3]), w((uint8_t)x.ub[0], (uint8_t)x.ub[1], (uint8_t)x.ub[2], (uint8_t)x.ub[3]);
		if (x.sh & 1) { w = v; if (x.sh & 2) w[(x.sh >> 2) & 3] = (uint8_t)x.un; }
		Version z((uint32_t)v); o.u[0][0] = (uint32_t)v; o.u[0][1] = (uint32_t)w; o.u[0][2] = (uint32_t)z; o.u[0][3] = yes(z == v);
		o.u[1][0] = yes(v < w); o.u[1][1] = yes(v > w); o.u[1][2] = yes(v <= w); o.u[1][3] = yes(v >= w); o.u[2][0] = yes(v == w); o.u[2][1] = yes(v != w); o.u[2][2] = v.major; o.u[2][3] = v.build; o.u[3][0] = v.minor; o.u[3][1] = v.patch; o.u[3][2] = z[1]; o.u[3][3] = z[2];
		o.u[6][0] = w.major; o.u[6][1] = w.minor; o.u[6][2] = w.patch; o.u[6][3] = w.build;
		using namespace mt; Bits a = (Bits)(((uint64_t)x.ua[0] << 32) | x.ua[1]), b = (Bits)(((uint64_t)x.ub[0] << 32) | x.ub[1]); Bits k[4] = {a | b, a & b, a ^ b, ~a}; Bits l = a; l |= b; Bits m = a; m &= b; Bits n = a; n ^= b; Bits c[4] = {l, m, n, !a};
		memcpy(o.i[0], k, 32); memcpy(o.i[2], c, 32); o.u[4][0] = yes(hasAnyFlag(a, b)); o.u[4][1] = yes(hasAnyFlag(a, Bits::None)); o.u[4][2] = yes(hasAnyFlag(a, ~a)); o.u[4][3] = yes(hasAnyFlag(a, (Bits)(1ull << (x.un & 63)))); const Version kv = v; uint8_t ch[9]; colours(x, ch); Color p(ch[0], ch[1], ch[2], ch[3]), q(ch[4], ch[5], ch[6], ch[7]); uint8_t g = ch[8]; o.u[7][1] = (uint32_t)Color(g); for (int i = 0; i < 4; i++) o.u[8][i] = kv[(size_t)i];
		bool f[18] = {p == q, p != q, p < q, p > q, p <= q, p >= q, p == g, p != g, p < g, p > g, p <= g, p >= g, g == p, g != p, g < p, g > p, g <= p, g >= p}; uint32_t fl = 0; for (int i = 0; i < 18; i++) fl |= yes(f[i]) << i; o.u[7][0] = fl;
		o.u[5][0] = yes(hasOneFlag(a, a)); o.u[5][1] = yes(hasOneFlag((Bits)(1ull << (x.un & 63)), (Bits)(1ull << (x.un & 63))));
	}
	(void)x; (void)o;
}
// default construction over memory that held something else
template<class V> V fresh() { alignas(32) unsigned char raw[sizeof(V)]; memset(raw, 0xA5, sizeof raw); asm volatile("" ::"r"(raw) : "memory"); return *new (raw) V(); }
template<class V, class S> void wholeForms(V a, V b, S n, S (*o)[4], uint32_t (*u)[4])
{
	V sa = a & V((S)7), ns = b & V((S)31); S n5 = n & 31; int k = 0; auto s = [&](V v) { put(o[k++], v); }; auto m = [&](auto v) { put(u[k++], v); };
	s(n + b); s(n - b); s(n * b); s(n / b); s(n % b); s(n & b); s(n | b); s(n ^ b); s(n >> ns); s(n << ns); V r;
	r = a; r += b; s(r); r = a; r -= b; s(r); r = a; r *= b; s(r); r = a; r /= b; s(r); r = a; r %= b; s(r); r = a; r &= b; s(r); r = a; r |= b; s(r); r = a; r ^= b; s(r); r = a; r >>= ns; s(r); r = sa; r <<= ns; s(r);
	r = a; r += n; s(r); r = a; r -= n; s(r); r = a; r *= n; s(r); r = a; r /= n; s(r); r = a; r %= n; s(r); r = a; r &= n; s(r); r = a; r |= n; s(r); r = a; r ^= n; s(r); r = a; r >>= n5; s(r); r = sa; r <<= n5; s(r);
	r = n; s(r); s(a >> n5); s(sa << n5); s(a >> ns); s(sa << ns); s(fresh<V>()); r = a; r = b; s(r);
	k = 0; m(n < b); m(n > b); m(n <= b); m(n >= b); m(a < n); m(a > n); m(a <= n); m(a >= n); m(a < b); m(a > b); m(a <= b); m(a >= b); u[12][0] = n == b; u[12][1] = n != b; u[13][0] = a == n; u[13][1] = a != n;
}
template<int N> void forms(const In& x, Out& o)
{
	using namespace mt; typedef typename T<N>::F F; typedef typename T<N>::I I; typedef typename T<N>::U U; int32_t n = x.n; uint32_t un = x.un;
	switch (x.sh & 3)
	{
	case 0: wholeForms<I, int32_t>(IA, IB, n, o.i, o.u); put(o.i[37], I::zero); put(o.i[38], I::one); put(o.i[39], I::minusOne); if constexpr (T<N>::simd) { put((int32_t*)o.f[0], I::min); put((int32_t*)o.f[1], I::max); put((int32_t*)o.f[2], I((int32_t*)x.ia)); } break;
	case 1: wholeForms<U, uint32_t>(UA, UB, un, o.u, (uint32_t (*)[4])o.i); put(o.u[37], U::zero); put(o.u[38], U::one); if constexpr (T<N>::simd) put((uint32_t*)o.f[0], U::max); else put(o.u[39], -UA); break;
	case 2:
	{
		const F* c[] = {&F::zero, &F::one, &F::minusOne, &F::min, &F::minusMin, &F::max, &F::minusMax, &F::epsilon, &F::inf, &F::minusInf, &F::nan}; for (int k = 0; k < 11; k++) put(o.f[k], *c[k]);
		if constexpr (N != 1) { put(o.f[11], F::left); put(o.f[12], F::right); put(o.f[13], F::bottom); put(o.f[14], F::top); } if constexpr (N == 0 || N == 2) { put(o.f[15], F::back); put(o.f[16], F::front); }
		if constexpr (N > 1) { put(o.i[0], I::left); put(o.i[1], I::right); put(o.i[2], I::bottom); put(o.i[3], I::top); } if constexpr (N == 2) { put(o.i[4], I::back); put(o.i[5], I::front); }
		put(o.f[17], fresh<F>()); F a = A, b = B; float s = x.s; put(o.f[18], s + a); put(o.f[19], s - a); put(o.f[20], s * a); put(o.f[21], s / b); o.u[0][0] = yes(s == a); o.u[0][1] = yes(s != a); put(o.u[1], s < a); put(o.u[2], s > a); put(o.u[3], s <= a); put(o.u[4], s >= a);
		break;
	}
	default:
	{
		typedef typename std::conditional<N == 0, m4, typename std::conditional<N == 1, float4x4, typename std::conditional<N == 2, float3x3, float2x2>::type>::type>::type M; M m = getM(x.m, (M*)nullptr), r;
		o.u[17][0] = yes(fresh<M>() == M::zero); o.u[17][1] = yes(M(x.s) == M::zero + x.s); putM(o.f + 0, M::zero); putM(o.f + 4, M::one); putM(o.f + 8, M::minusOne); putM(o.f + 12, M::identity); float s = x.s; r = m; r += s; putM(o.f + 16, r); r = m; r -= s; putM(o.f + 20, r); r = m; r *= s; putM(o.f + 24, r); r = m; r /= s; putM(o.f + 28, r);
		if constexpr (N == 0) { putM((float (*)[4])(o.i + 0), M::min); putM((float (*)[4])(o.i + 4), M::max); putM((float (*)[4])(o.i + 8), M::minusMin); putM((float (*)[4])(o.i + 12), M::minusMax); putM((float (*)[4])(o.i + 16), M::epsilon); putM((float (*)[4])(o.i + 20), M::inf); putM((float (*)[4])(o.i + 24), M::minusInf); putM((float (*)[4])(o.i + 28), M::nan); put((float*)o.i[32], quat::identity); put((float*)o.i[33], fresh<quat>()); }
		else { putM(o.f + 32, s + m); putM(o.f + 36, s - m); putM((float (*)[4])o.u, s * m); putM((float (*)[4])(o.u + 4), s / m); }
		if constexpr (N == 1)
		{
			float4x3 q = getM(x.m, (float4x3*)nullptr), p = getM(x.p, (float4x3*)nullptr), t; putM((float (*)[4])(o.i + 0), float4x3::zero); putM((float (*)[4])(o.i + 4), float4x3::one); putM((float (*)[4])(o.i + 8), float4x3::minusOne); putM((float (*)[4])(o.i + 12), float4x3::identity);
			t = q; t += s; putM((float (*)[4])(o.i + 16), t); t = q; t -= s; putM((float (*)[4])(o.i + 20), t); t = q; t *= s; putM((float (*)[4])(o.i + 24), t); t = q; t /= s; putM((float (*)[4])(o.i + 28), t); putM((float (*)[4])(o.i + 32), q - s); putM((float (*)[4])(o.i + 36), s + q);
			putM((float (*)[4])(o.u + 8), s * q); putM((float (*)[4])(o.u + 12), s / q); o.u[16][0] = yes(q == p); o.u[16][1] = yes(q != p); o.u[16][2] = yes(q == q); o.u[16][3] = yes(q != q); o.u[17][2] = yes(fresh<float4x3>() == float4x3::zero); o.u[17][3] = yes(float4x3(s) == float4x3::zero + s);
		}
	}
	}
}
template<int N> void run(int kind, const In& x, Out& o)
{
	switch (kind)
	{
	case ARITH: arith<N>(x, o); break; case COMPARE: compare<N>(x, o); break; case PICKS: picks<N>(x, o); break; case ROUNDS: rounds<N>(x, o); break; case GEOM: geom<N>(x, o); break; case BLEND: blend<N>(x, o); break;
	case INTS: ints<N>(x, o); break; case UINTS: uints<N>(x, o); break; case CONVERT: convert<N>(x, o); break; case LANES: lanes<N>(x, o); break; case MATRIX: matrix<N>(x, o); break; case INVERSE: inverses<N>(x, o); break;
	case QUATS: quats<N>(x, o); break; case XFORM: xform<N>(x, o); break; case EXPLOG: explog<N>(x, o); break; case POWERS: powers<N>(x, o); break; case TRIG: trig<N>(x, o); break; case STDFN: stdfn<N>(x, o); break; case CODES: codes<N>(x, o); break; case FORMS: forms<N>(x, o); break; case PROJ: projections<N>(x, o); break;
	}
}
#undef A
#undef B
#undef C

// ------------------------------------------------------------------ the reference: double precision and plain integers
const double E = 1.2e-7;
struct Check
{
	int kind, node, w; const In& x; const Out& o; double g; // g: tolerance factor of the rounding mode
	[[noreturn]] void bad(const char* what, int k, double got, double want, double tol) const { rt::violate(node == 0 ? "simd-differs" : "scalar-differs", "%s node, %s: %s component %d is %.9g instead of %.9g (tolerance %.3g)", nodeName[node], opName(kind), what, k, got, want, tol); }
	void f(int slot, int k, const char* what, double want, double tol) const { near(what, k, o.f[slot][k], want, tol); }
	void near(const char* what, int k, double got, double want, double tol) const
	{
		rt::count(rt::M_CHECKS); if (!std::isfinite(want) || std::fabs(want) > 3e38) return;
		tol = tol * g + 3e-38; if (!(std::fabs(got - want) <= tol)) bad(what, k, got, want, tol);
	}
	template<class L> void el(int slot, const char* what, L want, double rel = 1, int lo = 0, int hi = -1) const { for (int k = lo; k < (hi < 0 ? w : hi); k++) { double v = want(k); f(slot, k, what, v, rel * E * std::fabs(v)); } }
	template<class L, class M> void elt(int slot, const char* what, L want, M tol) const { for (int k = 0; k < w; k++) f(slot, k, what, want(k), tol(k)); }
	void whole(const char* what, int k, int64_t got, int64_t want) const { rt::count(rt::M_CHECKS); if (got != want) rt::violate(node == 0 ? "simd-differs" : "scalar-differs", "%s node, %s: %s component %d is %lld instead of %lld", nodeName[node], opName(kind), what, k, (long long)got, (long long)want); }
	template<class L> void ii(int slot, const char* what, L want, int n = -1) const { for (int k = 0; k < (n < 0 ? w : n); k++) whole(what, k, o.i[slot][k], (int32_t)want(k)); }
	template<class L> void uu(int slot, const char* what, L want, int n = -1) const { for (int k = 0; k < (n < 0 ? w : n); k++) whole(what, k, o.u[slot][k], (uint32_t)want(k)); }
	template<class L> void uf(int slot, const char* what, L want, int n = -1) const { for (int k = 0; k < (n < 0 ? w : n); k++) { uint32_t v; memcpy(&v, &o.f[slot][k], 4); whole(what, k, v, (uint32_t)want(k)); } }
	template<class L> void mask(const uint32_t* m, const char* what, L want) const { for (int k = 0; k < w; k++) whole(what, k, m[k], want(k) ? 0xFFFFFFFFu : 0u); }
	void flag(int slot, int k, const char* what, bool want) const { whole(what, k, o.u[slot][k], want ? 1 : 0); }
	float fi(int slot, int k) const { float v; memcpy(&v, &o.i[slot][k], 4); return v; }
	// matrices: n columns of r rows from slot on, in the float or the integer part of the outcome
	template<class L, class M> void mat(int slot, const char* what, int n, int r, L want, M tol) const { for (int c = 0; c < n; c++) for (int k = 0; k < r; k++) near(what, c * 4 + k, o.f[slot + c][k], want(c, k), tol(c, k)); }
	template<class L, class M> void mati(int slot, const char* what, int n, int r, L want, M tol) const { for (int c = 0; c < n; c++) for (int k = 0; k < r; k++) near(what, c * 4 + k, fi(slot + c, k), want(c, k), tol(c, k)); }
	template<class L, class M> void matu(int slot, const char* what, int n, int r, L want, M tol) const { for (int c = 0; c < n; c++) for (int k = 0; k < r; k++) { float v; memcpy(&v, &o.u[slot + c][k], 4); near(what, c * 4 + k, v, want(c, k), tol(c, k)); } }
};
bool invert(const double* m, int n, double* out, double& det)
{
	double a[4][8]; det = 1; for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) { a[r][c] = m[c * 4 + r]; a[r][n + c] = r == c; }
	for (int c = 0; c < n; c++)
	{
		int p = c; for (int r = c; r < n; r++) if (std::fabs(a[r][c]) > std::fabs(a[p][c])) p = r;
		if (std::fabs(a[p][c]) < 1e-12) return false;
		if (p != c) { for (int k = 0; k < 2 * n; k++) std::swap(a[p][k], a[c][k]); det = -det; }
		det *= a[c][c]; double d = 1 / a[c][c]; for (int k = 0; k < 2 * n; k++) a[c][k] *= d;
		for (int r = 0; r < n; r++) if (r != c) { double m2 = a[r][c]; for (int k = 0; k < 2 * n; k++) a[r][k] -= m2 * a[c][k]; }
	}
	for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) out[c * 4 + r] = a[r][n + c];
	return true;
}
void qmul(const double* a, const double* b, double* o)
{
	o[0] = a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1]; o[1] = a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0];
	o[2] = a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3]; o[3] = a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2];
}
void qrot(const double* q, const double* v, double* o) { double p[4] = {v[0], v[1], v[2], 0}, c[4] = {-q[0], -q[1], -q[2], q[3]}, t[4], r[4]; qmul(q, p, t); qmul(t, c, r); for (int k = 0; k < 3; k++) o[k] = r[k]; }
double nrm(const double* v, int n) { double s = 0; for (int k = 0; k < n; k++) s += v[k] * v[k]; return std::sqrt(s); }
void crs(const double* a, const double* b, double* o) { o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0]; }
double rd(double v) { return std::nearbyint(v); }

void check(int kind, int node, const In& x, const Out& o, int fpu)
{
	Check c{kind, node, widthOf(node), x, o, fpu ? 4.0 : 1.0}; const int w = c.w; const bool simd = node == 0;
	double a[4], b[4], cc[4]; for (int k = 0; k < 4; k++) { a[k] = x.a[k]; b[k] = x.b[k]; cc[k] = x.c[k]; } double s = x.s, t = x.t;
	switch (kind)
	{
	case ARITH:
	{
		c.el(0, "a + b", [&](int k) { return a[k] + b[k]; }); c.el(1, "a - b", [&](int k) { return a[k] - b[k]; }); c.el(2, "a * b", [&](int k) { return a[k] * b[k]; }); c.el(3, "a / b", [&](int k) { return a[k] / b[k]; }); c.el(4, "-a", [&](int k) { return -a[k]; });
		c.el(5, "a + s", [&](int k) { return a[k] + s; }); c.el(6, "a - s", [&](int k) { return a[k] - s; }); c.el(7, "a * s", [&](int k) { return a[k] * s; }); c.el(8, "a / s", [&](int k) { return a[k] / s; }, 2); c.el(9, "s + a", [&](int k) { return a[k] + s; }); c.el(10, "s - a", [&](int k) { return s - a[k]; }); c.el(11, "s * a", [&](int k) { return a[k] * s; }); c.el(12, "s / a", [&](int k) { return a[k] != 0 ? s / a[k] : INFINITY; });
		c.el(13, "a += b", [&](int k) { return a[k] + b[k]; }); c.el(14, "a -= b", [&](int k) { return a[k] - b[k]; }); c.el(15, "a *= b", [&](int k) { return a[k] * b[k]; }); c.el(16, "a /= b", [&](int k) { return a[k] / b[k]; });
		c.el(17, "a += s", [&](int k) { return a[k] + s; }); c.el(18, "a -= s", [&](int k) { return a[k] - s; }); c.el(19, "a *= s", [&](int k) { return a[k] * s; }); c.el(20, "a /= s", [&](int k) { return a[k] / s; }, 2); c.el(21, "a = s", [&](int) { return s; }); c.el(22, "splat", [&](int) { return s; });
		c.el(23, "zero", [](int) { return 0.0; }); c.el(24, "one", [](int) { return 1.0; }); c.el(25, "minusOne", [](int) { return -1.0; }); c.el(26, "radians", [&](int k) { return a[k] * M_PI / 180; }, 4); c.el(27, "degrees", [&](int k) { return a[k] * 180 / M_PI; }, 4); { double z = s * M_PI / 180, y = s * 180 / M_PI; c.f(28, 0, "scalar radians", z, 4 * E * std::fabs(z)); c.f(28, 1, "scalar degrees", y, 4 * E * std::fabs(y)); }
		break;
	}
	case COMPARE:
	{
		c.mask(o.u[0], "a < b", [&](int k) { return a[k] < b[k]; }); c.mask(o.u[1], "a > b", [&](int k) { return a[k] > b[k]; }); c.mask(o.u[2], "a <= b", [&](int k) { return a[k] <= b[k]; }); c.mask(o.u[3], "a >= b", [&](int k) { return a[k] >= b[k]; }); c.mask(o.u[4], "equal", [&](int k) { return a[k] == b[k]; }); c.mask(o.u[5], "notEqual", [&](int k) { return a[k] != b[k]; });
		c.mask(o.u[6], "a < s", [&](int k) { return a[k] < s; }); c.mask(o.u[7], "a > s", [&](int k) { return a[k] > s; }); c.mask(o.u[8], "a <= s", [&](int k) { return a[k] <= s; }); c.mask(o.u[9], "a >= s", [&](int k) { return a[k] >= s; });
		c.mask(o.u[10], "s < a", [&](int k) { return s < a[k]; }); c.mask(o.u[11], "s > a", [&](int k) { return s > a[k]; }); c.mask(o.u[12], "s <= a", [&](int k) { return s <= a[k]; }); c.mask(o.u[13], "s >= a", [&](int k) { return s >= a[k]; });
		bool same = true, sameS = true; uint32_t bits = 0; for (int k = 0; k < w; k++) { same &= a[k] == b[k]; sameS &= a[k] == s; bits |= (uint32_t)(a[k] < b[k]) << k; } uint32_t all = (1u << w) - 1;
		c.flag(14, 0, "a == b", same); c.flag(14, 1, "a != b", !same); c.flag(15, 0, "a == s", sameS); c.flag(15, 1, "a != s", !sameS); c.flag(16, 0, "s == a", sameS); c.flag(16, 1, "s != a", !sameS);
		c.whole("getTrues", 0, o.u[17][0], bits); c.flag(17, 1, "areAllTrue", bits == all); c.flag(18, 0, "areAllFalse", bits == 0); c.flag(18, 1, "areAnyTrue", bits != 0); c.flag(19, 0, "areAnyFalse", bits != all); c.flag(20, 0, "splat == s", true); c.flag(20, 1, "splat != s", false); c.flag(21, 0, "isBinaryLess both ways", false); c.flag(21, 1, "isBinaryLess of itself", false);
		break;
	}
	case PICKS:
	{
		auto mn = [&](int k) { return std::min(a[k], b[k]); }; auto mx = [&](int k) { return std::max(a[k], b[k]); };
		c.el(0, "select", mn, 0); c.el(1, "min", mn, 0); c.el(2, "max", mx, 0); c.el(3, "clamp", [&](int k) { return std::min(std::max(cc[k], mn(k)), mx(k)); }, 0);
		c.elt(4, "fma", [&](int k) { return a[k] * b[k] + cc[k]; }, [&](int k) { return 2 * E * (std::fabs(a[k] * b[k]) + std::fabs(cc[k])); });
		c.el(5, "abs", [&](int k) { return std::fabs(a[k]); }, 0); c.el(6, "sqrt", [&](int k) { return std::sqrt(std::fabs(a[k])); }); c.el(7, "sign", [&](int k) { return std::signbit(a[k]) ? -1.0 : 1.0; }, 0); c.el(8, "select by bits", [&](int k) { return x.ua[k] >> 31 ? a[k] : b[k]; }, 0);
		int sb = 0; for (int k = 0; k < w; k++) sb |= (std::signbit(a[k]) ? 1 : 0) << k; c.whole("signBits", 0, o.i[0][0], sb);
		if (!simd) { c.el(9, "min of three", [&](int k) { return std::min(mn(k), cc[k]); }, 0); c.el(10, "max of three", [&](int k) { return std::max(mx(k), cc[k]); }, 0); }
		else { double n3 = std::min({a[0], a[1], a[2]}), x3 = std::max({a[0], a[1], a[2]}); c.f(11, 0, "min4", std::min(n3, a[3]), 0); c.f(11, 1, "max4", std::max(x3, a[3]), 0); c.f(12, 0, "min3", n3, 0); c.f(12, 1, "max3", x3, 0); }
		c.uu(0, "select unsigned", [&](int k) { return a[k] < cc[k] ? x.ua[k] : x.ub[k]; }); c.ii(1, "select integers", [&](int k) { return a[k] < cc[k] ? x.ia[k] : x.ib[k]; });
		break;
	}
	case ROUNDS:
	{
		for (int k = 0; k < w; k++) { double v = o.f[0][k]; if (!(std::fabs(v - a[k]) <= 0.5) || v != std::floor(v)) c.bad("round", k, v, rd(a[k]), 0); }
		c.el(1, "floor", [&](int k) { return std::floor(a[k]); }, 0); c.el(2, "ceil", [&](int k) { return std::ceil(a[k]); }, 0); c.el(3, "trunc", [&](int k) { return std::trunc(a[k]); }, 0);
		for (int k = 0; k < w; k++)
		{
			double r = o.f[4][k], want = a[k] - std::floor(a[k]), tol = 3 * E * std::max(1.0, std::fabs(a[k])) * c.g, d = std::fabs(r - want); d = std::min(d, std::fabs(d - 1)); rt::count(rt::M_CHECKS, 2);
			if (!(d <= tol) || r < 0 || r > 1 + (fpu ? E : 0)) c.bad("repeat", k, r, want, tol);
			if (std::fabs(b[k]) < 1e-3 || std::fabs(a[k] / b[k]) > 1e5) continue;
			r = o.f[5][k]; want = std::fmod(a[k], b[k]); tol = (4 * E * std::fabs(a[k]) + 2 * E * std::fabs(b[k])) * c.g; d = std::fabs(r - want); double edge = std::min(std::fabs(want), std::fabs(b[k]) - std::fabs(want));
			if (edge <= tol) d = std::min(d, std::fabs(d - std::fabs(b[k])));
			if (!(d <= tol)) c.bad("mod", k, r, want, tol);
		}
		break;
	}
	case GEOM:
	{
		auto part = [&](int n, int base, int us) {
			double d = 0, da = 0, l = 0, ds = 0; for (int k = 0; k < n; k++) { d += a[k] * b[k]; da += std::fabs(a[k] * b[k]); l += a[k] * a[k]; ds += (a[k] - b[k]) * (a[k] - b[k]); }
			c.f(base, 0, n == 3 && simd ? "dot3" : "dot", d, 4 * E * da); c.f(base + 1, 0, "lengthSq", l, 4 * E * l); c.f(base + 2, 0, "length", std::sqrt(l), 4 * E * std::sqrt(l)); c.f(base + 3, 0, "distanceSq", ds, 8 * E * ds); c.f(base + 4, 0, "distance", std::sqrt(ds), 8 * E * std::sqrt(ds));
			double len = std::sqrt(l); if (len > 1e-15) { for (int k = 0; k < n; k++) c.f(base + 5, k, "normalize", a[k] / len, 6 * E * std::fabs(a[k] / len)); c.flag(us, 1, "isNormalized of the normalized", true); }
			if (simd) for (int k = 0; k < 4; k++) c.f(base + 6, k, "dotV", d, 4 * E * da);
			double off = std::fabs(l - 1); if (off < 0.009) c.flag(us, 0, "isNormalized within 0.01", true); if (off > 0.011) { c.flag(us, 0, "isNormalized within 0.01", false); } if (off > 1e-5) c.flag(us, 2, "isNormalized", false);
			if (!simd) { if (std::fabs(ds - 0.25) > 1e-3) c.flag(2, 0, "isClose within 0.5", ds < 0.25); if (ds > 1e-10 || ds == 0) c.flag(2, 1, "isClose", ds == 0); }
		};
		part(w, 0, 0); if (simd) part(3, 10, 1);
		if (simd || w == 3) { double q[3], m[3]; crs(a, b, q); for (int k = 0; k < 3; k++) { int i = (k + 1) % 3, j = (k + 2) % 3; m[k] = std::fabs(a[i] * b[j]) + std::fabs(a[j] * b[i]); } for (int k = 0; k < 3; k++) c.f(17, k, "cross", q[k], 3 * E * m[k]); }
		break;
	}
	case BLEND:
	{
		double f = std::pow(t, std::fabs(s)); auto mag = [&](int k) { return 6 * E * (std::fabs(a[k]) + std::fabs(b[k])); };
		c.elt(0, "lerp", [&](int k) { return a[k] + (b[k] - a[k]) * t; }, mag); c.elt(1, "lerpDelta", [&](int k) { return b[k] + (a[k] - b[k]) * f; }, mag); c.el(2, "lerp at 0", [&](int k) { return a[k]; }); c.el(3, "lerp at 1", [&](int k) { return b[k]; });
		c.f(4, 0, "scalar lerp", a[0] + (b[0] - a[0]) * t, mag(0)); c.f(4, 1, "scalar lerpDelta", b[0] + (a[0] - b[0]) * f, mag(0)); c.f(4, 3, "scalar sign", std::signbit(a[0]) ? -1 : 1, 0);
		{ double r = o.f[4][2], want = a[0] - std::floor(a[0]), d = std::fabs(r - want); d = std::min(d, std::fabs(d - 1)); if (!(d <= 3 * E * std::max(1.0, std::fabs(a[0])) * c.g) || r < 0 || r > 1) c.bad("scalar repeat", 0, r, want, 0); }
		c.f(5, 0, "scalar min of three", std::min({a[0], b[0], cc[0]}), 0); c.f(5, 1, "scalar max of three", std::max({a[0], b[0], cc[0]}), 0); c.whole("integer min of three", 0, o.i[0][0], std::min({x.ia[0], x.ib[0], x.n})); c.whole("integer max of three", 0, o.i[0][1], std::max({x.ia[0], x.ib[0], x.n}));
		break;
	}
	case INTS:
	{
		const int32_t *p = x.ia, *q = x.ib; int32_t n = x.n; int h = (int)x.sh; auto sh = [&](int k) { return (int)(x.ub[k] & 31u); };
		auto shl = [](int32_t v, int k) { return (int32_t)((uint32_t)v << k); };
		c.ii(0, "a + b", [&](int k) { return p[k] + q[k]; }); c.ii(1, "a - b", [&](int k) { return p[k] - q[k]; }); c.ii(2, "a * b", [&](int k) { return p[k] * q[k]; }); c.ii(3, "a / b", [&](int k) { return p[k] / q[k]; }); c.ii(4, "a % b", [&](int k) { return p[k] % q[k]; }); c.ii(5, "a & b", [&](int k) { return p[k] & q[k]; }); c.ii(6, "a | b", [&](int k) { return p[k] | q[k]; }); c.ii(7, "a ^ b", [&](int k) { return p[k] ^ q[k]; });
		c.ii(8, "a >> n", [&](int k) { return p[k] >> h; }); c.ii(9, "a << n", [&](int k) { return shl(p[k], h); }); c.ii(10, "a >> b", [&](int k) { return p[k] >> sh(k); }); c.ii(11, "a << b", [&](int k) { return shl(p[k], sh(k)); }); c.ii(12, "-a", [&](int k) { return -p[k]; }); c.ii(13, "!a", [&](int k) { return !p[k]; }); c.ii(14, "~a", [&](int k) { return ~p[k]; });
		c.ii(15, "a + n", [&](int k) { return p[k] + n; }); c.ii(16, "a - n", [&](int k) { return p[k] - n; }); c.ii(17, "a * n", [&](int k) { return p[k] * n; }); c.ii(18, "a / n", [&](int k) { return p[k] / n; }); c.ii(19, "a % n", [&](int k) { return p[k] % n; }); c.ii(20, "a & n", [&](int k) { return p[k] & n; }); c.ii(21, "a | n", [&](int k) { return p[k] | n; }); c.ii(22, "a ^ n", [&](int k) { return p[k] ^ n; });
		c.ii(23, "n + a", [&](int k) { return n + p[k]; }); c.ii(24, "n - a", [&](int k) { return n - p[k]; }); c.ii(25, "n * a", [&](int k) { return n * p[k]; }); c.ii(26, "n / b", [&](int k) { return n / q[k]; }); c.ii(27, "n % b", [&](int k) { return n % q[k]; });
		c.ii(28, "compound vector chain", [&](int k) { int32_t r = p[k]; r += q[k]; r -= n; r ^= q[k]; r |= 1; r &= 0x7FFFFF; r %= 1000; r *= 3; r >>= 1; r <<= 2; r /= 2; return r; });
		c.ii(29, "compound scalar chain", [&](int k) { int32_t r = p[k]; r += n; r -= 3; r ^= 5; r |= 1; r &= 0x7FFFFF; r %= 999; r *= 3; r /= 2; return r; }); c.ii(30, "compound shifts", [&](int k) { int32_t r = p[k] & 0xFFFF; r = shl(r, sh(k) & 7); return r >> (sh(k) & 15); }); c.ii(31, "a = n", [&](int) { return n; });
		c.ii(32, "min", [&](int k) { return std::min(p[k], q[k]); }); c.ii(33, "max", [&](int k) { return std::max(p[k], q[k]); }); c.ii(34, "clamp", [&](int k) { return std::min(std::max(p[k], std::min(q[k], n)), std::max(q[k], n)); }); c.ii(35, "select", [&](int k) { return std::min(p[k], q[k]); });
		c.mask(o.u[0], "a < b", [&](int k) { return p[k] < q[k]; }); c.mask(o.u[1], "a > b", [&](int k) { return p[k] > q[k]; }); c.mask(o.u[2], "a <= b", [&](int k) { return p[k] <= q[k]; }); c.mask(o.u[3], "a >= b", [&](int k) { return p[k] >= q[k]; }); c.mask(o.u[4], "equal", [&](int k) { return p[k] == q[k]; }); c.mask(o.u[5], "notEqual", [&](int k) { return p[k] != q[k]; });
		c.mask(o.u[6], "a < n", [&](int k) { return p[k] < n; }); c.mask(o.u[7], "a > n", [&](int k) { return p[k] > n; }); c.mask(o.u[8], "a <= n", [&](int k) { return p[k] <= n; }); c.mask(o.u[9], "a >= n", [&](int k) { return p[k] >= n; });
		bool same = true, sn = true; for (int k = 0; k < w; k++) { same &= p[k] == q[k]; sn &= p[k] == n; } c.flag(10, 0, "a == b", same); c.flag(10, 1, "a != b", !same); c.flag(11, 0, "a == n", sn); c.flag(11, 1, "a != n", !sn); c.flag(12, 0, "splat == n", true);
		if (simd) { c.ii(36, "bic", [&](int k) { return p[k] & ~q[k]; }); int32_t n3 = std::min({p[0], p[1], p[2]}), x3 = std::max({p[0], p[1], p[2]}), v[4] = {std::min(n3, p[3]), std::max(x3, p[3]), n3, x3}; c.ii(37, "min4, max4, min3, max3", [&](int k) { return v[k]; }); c.ii(38, "min and max of all", [&](int k) { return v[k]; }, 2); }
		else { c.ii(39, "min and max of three", [&](int k) { return std::max(std::min({p[k], q[k], n}), std::min(p[k], q[k])); }); c.ii(36, "max of three", [&](int k) { return std::max({p[k], q[k], n}); }); c.ii(37, "max of three", [&](int k) { return std::max({p[k], q[k], n}); }); c.ii(38, "min of three", [&](int k) { return std::min({p[k], q[k], n}); }); }
		break;
	}
	case UINTS:
	{
		const uint32_t *p = x.ua, *q = x.ub; uint32_t n = x.un, h = x.sh; auto sh = [&](int k) { return q[k] & 31u; };
		for (int k = 0; k < w; k++) if (p[k] >> 31) { rt::count(P_BIGUINT); break; }
		c.uu(0, "a + b", [&](int k) { return p[k] + q[k]; }); c.uu(1, "a - b", [&](int k) { return p[k] - q[k]; }); c.uu(2, "a * b", [&](int k) { return p[k] * q[k]; }); c.uu(3, "a / b", [&](int k) { return p[k] / q[k]; }); c.uu(4, "a % b", [&](int k) { return p[k] % q[k]; }); c.uu(5, "a & b", [&](int k) { return p[k] & q[k]; }); c.uu(6, "a | b", [&](int k) { return p[k] | q[k]; }); c.uu(7, "a ^ b", [&](int k) { return p[k] ^ q[k]; });
		c.uu(8, "a >> n", [&](int k) { return p[k] >> h; }); c.uu(9, "a << n", [&](int k) { return p[k] << h; }); c.uu(10, "a >> b", [&](int k) { return p[k] >> sh(k); }); c.uu(11, "a << b", [&](int k) { return p[k] << sh(k); }); c.uu(12, "!a", [&](int k) { return !p[k]; }); c.uu(13, "~a", [&](int k) { return ~p[k]; });
		c.uu(14, "a + n", [&](int k) { return p[k] + n; }); c.uu(15, "a - n", [&](int k) { return p[k] - n; }); c.uu(16, "a * n", [&](int k) { return p[k] * n; }); c.uu(17, "a / n", [&](int k) { return p[k] / n; }); c.uu(18, "a % n", [&](int k) { return p[k] % n; }); c.uu(19, "a & n", [&](int k) { return p[k] & n; }); c.uu(20, "a | n", [&](int k) { return p[k] | n; }); c.uu(21, "a ^ n", [&](int k) { return p[k] ^ n; });
		c.uu(22, "n + a", [&](int k) { return n + p[k]; }); c.uu(23, "n - a", [&](int k) { return n - p[k]; }); c.uu(24, "n * a", [&](int k) { return n * p[k]; }); c.uu(25, "n / b", [&](int k) { return n / q[k]; }); c.uu(26, "n % b", [&](int k) { return n % q[k]; });
		c.uu(27, "compound chain", [&](int k) { uint32_t r = p[k]; r += q[k]; r -= n; r ^= q[k]; r |= 1; r *= 3; r >>= 1; r <<= 2; r /= 2; r %= 100003; return r & 0xFFFFu; });
		c.uu(28, "min", [&](int k) { return std::min(p[k], q[k]); }); c.uu(29, "max", [&](int k) { return std::max(p[k], q[k]); }); c.uu(30, "clamp", [&](int k) { return std::min(std::max(p[k], std::min(q[k], n)), std::max(q[k], n)); }); c.uu(31, "select", [&](int k) { return std::min(p[k], q[k]); });
		c.mask(o.u[32], "a < b", [&](int k) { return p[k] < q[k]; }); c.mask(o.u[33], "a > b", [&](int k) { return p[k] > q[k]; }); c.mask(o.u[34], "a <= b", [&](int k) { return p[k] <= q[k]; }); c.mask(o.u[35], "a >= b", [&](int k) { return p[k] >= q[k]; }); c.mask(o.u[36], "equal", [&](int k) { return p[k] == q[k]; }); c.mask(o.u[37], "notEqual", [&](int k) { return p[k] != q[k]; });
		c.mask(o.u[38], "a < n", [&](int k) { return p[k] < n; }); c.mask(o.u[39], "n >= a", [&](int k) { return n >= p[k]; }); c.uf(0, "a > n", [&](int k) { return p[k] > n ? ~0u : 0u; }); c.uf(1, "a <= n", [&](int k) { return p[k] <= n ? ~0u : 0u; });
		bool same = true, sn = true; for (int k = 0; k < w; k++) { same &= p[k] == q[k]; sn &= p[k] == n; } int v[4] = {same, !same, sn, !sn}; c.ii(0, "== and !=", [&](int k) { return v[k]; }, 4);
		{
			uint32_t z[4], every = ~0u, any = 0; int signs = 0; bitLanes(x, z); for (int k = 0; k < w; k++) { every &= z[k]; any |= z[k]; signs |= (int)(z[k] >> 31) << k; } int v[4] = {every == ~0u, any == 0, any != 0, every != ~0u};
			c.ii(2, "all true, all false, any true, any false", [&](int k) { return v[k]; }, 4); c.whole("getTrues of any bits", 0, o.i[3][0], signs);
		}
		auto mips = [&](uint32_t z) { int m = 0; while (z) { m++; z >>= 1; } return m; }; uint32_t mip = x.sh % 30, big = q[0]; if (w >= 2 && (w < 4)) big = std::max(big, q[1]); if (w == 3) big = std::max(big, q[2]); if (simd) big = std::max({q[0], q[1], q[2]});
		c.whole("mip count", 0, o.i[1][2], mips(big)); c.uf(4, "size at mip", [&](int k) { return std::max(p[k] >> mip, 1u); }, simd ? 3 : w);
		if (simd) { uint32_t n3 = std::min({p[0], p[1], p[2]}), x3 = std::max({p[0], p[1], p[2]}), z[4] = {std::min(n3, p[3]), std::max(x3, p[3]), n3, x3}; c.uf(2, "bic", [&](int k) { return p[k] & ~q[k]; }); c.uf(3, "min4, max4, min3, max3", [&](int k) { return z[k]; }); c.whole("min of all", 0, (uint32_t)o.i[1][0], z[0]); c.whole("max of all", 0, (uint32_t)o.i[1][1], z[1]); }
		else { c.uf(3, "min and max of three", [&](int k) { return std::max(std::min({p[k], q[k], n}), 2u); }); c.uf(5, "max of three", [&](int k) { return std::max({p[k], q[k], n}); }); c.uf(6, "max of three", [&](int k) { return std::max({p[k], q[k], n}); }); c.uf(7, "min of three", [&](int k) { return std::min({p[k], q[k], n}); }); }
		break;
	}
	case CONVERT:
	{
		c.ii(0, "float to integer", [&](int k) { return (int32_t)x.a[k]; }); c.uu(0, "float to unsigned", [&](int k) { return (uint32_t)std::fabs(x.c[k]); }); c.el(0, "integer to float", [&](int k) { return (double)x.ia[k]; }); c.el(1, "unsigned to float", [&](int k) { return (double)x.ua[k]; }); c.ii(1, "unsigned to integer", [&](int k) { return x.ua[k]; }); c.uu(1, "integer to unsigned", [&](int k) { return x.ia[k]; });
		c.f(7, 0, "first component", a[0], 0); c.whole("first integer", 0, o.i[6][0], x.ia[0]); c.whole("first unsigned", 0, o.u[5][0], x.ua[0]);
		auto va = [&](int k) { return a[k]; }; auto ia = [&](int k) { return x.ia[k]; }; auto ua = [&](int k) { return x.ua[k]; };
		if (!simd) { c.whole("first component to integer", 0, o.i[12][0], (int32_t)x.a[0]); c.whole("first component to unsigned", 0, o.u[10][0], (uint32_t)std::fabs(x.c[0])); c.whole("first integer to unsigned", 0, o.u[10][1], (uint32_t)x.ia[0]); if (w >= 3) { c.uu(11, "first two to unsigned", [&](int k) { return (uint32_t)std::fabs(x.c[k]); }, 2); c.uu(12, "first two integers to unsigned", [&](int k) { return (uint32_t)x.ia[k]; }, 2); } if (w == 4) { c.uu(13, "first three integers to unsigned", [&](int k) { return (uint32_t)x.ia[k]; }, 3); c.uu(14, "first three unsigned", ua, 3); } }
		else { c.ii(13, "first two integers", ia, 2); c.uu(15, "first three unsigned", ua, 3); }
		if (w >= 3) { c.el(6, "first two", va, 0, 0, 2); c.uu(4, "first two unsigned", ua, 2); } if (w == 4) { c.el(5, "first three", va, 0, 0, 3); c.ii(5, "first three integers", ia, 3); }
		if (simd) { auto bits = [&](int k) { uint32_t v; memcpy(&v, &x.a[k], 4); return v; }; c.el(2, "bits to unsigned and back", va, 0); c.el(3, "bits to integer and back", va, 0); c.uu(2, "floatAsUint", bits); c.ii(2, "floatAsInt", bits); c.ii(3, "uintAsInt", ua); c.el(4, "to float4", va, 0); c.ii(4, "to int4", ia); c.uu(3, "to uint4", ua); }
		else if (w >= 3) { c.ii(7, "first two to integer", [&](int k) { return (int32_t)x.a[k]; }, 2); c.ii(8, "first two integers", ia, 2); if (w == 4) { c.ii(9, "first three to integer", [&](int k) { return (int32_t)x.a[k]; }, 3); c.uu(6, "first three to unsigned", [&](int k) { return (uint32_t)std::fabs(x.c[k]); }, 3); } }
		c.mask(o.u[7], "integers a < b", [&](int k) { return x.ia[k] < x.ib[k]; }); c.mask(o.u[8], "integers a >= b", [&](int k) { return x.ia[k] >= x.ib[k]; }); c.mask(o.u[9], "integers equal", [&](int k) { return x.ia[k] == x.ib[k]; }); c.ii(10, "min of integers", [&](int k) { return std::min(x.ia[k], x.ib[k]); }); c.ii(11, "max of integers", [&](int k) { return std::max(x.ia[k], x.ib[k]); });
		break;
	}
	case LANES:
	{
		auto va = [&](int k) { return a[k]; }; auto ia = [&](int k) { return x.ia[k]; }; auto ua = [&](int k) { return x.ua[k]; }; auto vb = [&](int k) { return b[k]; }; auto ib = [&](int k) { return x.ib[k]; }; auto ub = [&](int k) { return x.ub[k]; }; int set = simd ? (int)(x.sh & 3) : (int)(x.sh % (uint32_t)w);
		auto setI = [&](int k) { return k == set ? x.n : x.ib[k]; }; auto setU = [&](int k) { return k == set ? x.un : x.ub[k]; };
		c.el(30, "operator[] of a constant", va, 0); c.ii(30, "operator[] of a constant", ia); c.uu(30, "operator[] of a constant", ua); c.ii(31, "operator[] set", setI); c.uu(31, "operator[] set", setU); c.ii(32, "operator[] after set", setI); c.uu(32, "operator[] after set", setU);
		c.el(15, "operator[]", va, 0); c.el(16, "operator[] set", [&](int k) { return k == set ? s : a[k]; }, 0);
		if (simd)
		{
			auto m3 = [](int k) { return std::min(k, 2); }; auto m2 = [](int k) { return std::min(k, 1); }; static const int y[] = {1, 1, 0, 3};
			c.el(0, "from four", va, 0); c.el(1, "from three", [&](int k) { return a[m3(k)]; }, 0); c.el(2, "from vector and w", [&](int k) { return k == 3 ? s : a[k]; }, 0); c.el(3, "from float4", va, 0); c.el(4, "from float3", [&](int k) { return a[m3(k)]; }, 0); c.el(5, "from float2", [&](int k) { return a[m2(k)]; }, 0); c.el(6, "getters", va, 0); c.el(7, "setters", vb, 0); c.el(8, "fixW", [&](int k) { return a[m3(k)]; }, 0);
			c.el(9, "swizzle WZYX", [&](int k) { return a[3 - k]; }, 0); c.el(10, "swizzle YYXW", [&](int k) { return a[y[k]]; }, 0); for (int j = 0; j < 4; j++) c.el(11 + j, "splat", [&](int) { return a[j]; }, 0); c.el(17, "storeAligned", va, 0); c.el(18, "loadAligned", va, 0);
			c.ii(0, "from three", [&](int k) { return x.ia[m3(k)]; }); c.ii(1, "from vector and w", [&](int k) { return k == 3 ? x.n : x.ia[k]; }); c.ii(2, "swizzle WZYX", [&](int k) { return x.ia[3 - k]; }); c.ii(3, "setters", ib); c.ii(4, "fixW", [&](int k) { return x.ib[m3(k)]; }); c.ii(5, "from int3", [&](int k) { return x.ia[m3(k)]; }); c.ii(6, "getters", ib); c.ii(7, "splatY", [&](int) { return x.ib[1]; }); c.ii(8, "from int2", [&](int k) { return x.ia[m2(k)]; }); c.ii(9, "from int4", ia);
			static const int zx[] = {2, 0, 3, 1}, xz[] = {0, 2, 2, 0}; auto ca = [&](int k) { return (int32_t)x.ua[k]; };
			c.ii(10, "from four", ia); c.ii(11, "splatX", [&](int) { return x.ib[0]; }); c.ii(12, "splatZ", [&](int) { return x.ib[2]; }); c.ii(13, "splatW", [&](int) { return x.ib[3]; }); c.ii(14, "operator[]", ib); c.ii(15, "operator[] set", [&](int k) { return k == set ? x.n : x.ib[k]; }); c.ii(16, "storeAligned", ib); c.ii(17, "loadAligned", ib);
			c.ii(18, "swizzle ZXWY", [&](int k) { return x.ib[zx[k]]; }); c.ii(19, "swizzle YYXW", [&](int k) { return x.ib[y[k]]; }); c.ii(20, "swizzle XYZW", ib); c.ii(21, "bits of unsigned integers", ca); c.ii(22, "from a register", ib); c.ii(23, "to int4 and back", ib);
			c.el(19, "swizzle ZXWY", [&](int k) { return a[zx[k]]; }, 0); c.el(20, "swizzle XZZX", [&](int k) { return a[xz[k]]; }, 0); c.el(21, "from a register", va, 0); c.el(22, "to float4 and back", va, 0);
			c.uu(0, "from three", [&](int k) { return x.ua[m3(k)]; }); c.uu(1, "from vector and w", [&](int k) { return k == 3 ? x.un : x.ua[k]; }); c.uu(2, "swizzle WZYX", [&](int k) { return x.ua[3 - k]; }); c.uu(3, "setters", ub); c.uu(4, "fixW", [&](int k) { return x.ub[m3(k)]; }); c.uu(5, "from uint3", [&](int k) { return x.ua[m3(k)]; }); c.uu(6, "getters", ub); c.uu(7, "splatZ", [&](int) { return x.ub[2]; }); c.uu(8, "from uint2", [&](int k) { return x.ua[m2(k)]; }); c.uu(9, "from uint4", ua);
			c.uu(10, "from four", ua); c.uu(11, "splatX", [&](int) { return x.ub[0]; }); c.uu(12, "splatY", [&](int) { return x.ub[1]; }); c.uu(13, "splatW", [&](int) { return x.ub[3]; }); c.uu(14, "operator[]", ub); c.uu(15, "operator[] set", [&](int k) { return k == set ? x.un : x.ub[k]; }); c.uu(16, "storeAligned", ub); c.uu(17, "loadAligned", ub);
			c.uu(18, "swizzle ZXWY", [&](int k) { return x.ub[zx[k]]; }); c.uu(19, "swizzle YYXW", [&](int k) { return x.ub[y[k]]; }); c.uu(20, "swizzle XYZW", ub); c.uu(21, "bits of integers", [&](int k) { return (uint32_t)x.ia[k]; }); c.uu(22, "from a register", ub); c.uu(23, "to uint4 and back", ub);
		}
		else if (w >= 3) for (int j = 0; j < (w == 4 ? 6 : 2); j++) { c.el(j, "constructor", va, 0); c.ii(j, "constructor", ia); c.uu(j, "constructor", ua); }
		break;
	}
	case MATRIX:
	{
		auto M = [&](int k, int r) { return (double)x.m[k * 4 + r]; }; auto P = [&](int k, int r) { return (double)x.p[k * 4 + r]; };
		auto prod = [&](int k, int r) { double v = 0; for (int j = 0; j < w; j++) v += M(j, r) * P(k, j); return v; }; auto prodT = [&](int k, int r) { double v = 0; for (int j = 0; j < w; j++) v += std::fabs(M(j, r) * P(k, j)); return 4 * E * v; };
		auto rel = [&](double v) { return 1.01 * E * std::fabs(v); }; auto exact = [](int, int) { return 0.0; }; auto id = [&](int k, int r) { return M(k, r); };
		c.mat(0, "m * p", w, w, prod, prodT); c.mat(20, "m *= p", w, w, prod, prodT); c.mat(4, "m + s", w, w, [&](int k, int r) { return M(k, r) + s; }, [&](int k, int r) { return rel(M(k, r) + s); }); c.mat(8, "m - s", w, w, [&](int k, int r) { return M(k, r) - s; }, [&](int k, int r) { return rel(M(k, r) - s); });
		c.mat(12, "m * s", w, w, [&](int k, int r) { return M(k, r) * s; }, [&](int k, int r) { return rel(M(k, r) * s); }); c.mat(16, "m / s", w, w, [&](int k, int r) { return M(k, r) / s; }, [&](int k, int r) { return 2 * rel(M(k, r) / s); });
		c.mat(24, "compound with scalars", w, w, [&](int k, int r) { return (M(k, r) + s - s * 0.5) * s / 2; }, [&](int k, int r) { return 6 * E * (std::fabs(M(k, r)) + 2 * std::fabs(s)) * std::fabs(s); });
		bool same = true; for (int k = 0; k < w; k++) for (int r = 0; r < w; r++) same &= x.m[k * 4 + r] == x.p[k * 4 + r]; c.flag(0, 0, "m == m", true); if (!fpu) { bool signedZero = false; for (int k = 0; k < w; k++) for (int r = 0; r < w; r++) signedZero |= M(k, r) == 0; if (!signedZero) c.flag(1, 0, "identity * m == m", true); } c.flag(1, 1, "zero + 1 == one", true); c.flag(0, 1, "m != m", false); c.flag(0, 2, "m == p", same); c.flag(0, 3, "m != p", !same);
		for (int r = 0; r < w; r++) { double v = 0, z = 0, y = 0, u = 0; for (int k = 0; k < w; k++) { v += M(k, r) * a[k]; z += std::fabs(M(k, r) * a[k]); y += M(r, k) * a[k]; u += std::fabs(M(r, k) * a[k]); } c.f(28, r, "m * v", v, 4 * E * z); if (!simd) c.f(29, r, "v * m", y, 4 * E * u); }
		c.mat(30, "transpose", w, w, [&](int k, int r) { return M(r, k); }, exact);
		if (!simd) { c.mat(34, "s * m", w, w, [&](int k, int r) { return M(k, r) * s; }, [&](int k, int r) { return rel(M(k, r) * s); }); c.mati(0, "s + m", w, w, [&](int k, int r) { return M(k, r) + s; }, [&](int k, int r) { return rel(M(k, r) + s); }); c.mati(8, "s - m", w, w, [&](int k, int r) { return s - M(k, r); }, [&](int k, int r) { return rel(M(k, r) - s); }); }
		c.matu(2, "columns of a constant", w, w, id, exact); c.mati(4, "column set", w, w, [&](int k, int r) { return k == 1 ? a[r] : M(k, r); }, exact);
		if (simd)
		{
			for (int r = 0; r < 3; r++) { double v = 0, z = 0; for (int k = 0; k < 3; k++) { v += M(k, r) * a[k]; z += std::fabs(M(k, r) * a[k]); } c.f(29, r, "multiply3x3 m, v", v, 3 * E * z); }
			c.mat(34, "multiply3x3 m, p", 3, 3, [&](int k, int r) { double v = 0; for (int j = 0; j < 3; j++) v += M(j, r) * P(k, j); return v; }, prodT); c.mati(0, "transpose3x3", 3, 3, [&](int k, int r) { return M(r, k); }, exact); c.mati(8, "to float4x4 and back", 4, 4, id, exact);
		}
		if (w == 4) { c.mati(12, "to float4x3", 4, 3, id, exact); c.mati(16, "to float3x3", 3, 3, id, exact); c.mati(20, "to float2x2", 2, 2, id, exact); c.mati(24, "from float3x3", 4, 4, [&](int k, int r) { return k < 3 && r == 3 ? b[k] : M(k, r); }, exact); c.mati(28, "from float4x3", 4, 4, [&](int k, int r) { return r == 3 ? b[k] : M(k, r); }, exact); c.mati(32, "from elements", 4, 4, id, exact); }
		if (w == 4 && !simd) c.mati(36, "s / m", 4, 4, [&](int k, int r) { return M(k, r) != 0 ? s / M(k, r) : INFINITY; }, [&](int k, int r) { return rel(s / M(k, r)); });
		if (w == 3)
		{
			for (int r = 0; r < 3; r++) { double v = 0, z = 0; for (int k = 0; k < 4; k++) { v += M(k, r) * a[k]; z += std::fabs(M(k, r) * a[k]); } c.near("float4x3 * v", r, c.fi(12, r), v, 4 * E * z); c.near("float4x3 column", r, c.fi(13, r), M(3, r), 0); }
			c.mati(14, "float4x3 + s", 4, 3, [&](int k, int r) { return M(k, r) + s; }, [&](int k, int r) { return rel(M(k, r) + s); }); c.mati(18, "float4x3 * s", 4, 3, [&](int k, int r) { return M(k, r) * s; }, [&](int k, int r) { return rel(M(k, r) * s); }); c.mati(22, "s - float4x3", 4, 3, [&](int k, int r) { return s - M(k, r); }, [&](int k, int r) { return rel(M(k, r) - s); }); c.mati(26, "float4x3 / s", 4, 3, [&](int k, int r) { return M(k, r) / s; }, [&](int k, int r) { return 2 * rel(M(k, r) / s); });
			c.mati(30, "float4x3 last column set", 4, 3, [&](int k, int r) { return k == 3 ? a[r] : M(k, r); }, exact); c.mati(34, "float4x3 to float2x2", 2, 2, id, exact); c.matu(6, "float4x3 from elements", 4, 3, id, exact); c.matu(10, "float3x3 to float2x2", 2, 2, id, exact); c.mati(36, "float4x3 to float3x3", 3, 3, id, exact);
		}
		break;
	}
	case INVERSE:
	{
		double m[16], inv[16], det, big = 0; for (int k = 0; k < 16; k++) m[k] = x.m[k]; for (int k = 0; k < w; k++) for (int r = 0; r < w; r++) big = std::max(big, std::fabs(m[k * 4 + r]));
		if (!invert(m, w, inv, det)) { rt::count(P_SINGULAR); break; }
		double low = 1; for (int k = 1; k < w; k++) low *= big; static const double terms[] = {0, 0, 2, 6, 24}; double dt = 4 * E * terms[w] * low * big / std::fabs(det); if (dt > 0.02) { rt::count(P_SINGULAR); break; }
		auto tol = [&](int k, int r) { return 6 * E * terms[w] * low / std::fabs(det) + std::fabs(inv[k * 4 + r]) * (2 * dt + 4 * E); };
		c.mat(0, "inverse", w, w, [&](int k, int r) { return inv[k * 4 + r]; }, tol); c.mat(4, "m * inverse(m)", w, w, [&](int k, int r) { return k == r ? 1.0 : 0.0; }, [&](int k, int r) { double z = 0; for (int j = 0; j < w; j++) z += std::fabs(m[j * 4 + r]) * (tol(k, j) + 4 * E * std::fabs(inv[k * 4 + j])); return z; });
		break;
	}
	case QUATS:
	{
		if (!simd) break;
		c.el(19, "from a register", [&](int k) { return x.q[k]; }, 0);
		double q[4], r[4], v[4], o4[4]; for (int k = 0; k < 4; k++) { q[k] = x.q[k]; r[k] = x.r[k]; } double nq = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], va = nrm(a, 3), T0 = 6 * E, TV = 16 * E * va;
		qmul(q, r, o4); for (int k = 0; k < 4; k++) { c.f(0, k, "q * r", o4[k], T0); c.f(13, k, "q *= r", o4[k], T0); c.f(3, k, "conjugate", k < 3 ? -q[k] : q[k], 0); c.f(4, k, "inverse", (k < 3 ? -q[k] : q[k]) / nq, T0); c.f(5, k, "normalize", q[k] / std::sqrt(nq), T0); c.f(18, k, "identity * q", q[k], T0); if (t > 0.05) c.f(17, k, "inverse(q) * q", k == 3, 4 * T0); }
		qrot(q, a, v); for (int k = 0; k < 3; k++) { c.f(1, k, "q * v", v[k], TV); c.f(16, k, "rotate(q) * v", v[k], TV); }
		double cj[4] = {-q[0] / nq, -q[1] / nq, -q[2] / nq, q[3] / nq}; qrot(cj, a, v); for (int k = 0; k < 3; k++) c.f(2, k, "v * q", v[k], TV);
		double v1[3], v2[3]; qrot(r, a, v1); qrot(q, v1, v2); for (int k = 0; k < 3; k++) { c.f(14, k, "q * (r * v)", v2[k], 2 * TV); c.f(15, k, "(q * r) * v", v2[k], 2 * TV); }
		for (int k = 0; k < 3; k++) { double e[3] = {k == 0 ? 1.0 : 0, k == 1 ? 1.0 : 0, k == 2 ? 1.0 : 0}, z[3]; qrot(q, e, z); for (int j = 0; j < 3; j++) c.f(8 + k, j, "rotate(q)", z[j], 2 * T0); c.f(8 + k, 3, "rotate(q) last row", 0, 0); c.f(11, k, "rotate(q) last column", 0, 0); } c.f(11, 3, "rotate(q) corner", 1, 0);
		double d = 0; for (int k = 0; k < 4; k++) d += q[k] * o.f[12][k]; for (int k = 0; k < 4; k++) c.f(12, k, "extractQuat(rotate(q))", d < 0 ? -q[k] : q[k], 4 * T0);
		if (nrm(b, 3) > 1e-6) { double h = s * 0.5; for (int k = 0; k < 3; k++) c.f(6, k, "quat(angle, axis)", o.f[7][k] * std::sin(h), 2 * T0 + std::fabs(h) * 1e-9); c.f(6, 3, "quat(angle, axis)", std::cos(h), 2 * T0 + std::fabs(h) * 1e-9); }
		break;
	}
	case XFORM:
	{
		if (!simd) break;
		auto M = [&](int k, int r) { return (double)x.m[k * 4 + r]; }; double q[4], nq = 0; for (int k = 0; k < 4; k++) { q[k] = x.q[k]; nq += q[k] * q[k]; } nq = std::sqrt(nq); for (int k = 0; k < 4; k++) q[k] /= nq;
		double R[3][3], sc[3]; for (int k = 0; k < 3; k++) { double e[3] = {k == 0 ? 1.0 : 0, k == 1 ? 1.0 : 0, k == 2 ? 1.0 : 0}; qrot(q, e, R[k]); sc[k] = o.f[24][k]; } auto idn = [](int k, int r) { return k == r ? 1.0 : 0.0; }; auto exact = [](int, int) { return 0.0; };
		c.mat(0, "translate(t)", 4, 4, [&](int k, int r) { return k == 3 && r < 3 ? a[r] : idn(k, r); }, exact);
		c.mat(4, "translate(m, t)", 4, 4, [&](int k, int r) { double v = M(k, r); if (k == 3 && r < 3) for (int j = 0; j < 3; j++) v += M(j, r) * a[j]; return v; }, [&](int k, int r) { double v = std::fabs(M(k, r)); if (k != 3 || r == 3) return 0.0; for (int j = 0; j < 3; j++) v += std::fabs(M(j, r) * a[j]); return 4 * E * v; });
		c.mat(8, "translate(t, m)", 4, 4, [&](int k, int r) { return k == 3 && r < 3 ? M(k, r) + a[r] : M(k, r); }, [&](int k, int r) { return k == 3 && r < 3 ? E * std::fabs(M(k, r) + a[r]) : 0; });
		c.mat(12, "scale(s)", 4, 4, [&](int k, int r) { return k == r && k < 3 ? cc[k] : idn(k, r); }, exact); c.mat(16, "scale(m, s)", 4, 4, [&](int k, int r) { return k < 3 ? M(k, r) * cc[k] : M(k, r); }, [&](int k, int r) { return E * std::fabs(M(k, r) * (k < 3 ? cc[k] : 1)); });
		c.mat(20, "scale(s, m)", 4, 4, [&](int k, int r) { return r < 3 ? M(k, r) * cc[r] : M(k, r); }, [&](int k, int r) { return 2 * E * std::fabs(M(k, r) * (r < 3 ? cc[r] : 1)); });
		auto model = [&](int k, int r) { return k < 3 && r < 3 ? R[k][r] * sc[k] : k == 3 && r < 3 ? a[r] : idn(k, r); }; auto rigid = [&](int k, int r) { return k < 3 && r < 3 ? R[k][r] : k == 3 && r < 3 ? a[r] : idn(k, r); };
		auto mt2 = [&](int k, int r) { return 20 * E * ((k < 3 ? sc[k] : std::fabs(a[r % 3]))); };
		c.mat(25, "calcModel", 4, 4, model, mt2); for (int k = 0; k < 3; k++) { c.f(29, k, "extracted position", a[k], E * std::fabs(a[k])); c.f(31, k, "extracted scale", sc[k], 30 * E * sc[k]); c.f(38, k, "extractScale", sc[k], 30 * E * sc[k]); c.f(36, k, "extracted position", a[k], E * std::fabs(a[k])); c.f(39, k, "getTranslation", M(3, k), 0); }
		for (int z = 30; z <= 37; z += 7) { double d = 0; for (int k = 0; k < 4; k++) d += q[k] * o.f[z][k]; for (int k = 0; k < 4; k++) c.f(z, k, "extracted rotation", d < 0 ? -q[k] : q[k], 60 * E); }
		c.mat(32, "calcModel without scale", 4, 4, rigid, [&](int k, int r) { return 16 * E * (k < 3 ? 1 : std::fabs(a[r % 3])); });
		c.mati(0, "extractRotation", 4, 4, [&](int k, int r) { return k < 3 && r < 3 ? R[k][r] : idn(k, r); }, [&](int k, int) { return k < 3 ? 50 * E : 0; }); c.mati(4, "extractRotationOnly", 4, 4, [&](int k, int r) { return k < 3 && r < 3 ? M(k, r) : idn(k, r); }, exact);
		c.mati(12, "setTranslation", 4, 4, [&](int k, int r) { return k == 3 && r < 3 ? a[r] : M(k, r); }, exact); for (int k = 0; k < 2; k++) c.near("extractScale2", k, c.fi(16, k), sc[k], 30 * E * sc[k]);
		double ta = nrm(a, 3); c.mati(26, "m * inverseTransRot(m)", 4, 4, idn, [&](int k, int r) { return r < 3 ? 40 * E * (k == 3 ? ta : 1) : 0; }); c.mati(8, "inverseTransRot", 3, 3, [&](int k, int r) { return R[r][k]; }, [&](int, int) { return 16 * E; }); c.mati(30, "calcModel(position)", 4, 4, [&](int k, int r) { return k == 3 && r < 3 ? a[r] : idn(k, r); }, [&](int, int) { return 4 * E; });
		double f[3], l, sd[3], up[3] = {0, 1, 0}, u[3]; for (int k = 0; k < 3; k++) f[k] = b[k] - a[k]; l = nrm(f, 3); if (!(l > 1e-3 * (nrm(a, 3) + nrm(b, 3)) && l > 1e-6)) break;
		for (int k = 0; k < 3; k++) f[k] /= l; crs(up, f, sd); double ls = nrm(sd, 3); if (ls < 0.05) break; for (int k = 0; k < 3; k++) sd[k] /= ls; crs(f, sd, u); double* row[3] = {sd, u, f}; double T1 = 10 * E / ls * (1 + 2 * (nrm(a, 3) + nrm(b, 3)) / l);
		for (int k = 0; k < 3; k++) { double d = 0; for (int j = 0; j < 3; j++) { c.near("lookAt", k, c.fi(17 + j, k), row[k][j], T1); c.near("rotate(from, to)", k, c.fi(21 + k, j), row[k][j], T1); d -= row[k][j] * a[j]; } c.near("lookAt translation", k, c.fi(20, k), d, T1 * 3 * nrm(a, 3)); }
		double tr[9] = {sd[0], sd[1], sd[2], u[0], u[1], u[2], f[0], f[1], f[2]}, qq[4], ql = 0; for (int k = 0; k < 4; k++) { qq[k] = c.fi(25, k); ql += qq[k] * qq[k]; } for (int k = 0; k < 3; k++) { double e[3] = {k == 0 ? 1.0 : 0, k == 1 ? 1.0 : 0, k == 2 ? 1.0 : 0}, z[3]; qrot(qq, e, z); for (int j = 0; j < 3; j++) c.near("lookAtQuat axis", k * 3 + j, z[j], tr[k * 3 + j], 4 * T1); } c.near("lookAtQuat length", 0, ql, 1, 2 * T1);
		break;
	}
	case EXPLOG:
	{
		auto lg = [&](int slot, const double* v, const char* n) { for (int k = 0; k < w; k++) if (v[k] != 0) { double z = std::log(std::fabs(v[k])); c.f(slot, k, n, z, 2 * E * std::fabs(z) + (simd ? 0.5 : 0) * E); } else if (!(std::isinf(o.f[slot][k]) && o.f[slot][k] < 0)) c.bad("log of zero", k, o.f[slot][k], -INFINITY, 0); };
		lg(0, a, "log"); lg(4, cc, "log");
		auto ex = [&](int slot, int k, double z, double rel) { double want = std::exp(z); if (want > 3.5e38) { if (!(o.f[slot][k] > 3.3e38)) c.bad("exp", k, o.f[slot][k], want, 0); } else if (want < 3.3e38) c.f(slot, k, "exp", want, rel * want); };
		for (int k = 0; k < w; k++) { ex(1, k, a[k], 2 * E); ex(3, k, b[k], 2 * E); if (b[k] != 0) c.f(2, k, "exp of log", std::fabs(b[k]), (6 + 6 * std::fabs(std::log(std::fabs(b[k])))) * E * std::fabs(b[k])); }
		if (simd)
		{
			rt::count(rt::M_CHECKS, 8); if (!(std::isinf(o.f[5][0]) && o.f[5][0] > 0)) c.bad("log of infinity", 0, o.f[5][0], INFINITY, 0); if (!(std::isinf(o.f[5][1]) && o.f[5][1] < 0)) c.bad("log of zero", 1, o.f[5][1], -INFINITY, 0); if (!std::isnan(o.f[5][2])) c.bad("log of a negative number", 2, o.f[5][2], NAN, 0); c.f(5, 3, "log of one", 0, 1e-9);
			c.f(6, 0, "exp of zero", 1, E); c.f(6, 1, "exp of -200", 0, 0); if (!std::isinf(o.f[6][2])) c.bad("exp of 200", 2, o.f[6][2], INFINITY, 0); c.f(6, 3, "exp of one", M_E, 5 * E); for (int k = fpu ? 1 : 0; k < 4; k++) { double z = std::log((double)(k == 0 ? x.t * FLT_MIN : k == 1 ? FLT_MAX : k == 2 ? FLT_MIN : 2.0f)); if (std::isfinite(z)) c.f(7, k, "log at the ends of the range", z, 4 * E * std::fabs(z)); }
		}
		break;
	}
	case POWERS:
	{
		for (int k = 0; k < w; k++)
		{
			double p = std::fabs(a[k]), e = o.f[3][k], want = std::pow(p, e); if (p != 0 && want < 1e37 && want > 1e-36) { c.f(0, k, "pow", want, 3 * E * want); if (simd) c.f(1, k, "fastPow", want, (12 + 8 * std::fabs(e * std::log(p))) * E * want); }
			if (simd) { double n = o.f[4][k], wn = std::pow(a[k], n), mag = std::fabs(wn); if (a[k] != 0 && mag < 1e37 && mag > 1e-36) c.f(2, k, "fastPow of an integer power", wn, (12 + 8 * std::fabs(n * std::log(p))) * E * mag); c.f(5, k, "fastPow of zero", 0, 0); c.f(6, k, "fastPow to zero", 1, 0); }
			double g = o.f[10][k]; if (!(g >= 0 && g <= 1)) c.bad("clamp", k, g, 0, 0);
			if (simd) { for (int j = 0; j < 2; j++) { double z = k == 3 ? g : std::pow(g, !j ? 1 / 2.2 : (double)(x.t + 0.1f)); if (g > 1e-30) c.f(j ? 11 : 8, k, "fastGammaCorrection", z, 40 * E); } }
			else { double ke = std::fabs(e), z = g < 0.5 ? 0.5 * std::pow(2 * g, ke) : 1 - 0.5 * std::pow(2 * (1 - g), ke); if (ke > 1e-3) c.f(7, k, "gain", z, 8 * E); }
		}
		if (!simd) { double g = std::min(1.0, std::fabs(a[0])), ke = std::fabs(t) * 3, z = g < 0.5 ? 0.5 * std::pow(2 * g, ke) : 1 - 0.5 * std::pow(2 * (1 - g), ke); if (ke > 1e-3) c.f(8, 0, "scalar gain", z, 8 * E); }
		break;
	}
	case TRIG:
	{
		for (int k = 0; k < w; k++) { double z = o.f[4][k], m = std::fabs(z); if (std::fabs(a[k]) < 10000) { double T1 = 4 * E + (simd ? std::fabs(a[k]) * 2e-10 : 0); c.f(0, k, "sin", std::sin(a[k]), T1); c.f(1, k, "cos", std::cos(a[k]), T1); } if (m < 10000) { double T1 = 4 * E + (simd ? m * 2e-10 : 0); c.f(2, k, "sin", std::sin(z), T1); c.f(3, k, "cos", std::cos(z), T1); } }
		break;
	}
	case STDFN:
	{
		if (simd) break;
		auto one = [&](int slot, const char* n, double (*f)(double), const double* v) { for (int k = 0; k < w; k++) { double z = f(v[k]); c.f(slot, k, n, z, 4 * E * std::fabs(z) + 1e-12); } };
		double u[4], h[4], p[4], p1[4], u9[4]; for (int k = 0; k < 4; k++) { u[k] = o.f[30][k]; h[k] = o.f[31][k]; p[k] = std::fabs(a[k]); p1[k] = o.f[21][k]; u9[k] = o.f[22][k]; }
		one(0, "exp", std::exp, h); one(1, "exp2", std::exp2, h); one(2, "expm1", std::expm1, h); one(3, "log", std::log, p); one(4, "log10", std::log10, p); one(5, "log2", std::log2, p); one(6, "log1p", std::log1p, p); one(7, "cbrt", std::cbrt, a); one(8, "sin", std::sin, a); one(9, "cos", std::cos, a); one(10, "tan", std::tan, u);
		one(11, "asin", std::asin, u); one(12, "acos", std::acos, u); one(13, "atan", std::atan, a); for (int k = 0; k < w; k++) { double z = std::atan2(a[k], b[k]); c.f(14, k, "atan of two", z, 4 * E * std::fabs(z) + 1e-12); } one(15, "sinh", std::sinh, h); one(16, "cosh", std::cosh, h); one(17, "tanh", std::tanh, a); one(18, "asinh", std::asinh, a); one(19, "acosh", std::acosh, p1); one(20, "atanh", std::atanh, u9);
		break;
	}
	case PROJ:
		if (node < 2) for (int j = 0; j < 5; j++) for (int i = 0; i < 3; i++)
		{
			static const char* name[] = {"calcPerspProjInfRevZ", "calcPerspProjRevZ", "calcPerspProj", "calcOrthoProjRevZ", "calcOrthoProj"}; const float* v = (j > 2 ? x.p : x.m) + i * 4; double z = v[2], n = j > 2 ? cc[0] : a[2], f = j > 2 ? cc[1] : a[3], want[3], tol[3];
			if (j < 3) { double tn = std::tan(a[0] * 0.5); want[0] = v[0] / (z * a[1] * tn); want[1] = -v[1] / (z * tn); tol[0] = 6 * E * std::fabs(want[0]); tol[1] = 6 * E * std::fabs(want[1]); want[2] = j == 0 ? n / z : j == 1 ? n * (f - z) / (z * (f - n)) : f * (z - n) / (z * (f - n)); tol[2] = (j == 2 ? 6 * E * (f + f * n / z) : 6 * E * (n + n * f / z)) / (f - n); if (j == 0) tol[2] = 3 * E * n / z; }
			else { for (int k = 0; k < 2; k++) { double lo = b[2 * k], hi = b[2 * k + 1]; want[k] = (k ? -1 : 1) * (2 * v[k] - lo - hi) / (hi - lo); tol[k] = 6 * E * (2 * std::fabs((double)v[k]) + std::fabs(lo) + std::fabs(hi)) / std::fabs(hi - lo); } want[2] = j == 3 ? (z - f) / (n - f) : (z - n) / (f - n); tol[2] = 6 * E * (std::fabs(z) + std::fabs(n) + std::fabs(f)) / std::fabs(f - n); }
			double cw = o.f[j * 3 + i][3]; if (!(cw > 0)) c.bad(name[j], 3, cw, 1, 0); for (int k = 0; k < 3; k++) c.near(name[j], k, o.f[j * 3 + i][k] / cw, want[k], tol[k]);
		}
		break;
	case FORMS:
	{
		uint32_t n = (uint32_t)x.n, un = x.un; int k0 = 0;
		auto bits = [](const void* p, int slot, int k) { uint32_t v; memcpy(&v, (const char*)p + slot * 16 + k * 4, 4); return v; };
		auto each = [&](const char* what, const void* p, auto want) { for (int k = 0; k < w; k++) c.whole(what, k, bits(p, k0, k), (uint32_t)want(k)); k0++; };
		auto all = [&](auto& va, auto& vb, auto sn, const void* o1, const void* o2)
		{
			typedef decltype(sn) S; auto N = [&](int) { return sn; }; auto Av = [&](int k) { return va[k]; }; auto Bv = [&](int k) { return vb[k]; }; auto Sa = [&](int k) { return (S)(va[k] & 7); }; auto Sb = [&](int k) { return (S)(vb[k] & 31); }; auto S5 = [&](int) { return (S)(sn & 31); };
			auto ten = [&](const char* names[10], auto L, auto R, auto Ls, auto Rs, auto LsLeft)
			{
				each(names[0], o1, [&](int k) { return (uint32_t)L(k) + (uint32_t)R(k); }); each(names[1], o1, [&](int k) { return (uint32_t)L(k) - (uint32_t)R(k); }); each(names[2], o1, [&](int k) { return (uint32_t)L(k) * (uint32_t)R(k); });
				each(names[3], o1, [&](int k) { return L(k) / R(k); }); each(names[4], o1, [&](int k) { return L(k) % R(k); }); each(names[5], o1, [&](int k) { return L(k) & R(k); }); each(names[6], o1, [&](int k) { return L(k) | R(k); }); each(names[7], o1, [&](int k) { return L(k) ^ R(k); });
				each(names[8], o1, [&](int k) { return Ls(k) >> Rs(k); }); each(names[9], o1, [&](int k) { return (uint32_t)LsLeft(k) << Rs(k); });
			};
			static const char *n1[] = {"n + v", "n - v", "n * v", "n / v", "n % v", "n & v", "n | v", "n ^ v", "n >> v", "n << v"}, *n2[] = {"v += v", "v -= v", "v *= v", "v /= v", "v %= v", "v &= v", "v |= v", "v ^= v", "v >>= v", "v <<= v"}, *n3[] = {"v += n", "v -= n", "v *= n", "v /= n", "v %= n", "v &= n", "v |= n", "v ^= n", "v >>= n", "v <<= n"};
			ten(n1, N, Bv, N, Sb, N); ten(n2, Av, Bv, Av, Sb, Sa); ten(n3, Av, N, Av, S5, Sa);
			each("v = n", o1, N); each("v >> n", o1, [&](int k) { return Av(k) >> S5(k); }); each("v << n", o1, [&](int k) { return (uint32_t)Sa(k) << S5(k); }); each("v >> v", o1, [&](int k) { return Av(k) >> Sb(k); }); each("v << v", o1, [&](int k) { return (uint32_t)Sa(k) << Sb(k); }); each("default", o1, [](int) { return 0; }); each("v = v", o1, Bv);
			k0 = 0; auto mk = [](bool v) { return v ? 0xFFFFFFFFu : 0u; }; auto four = [&](const char* const* names, auto L, auto R) { each(names[0], o2, [&](int k) { return mk(L(k) < R(k)); }); each(names[1], o2, [&](int k) { return mk(L(k) > R(k)); }); each(names[2], o2, [&](int k) { return mk(L(k) <= R(k)); }); each(names[3], o2, [&](int k) { return mk(L(k) >= R(k)); }); };
			static const char *c1[] = {"n < v", "n > v", "n <= v", "n >= v"}, *c2[] = {"v < n", "v > n", "v <= n", "v >= n"}, *c3[] = {"v < v", "v > v", "v <= v", "v >= v"}; four(c1, N, Bv); four(c2, Av, N); four(c3, Av, Bv);
			bool eb = true, ea = true; for (int k = 0; k < w; k++) { eb &= vb[k] == sn; ea &= va[k] == sn; } c.whole("n == v", 0, bits(o2, 12, 0), eb); c.whole("n != v", 0, bits(o2, 12, 1), !eb); c.whole("v == n", 0, bits(o2, 13, 0), ea); c.whole("v != n", 0, bits(o2, 13, 1), !ea);
		};
		auto same = [&](const char* what, const void* p, int slot, int k, double want) { float v; memcpy(&v, (const char*)p + slot * 16 + k * 4, 4); rt::count(rt::M_CHECKS); if (!(std::isnan(want) ? std::isnan(v) : v == (float)want)) c.bad(what, k, v, want, 0); };
		static const double cv[] = {0, 1, -1, FLT_MIN, -FLT_MIN, FLT_MAX, -FLT_MAX, FLT_EPSILON, INFINITY, -INFINITY, NAN}; static const char* cn[] = {"zero", "one", "minusOne", "min", "minusMin", "max", "minusMax", "epsilon", "inf", "minusInf", "nan"}; static const char* dn[] = {"left", "right", "bottom", "top", "back", "front"};
		switch (x.sh & 3)
		{
		case 0: all(x.ia, x.ib, x.n, o.i, o.u); for (int k = 0; k < w; k++) { c.whole("zero", k, o.i[37][k], 0); c.whole("one", k, o.i[38][k], 1); c.whole("minusOne", k, o.i[39][k], -1); if (simd) { c.whole("min", k, bits(o.f, 0, k), 0x80000000u); c.whole("max", k, bits(o.f, 1, k), 0x7FFFFFFF); c.whole("loaded", k, (int32_t)bits(o.f, 2, k), x.ia[k]); } } break;
		case 1: all(x.ua, x.ub, x.un, o.u, o.i); for (int k = 0; k < w; k++) { c.whole("zero", k, o.u[37][k], 0); c.whole("one", k, o.u[38][k], 1); if (simd) c.whole("max", k, bits(o.f, 0, k), 0xFFFFFFFFu); else c.whole("-v", k, o.u[39][k], 0u - x.ua[k]); } break;
		case 2:
		{
			for (int j = 0; j < 11; j++) for (int k = 0; k < w; k++) same(cn[j], o.f, j, k, cv[j]);
			for (int j = 0; j < 6; j++) { if (node == 1 || (j > 3 && node == 3)) continue; for (int k = 0; k < w; k++) { double v = k == j / 2 ? j % 2 ? 1 : -1 : 0; same(dn[j], o.f, 11 + j, k, v); if (!simd) c.whole(dn[j], k, o.i[j][k], (int)v); } }
			for (int k = 0; k < w; k++) same("default", o.f, 17, k, 0); c.el(18, "n + v", [&](int k) { return s + a[k]; }); c.el(19, "n - v", [&](int k) { return s - a[k]; }); c.el(20, "n * v", [&](int k) { return s * a[k]; }); c.el(21, "n / v", [&](int k) { return b[k] != 0 ? s / b[k] : INFINITY; }, 2);
			bool eq = true; for (int k = 0; k < w; k++) eq &= x.a[k] == x.s; c.flag(0, 0, "n == v", eq); c.flag(0, 1, "n != v", !eq); c.mask(o.u[1], "n < v", [&](int k) { return x.s < x.a[k]; }); c.mask(o.u[2], "n > v", [&](int k) { return x.s > x.a[k]; }); c.mask(o.u[3], "n <= v", [&](int k) { return x.s <= x.a[k]; }); c.mask(o.u[4], "n >= v", [&](int k) { return x.s >= x.a[k]; });
			break;
		}
		default:
		{
			auto M = [&](int k, int r) { return (double)x.m[k * 4 + r]; }; auto mats = [&](const char* what, const void* p, int slot, int cols, int rows, auto want) { for (int k = 0; k < cols; k++) for (int r = 0; r < rows; r++) { float v; memcpy(&v, (const char*)p + (slot + k) * 16 + r * 4, 4); double z = want(k, r); c.near(what, k * 4 + r, v, z, 2 * E * std::fabs(z)); } };
			auto fix = [&](const char* what, const void* p, int slot, int cols, int rows, double v) { for (int k = 0; k < cols; k++) for (int r = 0; r < rows; r++) same(what, p, slot + k, r, v); }; auto idn = [](int k, int r) { return k == r ? 1.0 : 0.0; };
			fix("matrix zero", o.f, 0, w, w, 0); fix("matrix one", o.f, 4, w, w, 1); fix("matrix minusOne", o.f, 8, w, w, -1); mats("identity", o.f, 12, w, w, idn); auto plus = [&](int k, int r) { return M(k, r) + s; }; auto minus = [&](int k, int r) { return M(k, r) - s; }; auto rev = [&](int k, int r) { return s - M(k, r); }; auto times = [&](int k, int r) { return M(k, r) * s; }; auto over = [&](int k, int r) { return M(k, r) / s; }; auto inv = [&](int k, int r) { return M(k, r) != 0 ? s / M(k, r) : INFINITY; };
			c.flag(17, 0, "default matrix == zero", true); c.flag(17, 1, "matrix of n == zero + n", true); if (node == 1) { c.flag(17, 2, "default float4x3 == zero", true); c.flag(17, 3, "float4x3 of n == zero + n", true); } mats("m += n", o.f, 16, w, w, plus); mats("m -= n", o.f, 20, w, w, minus); mats("m *= n", o.f, 24, w, w, times); mats("m /= n", o.f, 28, w, w, over);
			if (simd) { static const int at[] = {3, 5, 4, 6, 7, 8, 9, 10}; for (int j = 0; j < 8; j++) fix(cn[at[j]], o.i, j * 4, 4, 4, cv[at[j]]); for (int k = 0; k < 4; k++) { same("quat identity", o.i, 32, k, k == 3); same("quat default", o.i, 33, k, k == 3); } }
			else { mats("n + m", o.f, 32, w, w, plus); mats("n - m", o.f, 36, w, w, rev); mats("n * m", o.u, 0, w, w, times); mats("n / m", o.u, 4, w, w, inv); }
			if (node == 1)
			{
				fix("float4x3 zero", o.i, 0, 4, 3, 0); fix("float4x3 one", o.i, 4, 4, 3, 1); fix("float4x3 minusOne", o.i, 8, 4, 3, -1); mats("float4x3 identity", o.i, 12, 4, 3, idn); mats("float4x3 += n", o.i, 16, 4, 3, plus); mats("float4x3 -= n", o.i, 20, 4, 3, minus); mats("float4x3 *= n", o.i, 24, 4, 3, times); mats("float4x3 /= n", o.i, 28, 4, 3, over); mats("float4x3 - n", o.i, 32, 4, 3, minus); mats("n + float4x3", o.i, 36, 4, 3, plus); mats("n * float4x3", o.u, 8, 4, 3, times); mats("n / float4x3", o.u, 12, 4, 3, inv);
				bool eq = true; for (int k = 0; k < 4; k++) for (int r = 0; r < 3; r++) eq &= x.m[k * 4 + r] == x.p[k * 4 + r]; c.flag(16, 0, "float4x3 ==", eq); c.flag(16, 1, "float4x3 !=", !eq); c.flag(16, 2, "float4x3 == itself", true); c.flag(16, 3, "float4x3 != itself", false);
			}
		}
		}
		(void)n; (void)un; break;
	}
	default:
	{
		if (!simd) break;
		const uint32_t *p = x.ua, *v = o.u[6]; uint32_t P = (p[0] & 255) << 24 | (p[1] & 255) << 16 | (p[2] & 255) << 8 | (p[3] & 255), Q = v[0] << 24 | v[1] << 16 | v[2] << 8 | v[3];
		c.whole("version value", 0, o.u[0][0], P); c.whole("version value", 1, o.u[0][1], Q); c.whole("version round trip", 0, o.u[0][2], P); c.flag(0, 3, "version == itself", true); int cmp = 0; { uint32_t l[4] = {p[0] & 255, p[1] & 255, p[2] & 255, p[3] & 255}; for (int k = 0; k < 4 && !cmp; k++) cmp = l[k] < v[k] ? -1 : l[k] > v[k]; const uint32_t got[8] = {o.u[2][2], o.u[3][0], o.u[3][1], o.u[2][3], o.u[2][2], o.u[3][2], o.u[3][3], o.u[2][3]}; for (int k = 0; k < 8; k++) c.whole("version part", k, got[k], l[k % 4]); }
		if (!(x.sh & 1)) for (int k = 0; k < 4; k++) c.whole("version from parts", k, v[k], x.ub[k] & 255); else for (int k = 0; k < 4; k++) c.whole("version part set", k, v[k], (x.sh & 2) && k == (int)((x.sh >> 2) & 3) ? x.un & 255 : p[k] & 255);
		c.flag(1, 0, "version <", cmp < 0); c.flag(1, 1, "version >", cmp > 0); c.flag(1, 2, "version <=", cmp <= 0); c.flag(1, 3, "version >=", cmp >= 0); c.flag(2, 0, "version ==", cmp == 0); c.flag(2, 1, "version !=", cmp != 0);
		uint64_t f = (uint64_t)x.ua[0] << 32 | x.ua[1], h = (uint64_t)x.ub[0] << 32 | x.ub[1], k[4], z[4]; memcpy(k, o.i[0], 32); memcpy(z, o.i[2], 32); uint64_t want[8] = {f | h, f & h, f ^ h, ~f, f | h, f & h, f ^ h, !f}; for (int j = 0; j < 8; j++) c.whole("flags operator", j, (int64_t)(j < 4 ? k[j] : z[j - 4]), (int64_t)want[j]);
		c.flag(4, 0, "hasAnyFlag", (f & h) != 0); c.flag(4, 1, "hasAnyFlag of none", false); c.flag(4, 2, "hasAnyFlag of the complement", false); c.flag(4, 3, "hasAnyFlag of one bit", (f >> (x.un & 63)) & 1); c.flag(5, 0, "hasOneFlag of itself", true); c.flag(5, 1, "hasOneFlag of one bit", true);
		uint8_t ch[9]; colours(x, ch); uint32_t all[3] = {511, 511, 511}; for (int i = 0; i < 4; i++) { const int l[3][2] = {{ch[i], ch[4 + i]}, {ch[i], ch[8]}, {ch[8], ch[i]}}; for (int j = 0; j < 3; j++) { int y = l[j][0], t = l[j][1]; all[j] &= (y == t) | (y < t) << 2 | (y > t) << 3 | (y <= t) << 4 | (y >= t) << 5; } }
		static const char* nm[] = {"every channel ==", "any channel !=", "every channel <", "every channel >", "every channel <=", "every channel >="}; for (int j = 0; j < 18; j++) c.whole(nm[j % 6], j, o.u[7][0] >> j & 1, j % 6 == 1 ? !(all[j / 6] & 1) : all[j / 6] >> j % 6 & 1); c.whole("colour of one level", 0, o.u[7][1], ch[8] * 0x01010101u); for (int i = 0; i < 4; i++) c.whole("part of a constant version", i, o.u[8][i], p[i] & 255);
	}
	}
	rt::nontrivial();
}

// ------------------------------------------------------------------ inputs and the agreed state
float tame(double v, double fallback) { double m = std::fabs(v); if (!(m < 1e6) || (m != 0 && m < 1e-6)) v = fallback; return (float)v; }
float freshF(Rng& r)
{
	double v; switch (r.below(9))
	{
	case 0: v = (double)r.range(-9, 9); break; case 1: v = r.real(-1, 1); break; case 2: v = r.real(-100, 100); break; case 3: v = (double)r.range(-50, 50) + 0.5; break;
	case 4: v = std::pow(10.0, r.real(-5, 5.9)) * (r.chance(0.5) ? 1 : -1); break; case 5: v = r.chance(0.5) ? 0.0 : -0.0; break; case 6: v = (r.chance(0.5) ? 1 : -1) * (double)ulpStep((float)r.range(1, 4), (int)r.range(-2, 2)); break;
	case 7: v = std::ldexp(r.chance(0.5) ? 1.0 : -1.0, (int)r.range(-16, 18)); break; default: v = r.real(-7, 7);
	}
	return std::signbit(v) && v == 0 ? -0.0f : tame(v, 1.25);
}
int32_t freshI(Rng& r) { switch (r.below(5)) { case 0: return (int32_t)r.range(-9, 9); case 1: return (int32_t)r.next(); case 2: return (int32_t)((1u << r.below(32)) + (uint32_t)r.range(-1, 1)); default: return (int32_t)r.range(-30000, 30000); } }
uint32_t freshU(Rng& r) { switch (r.below(5)) { case 0: return (uint32_t)r.below(10); case 1: return (1u << r.below(32)) + (uint32_t)r.range(-1, 1); case 2: return 0u - (uint32_t)r.below(5); case 3: return (uint32_t)r.below(70000); default: return (uint32_t)r.next(); } }
void freshM(Rng& r, float* m)
{
	int style = (int)r.below(9); double big = style == 4 ? std::pow(10.0, r.real(-2, 2)) : 1;
	for (int k = 0; k < 16; k++) m[k] = tame(style == 0 ? (double)r.range(-3, 3) : style == 1 ? (k % 5 == 0 ? r.real(0.3, 3) : 0.0) : style == 2 ? (k % 5 == 0 ? 1.0 : r.real(-0.4, 0.4)) : style == 5 ? (k % 4 == 3 ? (k == 15 ? 1.0 : 0.0) : r.real(-2, 2)) : r.real(-3, 3) * big, 1.0);
	if (style == 3 && r.chance(0.4)) for (int k = 0; k < 4; k++) m[4 + k] = 2 * m[k];
	if (style < 6) return;
	// structured matrices: rotations and permutations with uniform, mirrored or uneven scale, translation and shear; projections; triangles and symmetric ones
	double a[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, b[16]; auto mul = [&](const double* q) { for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) { b[c * 4 + k] = 0; for (int j = 0; j < 4; j++) b[c * 4 + k] += a[j * 4 + k] * q[c * 4 + j]; } memcpy(a, b, sizeof a); };
	if (style == 8)
	{
		int form = (int)r.below(5); if (form == 0) { double n = r.real(0.1, 1), f = r.real(2, 90); a[0] = r.real(0.5, 3); a[5] = -r.real(0.5, 3); a[10] = r.chance(0.5) ? n / (f - n) : 0; a[11] = 1; a[14] = n * f / (f - n); a[15] = 0; }
		if (form == 1) for (int c = 0; c < 4; c++) for (int k = 0; k <= c; k++) a[c * 4 + k] = a[k * 4 + c] = r.real(-2, 2);
		if (form == 2) for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) a[c * 4 + k] = k < c ? 0 : r.real(0.3, 2);
		if (form == 3) for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) a[c * 4 + k] = k > c ? 0 : r.real(0.3, 2);
		if (form == 4) { double u = (double)r.range(1, 4) / 2; for (int k = 0; k < 16; k++) a[k] *= u; }
	}
	else
	{
		bool exact = style == 7; // all elements exact in binary
		if (r.chance(0.7)) { double t[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}; for (int k = 12; k < 15; k++) t[k] = exact ? (double)r.range(-8, 8) / 2 : r.real(-9, 9); mul(t); }
		for (int n = (int)r.below(3); n > 0; n--)
		{
			double t[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}; int u = (int)r.below(3), v = (u + 1) % 3, quarter = (int)r.below(4); double g = r.real(-3, 3), cs = exact ? quarter == 0 ? 1 : quarter == 2 ? -1 : 0 : std::cos(g), sn = exact ? quarter == 1 ? 1 : quarter == 3 ? -1 : 0 : std::sin(g);
			t[u * 5] = t[v * 5] = cs; t[u * 4 + v] = sn; t[v * 4 + u] = -sn; mul(t);
		}
		if (r.chance(0.7)) { double t[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, e = exact ? std::ldexp(1.0, (int)r.range(-2, 2)) : r.real(0.2, 3); int how = (int)r.below(4); for (int k = 0; k < 3; k++) t[k * 5] = how == 0 ? e : how == 1 ? -e : how == 2 ? (k == 1 ? e : 1) : exact ? std::ldexp(1.0, (int)r.range(-2, 2)) : r.real(0.2, 3); mul(t); }
		if (r.chance(0.15)) { double t[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}; t[r.below(3) * 4 + r.below(3)] += exact ? 1 : r.real(-1, 1); mul(t); }
	}
	for (int k = 0; k < 16; k++) m[k] = tame(a[k], 0);
}
void freshQ(Rng& r, float* q)
{
	if (r.chance(0.12)) { static const float h = 0.70710678118654752f; float c[2] = {0, 0}; switch (r.below(5)) { case 0: c[1] = 1; break; case 1: c[1] = -1; break; case 2: c[0] = 1; break; case 3: c[0] = c[1] = h; break; default: c[0] = h; c[1] = -h; } for (int k = 0; k < 3; k++) q[k] = 0; q[r.below(3)] = c[0]; q[3] = c[1]; return; }
	double v[4], n = 0; for (int k = 0; k < 4; k++) v[k] = r.chance(0.15) ? 0 : r.real(-1, 1); if (r.chance(0.2)) { v[0] *= 1e-3; v[1] *= 1e-3; v[2] *= 1e-3; v[3] = 1; } if (r.chance(0.1)) v[3] = 0;
	for (int k = 0; k < 4; k++) n += v[k] * v[k];
	if (n < 1e-4) { v[0] = v[1] = v[2] = 0; v[3] = n = 1; }
	for (int k = 0; k < 4; k++) { q[k] = (float)(v[k] / std::sqrt(n)); if (std::fabs(q[k]) < 1e-6f) q[k] = 0; }
}
void viewPoint(const In& x, bool flat, int i, float* v) // a point between the planes, in the middle, near or far, left or right
{
	float u = x.t, q = i == 0 ? 0.0f : i == 1 ? u : 1.0f; if (flat) { v[0] = x.b[0] + (x.b[1] - x.b[0]) * u; v[1] = x.b[2] + (x.b[3] - x.b[2]) * (1 - u); v[2] = x.c[0] + (x.c[1] - x.c[0]) * q; return; }
	v[2] = x.a[2] + (x.a[3] - x.a[2]) * q * q; v[0] = x.c[2] * v[2]; v[1] = x.c[3] * v[2];
}
In makeIn(const Regs& g, const Op& op)
{
	In x; memset(&x, 0, sizeof x); Rng r(op.seed); int p = (int)((uint64_t)op.a[1] % REGS), q = (int)((uint64_t)op.a[2] % REGS), z = (int)((uint64_t)op.a[3] % REGS); uint32_t var = (uint32_t)op.a[4];
	memcpy(x.a, g.f[p], 16); memcpy(x.b, g.f[q], 16); memcpy(x.c, g.f[z], 16); memcpy(x.ia, g.i[p], 16); memcpy(x.ib, g.i[q], 16); memcpy(x.ua, g.u[p], 16); memcpy(x.ub, g.u[q], 16);
	memcpy(x.m, g.m[p], 64); memcpy(x.p, g.m[q], 64); memcpy(x.q, g.q[p], 16); memcpy(x.r, g.q[q], 16);
	x.s = freshF(r); x.t = (float)r.unit(); if (r.chance(0.1)) x.t = (float)r.below(2); x.n = freshI(r); x.un = freshU(r); x.sh = (uint32_t)r.below(32);
	auto away = [](float& v, float low, float other) { if (std::fabs(v) < low) v = other; };
	switch (op.kind)
	{
	case ARITH: for (float& v : x.b) away(v, 1e-4f, 1.5f); away(x.s, 1e-4f, 0.75f); break;
	case COMPARE: for (int k = 0; k < 4; k++) { if (var >> k & 1) x.b[k] = x.a[k]; if ((var >> (4 + k) & 3) == 3) x.b[k] = ulpStep(x.a[k], (int)(var >> 8 & 1) * 2 - 1); if (std::fabs(x.b[k]) < 1e-30f) x.b[k] = 0; } if (var & 512) x.s = x.a[var & 3]; if (var & 1024) for (float& v : x.a) v = x.s; break;
	case ROUNDS: if (var & 1) for (float& v : x.a) v *= (var & 2) ? 4096.0f : 3e7f; break;
	case INTS: for (int k = 0; k < 4; k++) { x.ia[k] %= 30000; x.ib[k] %= 30000; if (!x.ib[k]) x.ib[k] = 7; if (var >> k & 1) x.ib[k] = x.ia[k] ? x.ia[k] : 3; } x.n %= 30000; if (!x.n) x.n = -5; if (var & 64) { x.n = x.ia[var >> 8 & 3]; if (!x.n) x.n = 11; } if (var & 128) for (int& v : x.ia) v = x.n; break;
	case UINTS: for (int k = 0; k < 4; k++) { if (var >> k & 1) x.ub[k] = x.ua[k]; if (!x.ub[k]) x.ub[k] = 9; } if (!x.un) x.un = 6; if (var & 64) { x.un = x.ua[var >> 8 & 3]; if (!x.un) x.un = 11; } if (var & 128) for (uint32_t& v : x.ua) v = x.un; break;
	case CONVERT: for (int k = 0; k < 4; k++) { if (var & 1) x.a[k] *= 2000.0f; x.a[k] = std::min(std::max(x.a[k], -2147483520.0f), 2147483520.0f); if (var & 2) x.c[k] *= 4000.0f; x.c[k] = std::min(std::fabs(x.c[k]), 4294967040.0f); if (var >> (4 + k) & 1) x.ib[k] = x.ia[k]; } break;
	case MATRIX: if (!(var & 3)) memcpy(x.p, x.m, 64); if (!(var & 12)) x.p[var >> 4 & 15] = -x.p[var >> 4 & 15]; for (float& v : x.m) if (v == 0) v = 0.0f; for (float& v : x.p) if (v == 0) v = 0.0f; away(x.s, 1e-2f, 0.75f); x.s = std::min(std::max(x.s, -1e3f), 1e3f); break;
	case EXPLOG: if (var & 2) for (int k = 0; k < 4; k++) { int e; float m = std::frexp(x.c[k], &e); if (m != 0) x.c[k] = std::ldexp(m, (int)((var >> (2 + k) & 1 ? var >> 8 : (unsigned)x.un >> k) % 252) - 124); } if (var & 1) for (float& v : x.b) v = std::min(std::max(v, -80.0f), 80.0f); if (!(x.t > 1e-3f)) x.t = 0.5f; break;
	case GEOM: if (var & 1) { double n = nrm(std::vector<double>{x.a[0], x.a[1], x.a[2]}.data(), 3); if (n > 1e-3) for (float& v : x.a) v = (float)(v / n); } if (var & 2) for (int k = 0; k < 4; k++) x.b[k] = x.a[k] + 0.4f * x.t * (float)k; if ((var & 28) == 28) memcpy(x.b, x.a, 16); break;
	case FORMS:
		for (int k = 0; k < 4; k++) { x.ia[k] %= 30000; x.ib[k] %= 30000; if (!x.ib[k]) x.ib[k] = 7; if (!x.ub[k]) x.ub[k] = 9; if (var >> k & 1) { x.ib[k] = x.ia[k] ? x.ia[k] : 3; x.ub[k] = x.ua[k] ? x.ua[k] : 3; } }
		x.n %= 30000; if (!x.n) x.n = -5; if (!x.un) x.un = 6; if (var & 64) { x.n = x.ib[var >> 8 & 3]; x.un = x.ub[var >> 8 & 3]; } if (var & 128) for (int k = 0; k < 4; k++) { x.ia[k] = x.n; x.ua[k] = x.un; } if (var & 4096) for (int k = 0; k < 4; k++) { x.ib[k] = x.n; x.ub[k] = x.un; }
		if (!(var & 24)) memcpy(x.p, x.m, 64); if (!(var & 48)) x.p[var >> 8 & 15] = x.p[var >> 8 & 15] + 1; for (float& v : x.m) if (v == 0) v = 0.0f; for (float& v : x.p) if (v == 0) v = 0.0f; for (float& v : x.b) away(v, 1e-4f, 1.5f); away(x.s, 1e-2f, 0.75f); x.s = std::min(std::max(x.s, -1e3f), 1e3f); if (var & 2048) x.s = x.a[var & 3]; away(x.s, 1e-2f, 0.75f); if (var & 8192) for (float& v : x.a) v = x.s;
		break;
	case PROJ:
	{
		auto unit = [&](int k) { return (float)((x.ua[k & 3] * 2654435761u ^ x.ub[k >> 2] * 40503u) >> 8) / 16777216.0f; }; bool lim = var & 1;
		x.a[0] = lim ? 0.5f + (float)(var >> 1 & 3) * 0.5f : 0.1f + 2.8f * unit(0); x.a[1] = var & 8 ? 1.0f : 0.2f + 4 * unit(1); x.a[2] = lim ? 0.25f : 0.01f + 5 * unit(2) * unit(2); x.a[3] = x.a[2] * (lim ? 4 : 1.5f + (var & 16 ? 5000 : 20) * unit(3));
		for (int k = 0; k < 3; k++) { float* lo = k < 2 ? x.b + 2 * k : x.c; float m = var >> (5 + k) & 1 ? 0 : 40 * unit(4 + k) - 20, e = lim ? 2 : 0.1f + 20 * unit(7 + k); lo[0] = m - e; lo[1] = m + e; if (var >> (8 + k) & 1) lo[1] = lo[0] + 3 * e; } if (var & 2048) { x.c[0] = 0; x.c[1] = 1 + 50 * unit(10); }
		x.c[2] = 2 * unit(11) - 1; x.c[3] = 2 * unit(12) - 1; for (int i = 0; i < 3; i++) { viewPoint(x, false, i, x.m + i * 4); viewPoint(x, true, i, x.p + i * 4); } break;
	}
	case BLEND: if (x.t < 1e-3f) x.t = 0; x.s = std::min(std::max(x.s, -20.0f), 20.0f); break;
	case QUATS: x.s = std::min(std::max(x.s, -50.0f), 50.0f); break;
	default: break;
	}
	return x;
}
uint64_t hashOut(const Out& o) { const uint64_t* p = (const uint64_t*)&o; uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < sizeof o / 8; i++) h = (h ^ p[i]) * 1099511628211ull, h ^= h >> 29; return h; }
float lifeF(const Op& op, const In& x, int k) // a basic operation is exact: every replica computes the same bits
{
	float v; switch ((uint64_t)op.a[4] & 3) { case 0: v = x.a[k] + x.b[k]; break; case 1: v = x.a[k] - x.b[k]; break; case 2: v = x.a[k] * x.b[k]; break; default: v = x.a[k] / x.b[k]; }
	return v;
}
bool calmF(float v) { float m = std::fabs(v); return v == 0 || (m < 1e6f && m > 1e-6f); }
Agreed agree(Regs& g, const Op& op)
{
	Agreed e; memset((void*)&e, 0, sizeof e); e.in = makeIn(g, op); Rng r(op.seed ^ 0xA6); int d = (int)((uint64_t)op.a[0] % REGS); static const int slot[] = {0, 1, 5, 7};
	for (int k = 0; k < 4; k++) { e.f[k] = freshF(r); e.i[k] = freshI(r); e.u[k] = freshU(r); }
	int shape = (int)r.below(12); if (shape < 2) for (int k = 1; k < 4; k++) { e.f[k] = e.f[0]; e.i[k] = e.i[0]; e.u[k] = e.u[0]; } else if (shape == 2) { int one = (int)r.below(4); for (int k = 0; k < 4; k++) if (k != one) { e.f[k] = 0; e.i[k] = 0; e.u[k] = 0; } } else if (shape == 3) { e.f[3] = (float)r.below(2); e.i[3] = 0; e.u[3] = 0; }
	for (int k = 0; k < 4; k++)
	{
		if (op.kind == ARITH && !op.fpu) { float v = lifeF(op, e.in, k); if (calmF(v)) e.f[k] = v; }
		int64_t a = e.in.ia[k], b = e.in.ib[k]; uint32_t ua = e.in.ua[k], ub = e.in.ub[k];
		if (op.kind == INTS) switch (slot[(uint64_t)op.a[4] & 3]) { case 0: e.i[k] = (int32_t)(a + b); break; case 1: e.i[k] = (int32_t)(a - b); break; case 5: e.i[k] = (int32_t)(a & b); break; default: e.i[k] = (int32_t)(a ^ b); }
		if (op.kind == UINTS) switch (slot[(uint64_t)op.a[4] & 3]) { case 0: e.u[k] = ua + ub; break; case 1: e.u[k] = ua - ub; break; case 5: e.u[k] = ua & ub; break; default: e.u[k] = ua ^ ub; }
	}
	freshM(r, e.m); freshQ(r, e.q);
	memcpy(g.f[d], e.f, 16); memcpy(g.i[d], e.i, 16); memcpy(g.u[d], e.u, 16); memcpy(g.m[d], e.m, 64); memcpy(g.q[d], e.q, 16);
	return e;
}

// ------------------------------------------------------------------ the cluster
void runOn(int node, const Op& op, const In& in, Out* out)
{
	memset((void*)out, 0x5A, sizeof(Out));
	callSut(&op, [&] { switch (node) { case 0: run<0>(op.kind, in, *out); break; case 1: run<1>(op.kind, in, *out); break; case 2: run<2>(op.kind, in, *out); break; default: run<3>(op.kind, in, *out); } });
}
void copyRegs(int node, Regs* to, const Regs* from) // library stores and loads, the aligned ones and the others
{
	callSut(nullptr, [&] {
		for (int k = 0; k < REGS; k++)
		{
			if (node == 0) { f4 f; f.loadAligned(from->f[k]); f.storeAligned(to->f[k]); i4 i; i.loadAligned(from->i[k]); i.storeAligned(to->i[k]); u4 u; u.loadAligned(from->u[k]); u.storeAligned(to->u[k]); m4 m = getM(from->m[k], (m4*)nullptr); for (int c = 0; c < 4; c++) m[(size_t)c].store(to->m[k] + 4 * c); f = f4(from->q[k]); f.store(to->q[k]); }
			else { memcpy(to->f[k], from->f[k], 16); memcpy(to->i[k], from->i[k], 16); memcpy(to->u[k], from->u[k], 16); memcpy(to->m[k], from->m[k], 64); memcpy(to->q[k], from->q[k], 16); }
		}
	});
}
void applyAt(int node, int i, bool again)
{
	World& w = *W; Node& nd = w.node[node]; const Op& op = w.plan->ops[(size_t)i]; const Agreed& e = w.log[(size_t)i]; Out* out = w.out[node]; if (!op.lane) rt::setOpIndex(i);
	In in = makeIn(*nd.regs, op); if (memcmp(&in, &e.in, sizeof in)) rt::violate("replica-diverged", "%s node reads other inputs than agreed for operation %d (%s)", nodeName[node], i, opName(op.kind));
	runOn(node, op, in, out); check(op.kind, node, in, *out, op.fpu); uint64_t h = hashOut(*out);
	if (again) { rt::count(P_REPLAYED); if (h != nd.hash[(size_t)i]) rt::violate("replay-differs", "%s node: executing operation %d (%s) again after a crash gave other results", nodeName[node], i, opName(op.kind)); }
	nd.hash[(size_t)i] = h; rt::count(P_APPLIED); if (!op.lane) rt::record(h);
	int d = (int)((uint64_t)op.a[0] % REGS), wd = widthOf(node), sl = (int)((uint64_t)op.a[4] & 3); static const int slot[] = {0, 1, 5, 7}; Regs& g = *nd.regs;
	memcpy(g.f[d], e.f, 16); memcpy(g.i[d], e.i, 16); memcpy(g.u[d], e.u, 16); memcpy(g.m[d], e.m, 64); memcpy(g.q[d], e.q, 16);
	if (op.kind == ARITH && !op.fpu) for (int k = 0; k < wd; k++) if (calmF(out->f[sl][k])) g.f[d][k] = out->f[sl][k];
	if (op.kind == INTS) for (int k = 0; k < wd; k++) g.i[d][k] = out->i[slot[sl]][k];
	if (op.kind == UINTS) for (int k = 0; k < wd; k++) g.u[d][k] = out->u[slot[sl]][k];
}
struct Event { int64_t time; int idx; bool operator<(const Event& o) const { return time != o.time ? time > o.time : idx > o.idx; } };
struct Inbox { std::priority_queue<Event> q; std::vector<char> got; int from, to, applied; bool crashed; };
uint64_t mixup(uint64_t a, uint64_t b) { Rng r(a * 31 + b); return r.next(); }
void fill(Inbox& b, int node, int from, int to)
{
	b.from = from; b.to = to; b.applied = from; b.crashed = false; b.got.assign((size_t)(to - from), 0);
	for (int i = from; i < to; i++)
	{
		const Op& op = W->plan->ops[(size_t)i]; uint64_t h = mixup((uint64_t)op.a[5], (uint64_t)node), f = (uint64_t)op.a[6] >> (node * 3); int64_t t = (i - from) * 10 + (op.a[5] ? (int64_t)(h % 60) : 0); int lost = (int)(f & 3);
		if (op.a[5]) rt::count(P_DELAYED); if (lost) rt::count(P_LOST, (uint64_t)lost); b.q.push({t + 50 * lost, i}); if (f >> 2 & 1) b.q.push({t + 50 * lost + 5 + (int64_t)(h >> 20) % 90, i});
	}
}
void step(Inbox& b, int node)
{
	World& w = *W; Node& nd = w.node[node]; Event e = b.q.top(); b.q.pop(); rt::simTime(1000000); size_t k = (size_t)(e.idx - b.from);
	if (e.idx < b.applied) // a duplicate of something already executed: at-least-once delivery executes it again, on a scratch outcome
	{
		rt::count(P_DUP); const Op& op = w.plan->ops[(size_t)e.idx]; runOn(node, op, w.log[(size_t)e.idx].in, w.out[node]); rt::count(P_DUPLICATE_RUN);
		if (hashOut(*w.out[node]) != nd.hash[(size_t)e.idx]) rt::violate("replay-differs", "%s node: executing operation %d (%s) a second time gave other results", nodeName[node], e.idx, opName(op.kind));
		return;
	}
	if (b.got[k]) { rt::count(P_DUP); return; }
	b.got[k] = 1; if (e.idx > b.applied) rt::count(P_REORDER);
	while (b.applied < b.to && b.got[(size_t)(b.applied - b.from)])
	{
		int i = b.applied++; applyAt(node, i, false); const Op& op = w.plan->ops[(size_t)i];
		if (i + 1 - nd.snapAt >= 4) { copyRegs(node, nd.snap, nd.regs); nd.snapAt = i + 1; rt::count(P_SNAPSHOT); }
		if (op.a[7] != node + 1) continue;
		rt::count(P_CRASH); memset((void*)nd.regs, 0xEE, sizeof(Regs)); copyRegs(node, nd.regs, nd.snap); for (int j = nd.snapAt; j <= i; j++) applyAt(node, j, true);
		for (int j = b.applied; j < b.to; j++) if (b.got[(size_t)(j - b.from)]) { b.got[(size_t)(j - b.from)] = 0; b.q.push({e.time + 80, j}); rt::count(P_LOST); } // what was received but not executed is lost and sent again
	}
}
Inbox box[NODES];
void laneBody(void*, int lane) { while (!box[lane].q.empty()) step(box[lane], lane); }
void exec(const Plan& plan)
{
	World* w = W = new World(); w->plan = &plan; Rng r(plan.seed ^ 0x51); int n = (int)plan.ops.size(); memset((void*)&w->model, 0, sizeof(Regs));
	for (int k = 0; k < REGS; k++) { for (int j = 0; j < 4; j++) { w->model.f[k][j] = freshF(r); w->model.i[k][j] = freshI(r); w->model.u[k][j] = freshU(r); } freshM(r, w->model.m[k]); freshQ(r, w->model.q[k]); }
	for (int k = 0; k < NODES; k++)
	{
		Node& d = w->node[k]; d.regs = (Regs*)rt::bufAlloc(sizeof(Regs), 16); d.snap = (Regs*)rt::bufAlloc(sizeof(Regs), 16); w->out[k] = (Out*)rt::bufAlloc(sizeof(Out), 16);
		*d.regs = w->model; *d.snap = w->model; d.snapAt = 0; d.hash.assign((size_t)n, 0);
	}
	w->log.reserve((size_t)n); for (int i = 0; i < n; i++) w->log.push_back(agree(w->model, plan.ops[(size_t)i]));
	for (int i = 0; i < n;)
	{
		bool par = plan.ops[(size_t)i].lane > 0; int to = i; while (to < n && (plan.ops[(size_t)to].lane > 0) == par) to++;
		for (int k = 0; k < NODES; k++) fill(box[k], k, i, to);
		if (par) { rt::setOpIndex(i); rt::count(P_PARALLEL); rt::runParallel(NODES, laneBody, nullptr); }
		else for (;;) { int best = -1; for (int k = 0; k < NODES; k++) if (!box[k].q.empty() && (best < 0 || box[k].q.top().time < box[best].q.top().time)) best = k; if (best < 0) break; step(box[best], best); }
		for (int k = 0; k < NODES; k++) if (box[k].applied != to) rt::harnessError("node %d stopped at %d of %d", k, box[k].applied, to);
		rt::recordState((uint64_t)plan.ops[(size_t)i].kind * 32 + (uint64_t)(par ? 1 : 0)); i = to;
	}
	for (int k = 0; k < NODES; k++) if (memcmp(w->node[k].regs, &w->model, sizeof(Regs))) rt::violate("replica-diverged", "the registers of the %s node differ from the agreed state at the end", nodeName[k]);
}
void gen(Plan& p, Rng& r)
{
	p.knobs["heap_reuse"] = 0; p.knobs["heap_skew"] = 0; p.knobs["heap_garbage"] = (int64_t)(r.next() >> 2);
	//                              AR CM PK RO GE BL IN UI CV LA MA IV QU XF EL PW TR ST CO
	static const int c20[NKINDS] = {10, 9, 9, 8, 8, 6, 9, 9, 8, 8, 4, 2, 1, 1, 2, 2, 2, 2, 1, 8, 0}, c21[NKINDS] = {1, 0, 0, 0, 3, 1, 0, 0, 0, 1, 20, 20, 25, 25, 0, 0, 0, 0, 0, 4, 8};
	static const int c24[NKINDS] = {1, 0, 2, 4, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 25, 20, 25, 12, 0, 1, 0}, c25[NKINDS] = {0, 2, 1, 0, 0, 0, 6, 22, 20, 14, 0, 0, 0, 0, 0, 0, 0, 0, 30, 8, 0};
	const int (&wt)[NKINDS] = p.property == "C21" ? c21 : p.property == "C24" ? c24 : p.property == "C25" ? c25 : c20;
	int n = 2 + (int)r.below(16); double fr = r.chance(0.3) ? 0 : r.real(0.05, 0.5), cr = r.chance(0.4) ? 0 : r.real(0.02, 0.3); bool fpu = r.chance(0.25);
	auto make = [&](int lane) {
		Op q; q.lane = lane; q.kind = r.pick(wt); q.seed = r.next() >> 1; for (int k = 0; k < 4; k++) q.a[k] = (int64_t)r.below(REGS); q.a[4] = (int64_t)(r.next() & 0xFFFF);
		if (r.chance(fr)) q.a[5] = 1 + (int64_t)r.below(1 << 20); for (int k = 0; k < NODES; k++) { if (r.chance(fr * 0.6)) q.a[6] |= (int64_t)(1 + r.below(3)) << (3 * k); if (r.chance(fr * 0.6)) q.a[6] |= (int64_t)4 << (3 * k); }
		if (r.chance(cr)) q.a[7] = 1 + (int64_t)r.below(NODES); if (fpu && r.chance(0.5)) q.fpu = 1 + (int)r.below(5);
		if (lane) { int np = (int)r.below(6); for (int j = 0; j < np; j++) q.pre.push_back({(uint32_t)r.logUniform(1500), (uint8_t)r.below(8), (uint8_t)r.chance(0.15)}); std::sort(q.pre.begin(), q.pre.end(), [](const rt::Pre& x, const rt::Pre& y) { return x.step < y.step; }); }
		p.ops.push_back(q);
	};
	for (int i = 0; i < n; i++) if (r.chance(0.15)) { int m = 1 + (int)r.below(3); for (int l = 0; l < m; l++) make(1); } else make(0);
}
}

const sim::Scenario sim::scenario = {"replica", gen, exec, opName, {"messages_lost_and_resent", "duplicated_messages", "messages_reordered", "messages_delayed", "node_crashes", "operations_executed_again_after_a_crash", "snapshots", "parallel_blocks", "operations_applied", "unsigned_values_above_2_31", "singular_matrices_skipped", "duplicates_executed_again"}, 20,
	{"dst", "src1", "src2", "src3", "variant", "latency", "loss_dup_bits", "crash_node"}};
