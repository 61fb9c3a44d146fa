// Scenario "values" (C07): re-entrancy of the value-type functions. Several simulated threads call them, often for the first time in the
// process, under a scheduler that may switch at any memory access; every result must be the one the same call gives alone in a pristine
// process. References are computed in forked processes that have never run library code.
#include "common.h"
#include "math/vector.hpp"
#include "math/matrix.hpp"
#include "math/quaternion.hpp"
#include "math/angles.hpp"
#include "math/common.hpp"
#include "math/matrix/transform.hpp"
#include "math/matrix/projection.hpp"
#include "math/aabb.hpp"
#include "math/plane.hpp"
#include "math/sphere.hpp"
#include "math/ray.hpp"
#include "math/triangle.hpp"
#include "math/line.hpp"
#include "math/color.hpp"
#include "math/color-space.hpp"
#include "math/tone-mapping.hpp"
#include "math/ibl.hpp"
#include "math/brdf.hpp"
#include "math/sh.hpp"
#include "math/version.hpp"
#include "math/flags.hpp"
#include "math/hex.hpp"
#include <sys/mman.h>

using namespace math;

namespace
{
enum class Bits : uint32 { None = 0, A = 1, B = 2, C = 4, D = 8, All = 15 };
DECLARE_ENUM_CLASS_FLAG_OPERATORS(Bits)

//---------------------------------------------------------------------------------------------------------------------
// Arguments. Everything is written as raw words so that no library code runs before the simulated calls.
struct alignas(16) Args
{
	f32x4 v[4];        // general
	f32x4 c[2];        // colour range 0..1
	f32x4 n[2];        // unit
	f32x4 q[2];        // unit quaternions (as vectors)
	f32x4 p[3];        // positions
	f32x4 e;           // positive extent
	f32x4x4 m[2];      // general, well conditioned
	f32x4x4 r;         // rigid
	f32x4x4 proj;      // perspective-like
	f32x4 pl[6];       // planes (unit normal, distance)
	f32x4 sh[9];       // spherical harmonics of a positive function
	i32x4 i[3];
	u32x4 u[3];
	i32x4 idiv; u32x4 udiv;
	i32x4 ish; u32x4 ush;
	u32x4 mask;
};
struct Loose // alignment 4: the plain types may live at any such address
{
	float f[6], t[2], pos[2], big[2];
	float2 f2[3]; float3 f3[3]; float4 f4[3];
	float2 g2[2]; float3 g3[2]; float4 g4[2]; // 0..1
	float2x2 m2[2]; float3x3 m3[2]; float4x3 m43[2]; float4x4 m4[2]; float3x3 rot3;
	int2 i2[3]; int3 i3[3]; int4 i4[3]; uint2 u2[3]; uint3 u3[3]; uint4 u4[3];
	int2 id2; int3 id3; int4 id4; uint2 ud2; uint3 ud3; uint4 ud4; uint2 us2; uint3 us3; uint4 us4;
	float shw[9], band2[5], m25[25];
	uint32 index, face, dim, mip; uint32 ver[2]; uint32 col[2]; float width[2], depth[2], fov, aspect, nearP, farP;
	uint32 flags[2];
};
struct In { const Args& A; const Loose& L; };

struct Out
{
	uint32_t size = 0; uint8_t data[636];
	void raw(const void* p, size_t n)
	{
		rt::Outside o;
		if (size + n > sizeof data) rt::harnessError("result too large");
		memcpy(data + size, p, n); size += (uint32_t)n;
	}
	template<class T> void put(const T& v) { static_assert(std::is_trivially_copyable<T>::value, "plain"); raw(&v, sizeof v); }
	void put(const std::string& s) { size_t n = s.size(); const char* d = s.data(); raw(&n, sizeof n); for (size_t i = 0; i < n; i++) { char ch = d[i]; raw(&ch, 1); } }
	void put(const Ray& r) { put(r.origin); put(r.getDirection()); put(r.getParallel()); }
};
struct Def { const char* name; void (*fn)(const In&, Out&); };

#define D(expr) { #expr, [](const In& I, Out& o) { auto& A = I.A; auto& L = I.L; (void)A; (void)L; o.put(expr); } },
#define S(name, ...) { name, [](const In& I, Out& o) { auto& A = I.A; auto& L = I.L; (void)A; (void)L; __VA_ARGS__ } },

// arithmetic that every float vector form has
#define FLOATS(a, b, c, n) \
	D(a + b) D(a - b) D(a * b) D(a / b) D(a + n) D(a - n) D(a * n) D(a / n) D(n + a) D(n - a) D(n * a) D(n / a) D(-a) \
	D(a == b) D(a != b) D(a < b) D(a > b) D(a <= b) D(a >= b) D(min(a, b)) D(max(a, b)) D(clamp(a, min(b, c), max(b, c))) D(fma(a, b, c)) D(abs(a)) \
	D(sqrt(a)) D(sign(a)) D(signBits(a)) D(round(a)) D(floor(a)) D(ceil(a)) D(trunc(a)) D(repeat(a)) D(mod(a, b)) D(toString(a)) D(isBinaryLess(a, b)) \
	D(lerp(a, b, L.t[0])) D(lerpDelta(a, b, L.t[0], L.pos[0])) D(exp(a)) D(log(a)) D(pow(abs(a), b))
#define PLAINF(a, b, c, k) \
	D(dot(a, b)) D(length(a)) D(lengthSq(a)) D(distance(a, b)) D(distanceSq(a, b)) D(isClose(a, b)) D(normalize(a)) D(isNormalized(a)) \
	D(gain(k, k)) D(min(a, b, c)) D(max(a, b, c)) D(exp2(a)) D(expm1(a)) D(log2(a)) D(log10(a)) D(log1p(k)) D(cbrt(a)) D(sin(a)) D(cos(a)) D(tan(a)) \
	D(asin(k)) D(acos(k)) D(atan(a)) D(sinh(a)) D(cosh(a)) D(tanh(a)) D(asinh(a)) D(atanh(k)) D(radians(a)) D(degrees(a))
#define INTS(a, b, c, d, s, n) \
	D(a + b) D(a - b) D(a * b) D(a / d) D(a % d) D(a & b) D(a | b) D(a ^ b) D(a << s) D(a >> s) D(a + n) D(a - n) D(a * n) D(n + a) D(n * a) \
	D(a == b) D(a != b) D(a < b) D(a > b) D(a <= b) D(a >= b) D(equal(a, b)) D(notEqual(a, b)) D(min(a, b)) D(max(a, b)) D(clamp(a, min(b, c), max(b, c))) \
	D(toString(a)) D(isBinaryLess(a, b)) D(~a)

Aabb boxOf(const In& I, int k = 0) { auto& A = I.A; f32x4 p = A.p[k], e = A.e; return Aabb(p - e, p + e); }
Plane planeOf(const f32x4& v) { return Plane(v, v.getW(), false); }
void planesOf(const In& I, Plane* p) { for (int i = 0; i < 6; i++) p[i] = planeOf(I.A.pl[i]); }
Triangle triOf(const In& I) { return Triangle(I.A.p[0], I.A.p[1], I.A.p[2]); }
quat quatOf(const f32x4& v) { quat q; memcpy(&q, &v, sizeof q); return q; }
Color colorOf(uint32 c) { return Color((uint8)c, (uint8)(c >> 8), (uint8)(c >> 16), (uint8)(c >> 24)); }

const Def defs[] = {
	FLOATS(A.v[0], A.v[1], A.v[2], L.f[0])
	FLOATS(L.f2[0], L.f2[1], L.f2[2], L.f[0])
	FLOATS(L.f3[0], L.f3[1], L.f3[2], L.f[0])
	FLOATS(L.f4[0], L.f4[1], L.f4[2], L.f[0])
	PLAINF(L.f2[0], L.f2[1], L.f2[2], L.g2[0])
	PLAINF(L.f3[0], L.f3[1], L.f3[2], L.g3[0])
	PLAINF(L.f4[0], L.f4[1], L.f4[2], L.g4[0])
	INTS(A.i[0], A.i[1], A.i[2], A.idiv, A.ish, (int32)L.index)
	INTS(A.u[0], A.u[1], A.u[2], A.udiv, A.ush, L.index)
	INTS(L.i2[0], L.i2[1], L.i2[2], L.id2, (int2)L.us2, (int32)L.index)
	INTS(L.i3[0], L.i3[1], L.i3[2], L.id3, (int3)L.us3, (int32)L.index)
	INTS(L.i4[0], L.i4[1], L.i4[2], L.id4, (int4)L.us4, (int32)L.index)
	INTS(L.u2[0], L.u2[1], L.u2[2], L.ud2, L.us2, L.index)
	INTS(L.u3[0], L.u3[1], L.u3[2], L.ud3, L.us3, L.index)
	INTS(L.u4[0], L.u4[1], L.u4[2], L.ud4, L.us4, L.index)
	D(notEqual(L.f3[0], L.f3[1])) D(notEqual(L.f4[0], L.f4[1])) D(-A.i[0]) D(!A.i[0]) D(!A.u[0]) D(-L.i2[0]) D(-L.i3[0]) D(-L.i4[0])
	// SIMD vectors
	D(dot3(A.v[0], A.v[1])) D(dot4(A.v[0], A.v[1])) D(dotV3(A.v[0], A.v[1])) D(dotV4(A.v[0], A.v[1])) D(length3(A.v[0])) D(length4(A.v[0]))
	D(lengthSq3(A.v[0])) D(lengthSq4(A.v[0])) D(distance3(A.v[0], A.v[1])) D(distance4(A.v[0], A.v[1])) D(distanceSq3(A.v[0], A.v[1]))
	D(distanceSq4(A.v[0], A.v[1])) D(normalize3(A.v[0])) D(normalize4(A.v[0])) D(isNormalized3(A.n[0])) D(isNormalized4(A.q[0]))
	D(cross3(A.v[0], A.v[1])) D(min3(A.v[0])) D(min4(A.v[0])) D(max3(A.v[0])) D(max4(A.v[0])) D(fastPow(A.c[0], A.c[1])) D(equal(A.v[0], A.v[1]))
	D(notEqual(A.v[0], A.v[1])) D(select(A.mask, A.v[0], A.v[1])) D(select(A.mask, A.i[0], A.i[1])) D(select(A.mask, A.u[0], A.u[1]))
	D(floatAsInt(A.v[0])) D(floatAsUint(A.v[0])) D(intAsFloat(A.i[0])) D(uintAsFloat(A.u[0])) D(uintAsInt(A.u[0]))
	D(radians(A.v[0])) D(degrees(A.v[0])) D((i32x4)A.v[0]) D((u32x4)abs(A.v[0])) D((u32x4)A.i[0]) D((float2)A.v[0]) D((float3)A.v[0]) D((float4)A.v[0])
	S("sinCos", f32x4 s, c; sinCos(A.v[0], s, c); o.put(s); o.put(c);)
	S("swizzle", o.put(A.v[0].swizzle<SwW, SwX, SwZ, SwY>()); o.put(A.v[0].splatX()); o.put(A.v[0].splatW()); o.put(A.i[0].splatY()); o.put(A.u[0].splatZ());)
	S("set/get", f32x4 x = A.v[0]; x.setX(A.v[1].getW()); x.setY(A.v[1].getZ()); x.setZ(A.v[1].getY()); x.setW(A.v[1].getX()); o.put(x); x.fixW(); o.put(x); o.put(x[2]);)
	S("load/store", f32x4 x((const float*)&L.f4[0]); float b[4]; x.store(b); o.raw(b, 16);)
	S("f32x4 compound", f32x4 x = A.v[0]; x += A.v[1]; x *= A.v[2]; x -= L.f[0]; x /= A.v[3]; x *= L.f[1]; o.put(x);)
	S("i32x4 compound", i32x4 x = A.i[0]; x += A.i[1]; x *= A.i[2]; x ^= A.i[0]; x |= A.i[1]; x &= A.i[2]; x <<= A.ish; x %= A.idiv; o.put(x);)
	S("u32x4 compound", u32x4 x = A.u[0]; x += A.u[1]; x *= A.u[2]; x ^= A.u[0]; x |= A.u[1]; x &= A.u[2]; x >>= A.ush; x %= A.udiv; o.put(x);)
	D(bic(A.i[0], A.i[1])) D(bic(A.u[0], A.u[1])) D(min3(A.i[0])) D(max3(A.i[0])) D(min4(A.i[0])) D(max4(A.i[0])) D(min3(A.u[0])) D(max3(A.u[0])) D(min4(A.u[0])) D(max4(A.u[0]))
	D(areAllTrue(A.mask)) D(areAllFalse(A.mask)) D(areAnyTrue(A.mask)) D(areAnyFalse(A.mask)) D(getTrues(A.mask)) D(calcMipCount3(A.udiv)) D(calcSizeAtMip3(A.u[0], (uint8)L.mip))
	// plain vectors
	D(cross(L.f3[0], L.f3[1])) D(select(L.u3[0], L.f3[0], L.f3[1])) D(select(L.u2[0], L.i2[0], L.i2[1])) D(select(L.u4[0], L.u4[1], L.u4[2]))
	D(areAllTrue(L.u3[0])) D(areAnyTrue(L.u2[0])) D(getTrues(L.u4[0])) D(calcMipCount(L.dim)) D(calcMipCount(L.ud2)) D(calcMipCount(L.ud3))
	D(calcSizeAtMip(L.dim, (uint8)L.mip)) D(calcSizeAtMip(L.ud2, (uint8)L.mip)) D(calcSizeAtMip(L.ud3, (uint8)L.mip))
	D(min(L.i3[0], L.i3[1], L.i3[2])) D(max(L.u4[0], L.u4[1], L.u4[2])) D((int3)L.f3[0]) D((float4)L.i4[0]) D((float3)L.u3[0])
	// common
	D(math::min(L.f[0], L.f[1], L.f[2])) D(math::max(L.f[0], L.f[1], L.f[2])) D(math::sign(L.f[0])) D(math::repeat(L.f[0])) D(math::lerp(L.f[0], L.f[1], L.t[0]))
	D(math::lerpDelta(L.f[0], L.f[1], L.t[0], L.pos[0])) D(math::gain(L.t[0], L.pos[0])) D(radians(L.f[0])) D(degrees(L.f[0]))
	// matrices
	D(L.m2[0] * L.m2[1]) D(L.m3[0] * L.m3[1]) D(L.m4[0] * L.m4[1]) D(L.m2[0] * L.f2[0]) D(L.m3[0] * L.f3[0]) D(L.m4[0] * L.f4[0])
	D(L.f2[0] * L.m2[0]) D(L.f3[0] * L.m3[0]) D(L.f4[0] * L.m4[0]) D(transpose(L.m2[0])) D(transpose(L.m3[0])) D(transpose(L.m4[0]))
	D(inverse(L.m2[0])) D(inverse(L.m3[0])) D(inverse(L.m4[0])) D(L.m43[0] * L.f[0]) D(L.m43[0] + L.f[0]) D(L.m4[0] / L.f[0]) D(L.m3[0] - L.f[0]) D(L.f[0] * L.m2[0])
	D(L.m43[0] == L.m43[1]) D(L.m4[0] == L.m4[0]) D(L.m3[0] != L.m3[1]) D((float3x3)L.m4[0]) D((float4x3)L.m4[0])
	D(f32x4x4(L.m4[0])) D(f32x4x4(L.m3[0])) D(f32x4x4(L.m43[0])) D((float4x4)A.m[0]) D((float3x3)A.m[0]) D((float4x3)A.m[0]) D((float2x2)A.m[0])
	D(A.m[0] * A.m[1]) D(A.m[0] * A.v[0]) D(A.m[0] * L.f[0]) D(A.m[0] + L.f[0]) D(A.m[0] - L.f[0]) D(A.m[0] / L.f[0]) D(A.m[0] == A.m[1]) D(A.m[0] != A.m[1])
	D(inverse4x4(A.m[0])) D(transpose4x4(A.m[0])) D(transpose3x3(A.m[0])) D(multiply3x3(A.m[0], A.v[0])) D(multiply3x3(A.m[0], A.m[1])) D(isBinaryLess(A.m[0], A.m[1]))
	// transforms
	D(getTranslation(A.m[0])) S("setTranslation", f32x4x4 m = A.m[0]; setTranslation(m, A.v[0]); o.put(m);)
	D(translate(A.v[0])) D(translate(A.m[0], A.v[0])) D(translate(A.v[0], A.m[0])) D(scale(A.v[0])) D(scale(A.m[0], A.v[0])) D(scale(A.v[0], A.m[0]))
	D(extractScale(A.r)) D(extractScale2(A.r)) D(rotate(quatOf(A.q[0]))) D(rotate(A.p[0], A.p[1], A.n[0])) D(rotate(A.n[0]))
	D(extractRotation(A.r)) D(extractRotationOnly(A.r)) D(extractQuat(A.r)) D(calcModel(A.p[0], quatOf(A.q[0]), A.e)) D(calcModel()) D(lookAt(A.p[0], A.p[1])) D(lookAt(A.p[0], A.p[1], A.n[1]))
	D(lookAtQuat(A.n[0])) D(lookAtQuat(A.n[0], A.n[1])) D(inverseTransRot(A.r))
	S("extractTransform", f32x4 p, s; quat q; extractTransform(A.r, p, q, s); o.put(p); o.put(q); o.put(s);)
	S("extractTransform2", f32x4 p; quat q; extractTransform(A.r, p, q); o.put(p); o.put(q);)
	D(calcPerspProjInfRevZ(L.fov, L.aspect, L.nearP)) D(calcPerspProjRevZ(L.fov, L.aspect, L.nearP, L.farP)) D(calcPerspProj(L.fov, L.aspect, L.nearP, L.farP))
	D(calcOrthoProjRevZ(float2(-L.width[0], L.width[1]), float2(-L.width[1], L.width[0]), float2(L.nearP, L.farP)))
	D(calcOrthoProj(float2(-L.width[0], L.width[1]), float2(-L.width[1], L.width[0]), float2(L.nearP, L.farP)))
	// quaternions
	D(quatOf(A.q[0]) * quatOf(A.q[1])) D(quatOf(A.q[0]) * A.v[0]) D(A.v[0] * quatOf(A.q[0])) D(slerp(quatOf(A.q[0]), quatOf(A.q[1]), L.t[0])) D(conjugate(quatOf(A.q[0])))
	D(inverse(quatOf(A.q[0]))) D(normalize(quatOf(A.v[0]))) D(fromEulerAngles(A.v[0])) D(quat(L.f[0], A.n[0])) D(quatOf(A.q[0]).extractEulerAngles())
	D(quatOf(A.q[0]).extractPitch()) D(quatOf(A.q[0]).extractYaw()) D(quatOf(A.q[0]).extractRoll())
	S("quat *=", quat q = quatOf(A.q[0]); q *= quatOf(A.q[1]); o.put(q); q = conjugate(q); o.put(q);)
	// boxes
	S("Aabb get", Aabb b = boxOf(I); o.put(b.getMin()); o.put(b.getMax()); o.put(b.getSize()); o.put(b.getExtent()); o.put(b.getPosition()); f32x4 x, y; b.getExtent(x, y); o.put(x); o.put(y);)
	S("Aabb set", Aabb b = boxOf(I); b.setSize(A.e); o.put(b); b.setSize(A.e, A.p[1]); o.put(b); b.setExtent(A.e); o.put(b); b.setExtent(A.e, A.p[2]); o.put(b); o.put(b.trySet(A.p[0], A.p[1])); o.put(b);)
	S("Aabb extend", Aabb b = boxOf(I); b.extend(A.v[0]); o.put(b); b.extend(boxOf(I, 1)); o.put(b); b.shrink(A.p[0]); o.put(b); b.shrink(boxOf(I)); o.put(b);)
	S("Aabb move", Aabb b = boxOf(I); b.translate(A.v[0]); o.put(b); b.scale(A.e); o.put(b); o.put(b.calcArea()); o.put(b.calcVolume());)
	D(boxOf(I) * A.e) D(boxOf(I) / A.e) D(boxOf(I) + A.v[0]) D(boxOf(I) - A.v[0]) D(boxOf(I) == boxOf(I, 1)) D(isBinaryLess(boxOf(I), boxOf(I, 1)))
	D(isInside(boxOf(I), A.v[0])) D(isInside(boxOf(I), boxOf(I, 1))) D(closestPoint(boxOf(I), A.v[0])) D(raycast2I(boxOf(I), Ray(A.v[0], A.n[0]))) D(raycast2(boxOf(I), Ray(A.v[0], A.n[0])))
	D(raycast1I(boxOf(I), Ray(A.v[0], A.n[0]))) D(raycast1(boxOf(I), Ray(A.v[0], A.n[0]))) D(raycast(boxOf(I), Ray(A.v[0], A.n[0]))) D(raycastI(boxOf(I), Ray(A.v[0], A.n[0])))
	D(isIntersected(boxOf(I), boxOf(I, 1))) D(isAabbIntersected(A.p[0], A.e, triOf(I))) D(isAabbIntersected(A.v[0], A.e, triOf(I)))
	S("isBehindFrustum", Plane p[6]; planesOf(I, p); o.put(isBehindFrustum(p, 6, boxOf(I))); o.put(isBehindFrustum(p, 6, boxOf(I, 1), A.r)); o.put(isBehindFrustum(p, 3, boxOf(I, 2)));)
	// planes, spheres, rays, triangles, lines
	D(Plane(A.v[0], L.f[0])) D(Plane(triOf(I))) D(math::distance3(planeOf(A.pl[0]), A.v[0])) D(closestPoint(planeOf(A.pl[0]), A.v[0])) D(closestPoint(triOf(I), A.v[0]))
	S("Plane set", Plane p(A.n[0], L.f[0], false); p.setNormal(A.v[0]); o.put(p); p.setDistance(L.f[1]); o.put(p); p.normalize(); o.put(p); o.put(p == planeOf(A.pl[0]));)
	S("extractFrustumPlanes", Plane p[6]; extractFrustumPlanes(A.proj * A.r, p); for (auto& x : p) o.put(x); normalizePlanes(p, 6); for (auto& x : p) o.put(x);)
	D(isInside(Sphere(L.pos[0], A.p[0]), A.v[0])) D(closestPoint(Sphere(L.pos[0], A.p[0]), A.v[0])) D(isIntersected(Sphere(L.pos[0], A.p[0]), Sphere(L.pos[1], A.p[1]))) D(isIntersected(Sphere(L.pos[0], A.p[0]), boxOf(I, 1)))
	S("Sphere set", Sphere s; s.setRadius(L.pos[1]); s.setPosition(A.p[1]); o.put(s); o.put(s.getRadius()); o.put(s.getPosition());)
	D(Ray(A.p[0], A.v[0])) D(Ray(A.p[0], A.n[0], false) + A.v[1]) D(closestPoint(Ray(A.p[0], A.v[0]), A.v[1]))
	S("Ray set", Ray r(A.p[0], A.n[0]); r.setDirection(A.v[0]); o.put(r); r *= A.e; o.put(r); r.normalize(); o.put(r);)
	D(triOf(I) * A.v[0]) D(triOf(I) + A.v[0]) D(isInside(triOf(I), A.v[0])) D(calcBarycentric(triOf(I), A.v[0])) D(triOf(I) == triOf(I))
	D(Line(A.p[0], A.p[1]).getDirection()) D(closestPoint(Line(A.p[0], A.p[1]), A.v[0])) D(Line(A.p[0], A.p[1]) * A.v[0])
	S("closestPoint line t", float t; o.put(closestPoint(Line(A.p[0], A.p[1]), A.v[0], t)); o.put(t);)
	// colours
	D(rgbToSrgb(A.c[0])) D(srgbToRgb(A.c[0])) D(rgbToXyz(A.c[0])) D(xyzToRgb(A.c[0])) D(xyzToYxy(A.c[0])) D(yxyToXyz(A.c[0])) D(rgbToYxy(A.c[0])) D(yxyToRgb(A.c[0]))
	D(fastGammaCorrection(A.c[0])) D(fastGammaCorrection(A.c[0], L.pos[0])) D(Color(A.c[0])) D(Color((float4)A.c[0])) D(Color((float3)A.c[0])) D(colorOf(L.col[0]).toLinear()) D(Color::fromLinear(A.c[0]))
	D((f32x4)colorOf(L.col[0])) D((float4)colorOf(L.col[0])) D(colorOf(L.col[0]).toString4()) D(colorOf(L.col[0]).toString3()) D(colorOf(L.col[0]).toHex4()) D(colorOf(L.col[0]).toHex3())
	D(colorOf(L.col[0]) < colorOf(L.col[1])) D(isBinaryLess(colorOf(L.col[0]), colorOf(L.col[1]))) D((uint32)colorOf(L.col[0])) D(Color(colorOf(L.col[0]).toHex4()))
	S("Color norm", Color c = colorOf(L.col[0]); c.setNormR(L.t[0]); c.setNormG(L.f[0]); c.setNormB(L.t[1]); c.setNormA(L.f[1]); o.put(c); o.put(c.getNormB());)
	// lighting
	D(ibl::coordsToST(L.ud2, L.t[0])) D(ibl::stToDir(L.f2[0], L.face)) D(ibl::coordsToDir(uint3(L.ud2, L.face), L.t[0])) D(brdf::ggx(L.t[0], L.t[1])) D(brdf::hammersley(L.index, L.t[0]))
	D(brdf::importanceSamplingNdfDggx(L.g2[0], L.t[0])) D(brdf::iorToReflectance(1.0f + L.t[0])) D(sh::shIndex((int32)L.face, (int32)L.mip)) D(sh::sphereQuadrantArea(L.f[0], L.f[1])) D(sh::calcSolidAngle(L.f2[0], L.t[0]))
	S("computeShBasis", float b[9]; sh::computeShBasis(L.f3[0], b); o.raw(b, sizeof b);) S("projectVecToSH2K", float b[5]; sh::projectVecToSH2K(L.f3[0], b); o.raw(b, sizeof b);)
	S("sh::multiply", float b[5]; sh::multiply(L.m25, L.band2, b); o.raw(b, sizeof b);) D(sh::rotateSphericalHarmonicBand1(L.f3[0], L.rot3))
	S("rotateBand2", float b[5]; sh::rotateSphericalHarmonicBand2(L.band2, L.rot3, b); o.raw(b, sizeof b);) S("rotateSh3Bands", float b[9]; sh::rotateSh3Bands(L.shw, L.rot3, b); o.raw(b, sizeof b);)
	D(sh::sincWindow((int32)(L.mip % 4), L.pos[0])) S("windowing", float b[9]; memcpy(b, L.shw, sizeof b); sh::windowing(b, 3.0f + L.pos[0]); o.raw(b, sizeof b);)
	S("shmin", float b[9]; memcpy(b, L.shw, sizeof b); o.put(sh::shmin(b)); o.raw(b, sizeof b);)
	S("deringingSH", f32x4 b[9]; for (int i = 0; i < 9; i++) b[i] = A.sh[i]; sh::deringingSH(b); for (auto& x : b) o.put(x);)
	S("shaderPreprocessSH", f32x4 b[9]; for (int i = 0; i < 9; i++) b[i] = A.sh[i]; sh::shaderPreprocessSH(b); for (auto& x : b) o.put(x);)
	// versions, flags, hexadecimal text
	D(Version(L.ver[0]).toString4()) D(Version(L.ver[0]).toString3()) D(Version(L.ver[0]).toString2()) D(Version(L.ver[0]).toString1()) D((uint32)Version(L.ver[0])) D(Version(L.ver[0]) < Version(L.ver[1])) D(Version(L.ver[0]) == Version(L.ver[1])) D(Version(L.ver[0])[L.mip & 3])
	D((Bits)L.flags[0] | (Bits)L.flags[1]) D((Bits)L.flags[0] & (Bits)L.flags[1]) D(hasAnyFlag((Bits)L.flags[0], (Bits)L.flags[1])) D(hasOneFlag((Bits)L.flags[0], (Bits)L.flags[1]))
	D(toHex(L.index)) D(toHex((uint8)L.index)) D(toHex((uint64)L.index << 20)) D(toHex(L.index, 3)) D(toInt32(toHex(L.ver[0]))) D(toInt64(toHex(L.ver[1])))
	// static constants
	S("constants", o.put(f32x4::one); o.put(f32x4::top); o.put(quat::identity); o.put(f32x4x4::identity); o.put(Aabb::inf); o.put(Plane::front); o.put(Sphere::half); o.put(Ray::top); o.put(Color::cyan); o.put(float4x4::identity); o.put(float3::one);)
};
constexpr int DEFS = sizeof(defs) / sizeof(defs[0]);

//---------------------------------------------------------------------------------------------------------------------
// Seeded argument values
struct Gen
{
	sim::Rng r; int style;
	float general()
	{
		switch (r.below(style == 0 ? 4 : 9))
		{
		case 0: case 1: case 2: case 3: return (float)r.real(-4, 4);
		case 4: return (float)r.range(-3, 3);
		case 5: return (float)(r.real(-1, 1) * std::ldexp(1.0, (int)r.range(-30, 30)));
		case 6: return r.chance(0.5) ? 0.0f : -0.0f;
		case 7: return (float)r.range(-8, 8) * 0.25f;
		default: return (float)r.real(-400, 400);
		}
	}
	float unit() { return r.chance(0.1) ? (r.chance(0.5) ? 0.0f : 1.0f) : (float)r.real(0.001, 0.999); }
	void put(void* p, int i, float v) { memcpy((char*)p + 4 * i, &v, 4); }
	void puti(void* p, int i, uint32_t v) { memcpy((char*)p + 4 * i, &v, 4); }
	void generals(void* p, int n) { for (int i = 0; i < n; i++) put(p, i, general()); }
	void units(void* p, int n) { for (int i = 0; i < n; i++) put(p, i, unit()); }
	void ints(void* p, int n) { for (int i = 0; i < n; i++) puti(p, i, r.chance(0.5) ? (uint32_t)r.range(-20, 20) : (uint32_t)r.next() >> r.below(32)); }
	void divs(void* p, int n) { for (int i = 0; i < n; i++) puti(p, i, 1 + (uint32_t)r.logUniform(4000)); }
	void shifts(void* p, int n) { for (int i = 0; i < n; i++) puti(p, i, (uint32_t)r.below(31)); }
	void unitVec(double* d, int n) { double l; do { l = 0; for (int i = 0; i < n; i++) { d[i] = r.real(-1, 1); l += d[i] * d[i]; } } while (l < 0.05); l = std::sqrt(l); for (int i = 0; i < n; i++) d[i] /= l; }
	void normal(void* p, float w) { double d[3]; unitVec(d, 3); for (int i = 0; i < 3; i++) put(p, i, (float)d[i]); put(p, 3, w); }
	void quatv(void* p) { double d[4]; unitVec(d, 4); for (int i = 0; i < 4; i++) put(p, i, (float)d[i]); }
	void matrix(void* p, int cols, int rows, int stride) { for (int c = 0; c < cols; c++) for (int w = 0; w < rows; w++) put(p, c * stride + w, (float)(r.real(-1, 1) + (c == w ? 3 : 0))); }
	void rot(double m[3][3])
	{
		double q[4]; unitVec(q, 4); double x = q[0], y = q[1], z = q[2], w = q[3];
		double t[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y)}, {2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)}, {2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)}};
		memcpy(m, t, sizeof t);
	}
};
void fillArgs(Gen& g, Args* A, Loose* L)
{
	memset((void*)A, 0, sizeof *A); memset((void*)L, 0, sizeof *L);
	g.generals(A->v, 16); g.units(A->c, 8); for (auto& x : A->n) g.normal(&x, 0); for (auto& x : A->q) g.quatv(&x);
	for (auto& x : A->p) for (int i = 0; i < 4; i++) g.put(&x, i, (float)g.r.real(-5, 5));
	for (int i = 0; i < 4; i++) g.put(&A->e, i, (float)g.r.real(0.1, 3));
	for (auto& x : A->m) g.matrix(&x, 4, 4, 4);
	double m[3][3]; g.rot(m); for (int c = 0; c < 3; c++) for (int i = 0; i < 3; i++) g.put(&A->r, c * 4 + i, (float)m[c][i]);
	for (int i = 0; i < 3; i++) g.put(&A->r, 12 + i, (float)g.r.real(-9, 9)); g.put(&A->r, 15, 1);
	g.put(&A->proj, 0, (float)g.r.real(0.5, 2)); g.put(&A->proj, 5, (float)g.r.real(0.5, 2)); g.put(&A->proj, 10, (float)g.r.real(0.1, 1.1)); g.put(&A->proj, 11, 1); g.put(&A->proj, 14, (float)g.r.real(0.1, 1));
	for (auto& x : A->pl) g.normal(&x, (float)g.r.real(-3, 6));
	for (int i = 0; i < 9; i++) for (int c = 0; c < 4; c++) g.put(&A->sh[i], c, i ? (float)g.r.real(-0.08, 0.08) : (float)g.r.real(1, 3));
	g.ints(A->i, 12); g.ints(A->u, 12); g.divs(&A->idiv, 4); g.divs(&A->udiv, 4); g.shifts(&A->ish, 4); g.shifts(&A->ush, 4);
	for (int i = 0; i < 4; i++) g.puti(&A->mask, i, g.r.chance(0.5) ? 0xFFFFFFFFu : 0);
	g.generals(L->f, 6); g.units(L->t, 2); for (int i = 0; i < 2; i++) { g.put(L->pos, i, (float)g.r.real(0.05, 3)); g.put(L->big, i, (float)g.r.real(-1e6, 1e6)); }
	g.generals(L->f2, 6); g.generals(L->f3, 9); g.generals(L->f4, 12); g.units(L->g2, 4); g.units(L->g3, 6); g.units(L->g4, 8);
	for (int k = 0; k < 2; k++) { g.matrix(&L->m2[k], 2, 2, 2); g.matrix(&L->m3[k], 3, 3, 3); g.matrix(&L->m43[k], 4, 3, 3); g.matrix(&L->m4[k], 4, 4, 4); }
	g.rot(m); for (int c = 0; c < 3; c++) for (int i = 0; i < 3; i++) g.put(&L->rot3, c * 3 + i, (float)m[c][i]);
	g.ints(L->i2, 6); g.ints(L->i3, 9); g.ints(L->i4, 12); g.ints(L->u2, 6); g.ints(L->u3, 9); g.ints(L->u4, 12);
	g.divs(&L->id2, 2); g.divs(&L->id3, 3); g.divs(&L->id4, 4); g.divs(&L->ud2, 2); g.divs(&L->ud3, 3); g.divs(&L->ud4, 4);
	g.shifts(&L->us2, 2); g.shifts(&L->us3, 3); g.shifts(&L->us4, 4);
	for (int i = 0; i < 9; i++) g.put(L->shw, i, i ? (float)g.r.real(-0.08, 0.08) : (float)g.r.real(1, 3));
	g.generals(L->band2, 5); g.generals(L->m25, 25);
	L->index = (uint32)g.r.next() >> g.r.below(32); L->face = (uint32)g.r.below(6); L->dim = 1 + (uint32)g.r.logUniform(8192); L->mip = (uint32)g.r.below(8);
	for (auto& x : L->ver) x = (uint32)g.r.next(); for (auto& x : L->col) x = (uint32)g.r.next(); for (auto& x : L->flags) x = (uint32)g.r.below(16);
	for (int i = 0; i < 2; i++) L->width[i] = (float)g.r.real(0.5, 20);
	L->fov = (float)g.r.real(0.3, 2.5); L->aspect = (float)g.r.real(0.4, 2.5); L->nearP = (float)g.r.real(0.01, 1); L->farP = L->nearP + (float)g.r.real(1, 1000);
}

// Copy of an argument set in which every number moved by a relative 10^-near, within the ranges the functions ask for
void nearly(Gen& g, Args* A, Loose* L, const Args* A0, const Loose* L0, int near)
{
	memcpy((void*)A, (void*)A0, sizeof *A); memcpy((void*)L, (void*)L0, sizeof *L);
	double size = std::pow(10.0, -near), part = g.r.chance(0.5) ? 1.0 : 0.3;
	auto move = [&](void* p, int n, float top = INFINITY)
	{
		for (int i = 0; i < n; i++)
		{
			float x; memcpy(&x, (char*)p + 4 * i, 4);
			if (!g.r.chance(part)) continue;
			x = (float)((double)x * (1 + g.r.real(-size, size)));
			if (x > top) x = top;
			memcpy((char*)p + 4 * i, &x, 4);
		}
	};
	auto unit = [&](void* p, int n) { float x[4]; move(p, n); memcpy(x, p, 16); double l = 0; for (int i = 0; i < n; i++) l += (double)x[i] * x[i]; l = std::sqrt(l); for (int i = 0; i < n; i++) g.put(p, i, (float)(x[i] / l)); };
	move(A->v, 16); move(A->c, 8, 1); for (auto& x : A->n) unit(&x, 3); for (auto& x : A->q) unit(&x, 4);
	move(A->p, 12); move(&A->e, 4); move(A->m, 32); move((float*)&A->r + 12, 3); for (auto& x : A->pl) unit(&x, 3); move(A->sh, 36);
	move(L->f, 6); move(L->t, 2, 1); move(L->pos, 2); move(L->big, 2); move(L->f2, 6); move(L->f3, 9); move(L->f4, 12);
	move(L->g2, 4, 1); move(L->g3, 6, 1); move(L->g4, 8, 1); move(L->m2, 8); move(L->m3, 18); move(L->m43, 24); move(L->m4, 32);
	move(L->shw, 9); move(L->band2, 5); move(L->m25, 25); move(L->width, 2); move(&L->fov, 1); move(&L->aspect, 1);
	if (g.r.chance(0.3)) { g.puti(A->i, 0, (uint32_t)g.r.range(-20, 20)); L->index++; L->col[0] ^= 1u << g.r.below(32); L->ver[0] ^= 1u << g.r.below(32); }
}

//---------------------------------------------------------------------------------------------------------------------
enum { VARIANTS = 3 };
const Args* args_[VARIANTS]; const Loose* loose_[VARIANTS];
struct Ref { Out out; };
Ref* refs; // shared with the reference processes
const sim::Plan* plan_;
std::vector<int> phase_; // indices of the operations of the current parallel phase

void call(const sim::Op& op, Out& out)
{
	const Def& d = defs[(uint64_t)op.kind % DEFS];
	int v = (int)((uint64_t)op.a[0] % VARIANTS);
	In in{*args_[v], *loose_[v]};
	callSut(&op, [&] { d.fn(in, out); });
}
void reference(void* ctx)
{
	int i = *(int*)ctx; Out out;
	sim::Op op = plan_->ops[i]; op.fmode = 0; op.pre.clear();
	call(op, out);
	memcpy((void*)&refs[i].out, &out, sizeof out);
}
void checked(int i)
{
	const sim::Op& op = plan_->ops[i];
	rt::setOpIndex(i);
	Out out; call(op, out);
	rt::recordBytes(out.data, out.size);
	rt::count(rt::M_CHECKS);
	const Out& ref = refs[i].out;
	if (out.size != ref.size || memcmp(out.data, ref.data, out.size))
	{
		size_t k = 0; while (k < out.size && k < ref.size && out.data[k] == ref.data[k]) k++;
		rt::violate("result-differs", "%s gives another result than the same call alone in a fresh process (first difference at byte %zu of %u; %s)",
			defs[(uint64_t)op.kind % DEFS].name, k, ref.size, op.lane ? "called next to other threads" : "called after earlier calls");
	}
	rt::nontrivial();
}
void lane(void*, int l)
{
	for (int i : phase_) if (plan_->ops[i].lane == l + 1) checked(i);
}
enum { P_SAME = rt::P_FIRST, P_ALIGN, P_MULTI };

void exec(const sim::Plan& plan)
{
	plan_ = &plan;
	Gen g{sim::Rng(plan.seed ^ 0xA5A5), (int)plan.knob("style")};
	for (int v = 0; v < VARIANTS; v++)
	{
		Args* A = (Args*)rt::bufAlloc(sizeof(Args), 64);
		Loose* L = (Loose*)rt::bufAlloc(sizeof(Loose), 16, 4 * (plan.knob("align") & 3));
		fillArgs(g, A, L);
		if (v) // keep parts of the first argument set: same values in some arguments, different ones in others
		{
			double keep = (double)plan.knob("keep") / 100;
			for (size_t i = 0; i < sizeof(Args); i += 16) if (g.r.chance(keep)) memcpy((char*)A + i, (char*)args_[0] + i, g.r.chance(0.5) ? 16 : 4 + 4 * g.r.below(3));
			for (size_t i = 0; i < sizeof(Loose); i += 4) if (g.r.chance(keep)) memcpy((char*)L + i, (char*)loose_[0] + i, 4);
			L->face %= 6; L->aspect = std::fabs(L->aspect);
			// or the first argument set again, moved by next to nothing: results remembered "for the same arguments" must not be reused
			if (int64_t near = plan.knob("near")) if (v == 1 || g.r.chance(0.5)) nearly(g, A, L, args_[0], loose_[0], (int)near);
		}
		args_[v] = A; loose_[v] = L;
	}
	for (int v = 0; v < VARIANTS; v++) { rt::protectConst(args_[v], true); rt::protectConst(loose_[v], true); }
	if (plan.knob("align") & 3) rt::count(P_ALIGN);
	refs = (Ref*)mmap(nullptr, sizeof(Ref) * (plan.ops.size() + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (refs == MAP_FAILED) rt::harnessError("mmap failed");
	for (int i = 0; i < (int)plan.ops.size(); i++)
	{
		const sim::Op& a = plan.ops[i]; bool done = false;
		for (int j = 0; j < i && !done; j++)
		{
			const sim::Op& b = plan.ops[j];
			if ((uint64_t)a.kind % DEFS == (uint64_t)b.kind % DEFS && (uint64_t)a.a[0] % VARIANTS == (uint64_t)b.a[0] % VARIANTS && a.fpu == b.fpu)
				{ memcpy((void*)&refs[i], (void*)&refs[j], sizeof(Ref)); done = true; }
		}
		if (!done) { rt::setOpIndex(i); rt::isolate(reference, &i); }
	}
	int n = (int)plan.ops.size();
	for (int i = 0; i < n; )
	{
		if (!plan.ops[i].lane) { checked(i++); continue; }
		phase_.clear(); int lanes = 0; bool same = false;
		for (; i < n && plan.ops[i].lane; i++)
		{
			for (int j : phase_) if (plan.ops[j].lane != plan.ops[i].lane && plan.ops[j].kind == plan.ops[i].kind) same = true;
			phase_.push_back(i); if (plan.ops[i].lane > lanes) lanes = plan.ops[i].lane;
		}
		if (same) rt::count(P_SAME);
		if (lanes > 2) rt::count(P_MULTI);
		rt::runParallel(lanes, lane, nullptr);
	}
	uint64_t fns = 0; for (auto& o : plan.ops) fns ^= ((uint64_t)o.kind % DEFS + 1) * 0x9E3779B97F4A7C15ull + o.lane;
	rt::recordState(fns);
	for (int v = 0; v < VARIANTS; v++) { rt::protectConst(args_[v], false); rt::protectConst(loose_[v], false); rt::bufFree((void*)args_[v]); rt::bufFree((void*)loose_[v]); }
	if (rt::liveBytes()) rt::violate("leak", "%llu bytes in %llu blocks are still allocated", (unsigned long long)rt::liveBytes(), (unsigned long long)rt::liveBlocks());
}

void gen(sim::Plan& p, sim::Rng& r)
{
	p.knobs["style"] = r.chance(0.5); p.knobs["keep"] = (int64_t)(r.chance(0.3) ? 95 : r.below(90)); p.knobs["align"] = r.chance(0.5) ? 0 : (int64_t)r.below(4);
	p.knobs["near"] = r.chance(0.5) ? (int64_t)r.range(3, 7) : 0;
	p.knobs["heap_reuse"] = r.chance(0.5); p.knobs["heap_skew"] = r.chance(0.5); p.knobs["heap_garbage"] = (int64_t)(r.next() >> 1);
	int focus = 1 + (int)r.below(4), pool[4]; for (int& x : pool) x = (int)r.below(DEFS);
	bool fpu = r.chance(0.15);
	auto make = [&](int lane)
	{
		sim::Op op; op.lane = lane; op.kind = r.chance(0.85) ? pool[r.below(focus)] : (int)r.below(DEFS); op.a[0] = (int64_t)r.below(VARIANTS); op.seed = 0;
		if (fpu && r.chance(0.4)) op.fpu = 1 + (int)r.below(5);
		if (lane && r.chance(0.7))
		{
			int n = 1 + (int)r.below(4); std::vector<uint32_t> s; uint64_t span = r.chance(0.7) ? 40 : 600;
			for (int i = 0; i < n; i++) s.push_back(1 + (uint32_t)r.logUniform(span));
			std::sort(s.begin(), s.end());
			for (uint32_t x : s) op.pre.push_back({x, (uint8_t)r.below(8), (uint8_t)r.chance(0.2)});
		}
		p.ops.push_back(op);
	};
	if (r.chance(0.3)) { int n = 1 + (int)r.below(3); for (int i = 0; i < n; i++) make(0); }
	if (!r.chance(0.2))
	{
		int lanes = 2 + (int)r.below(4), per = 1 + (int)r.below(3);
		for (int k = 0; k < per; k++) for (int l = 1; l <= lanes; l++) if (p.ops.size() < 14 && (l <= 2 || r.chance(0.8))) make(l);
	}
	else { int n = 2 + (int)r.below(8); if (r.chance(0.5)) focus = 1; for (int i = 0; i < n; i++) make(0); }
	if (r.chance(0.3)) { int n = 1 + (int)r.below(3); for (int i = 0; i < n; i++) make(0); }
}
const char* opName(int k) { return defs[(unsigned)k % DEFS].name; }
}

const sim::Scenario sim::scenario = {"values", gen, exec, opName, {"same_function_on_two_threads", "plain_types_not_16_aligned", "three_or_more_threads"}, 20, {"arguments"}};
