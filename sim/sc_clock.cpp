// Scenario "clock" (C08, C12): an application loop under a simulated frame clock. The plan decides how a span of time is split into frames
// (steady, jittered, stalled, bursts of tiny frames, zero-length frames) and in which floating-point mode each frame runs. Every frame
// updates values with the real library; after every frame they are compared with the closed form for the elapsed time in double precision.
#include "common.h"
#include "math/vector.hpp"
#include "math/matrix.hpp"
#include "math/quaternion.hpp"
#include "math/common.hpp"
#include "math/matrix/transform.hpp"

using namespace math;

namespace
{
enum { FRAME, RETARGET };
enum { STEADY, JITTER, STALL, BURST, ZERO };
enum { P_ZERO_F = rt::P_FIRST, P_ONE_F, P_REACHED, P_FLIP, P_HALF_TURN, P_LONG, P_BIG_ANGLE, P_MODE_CHANGE, P_EULER, P_POLE };

const double EPS = 5.9604644775390625e-8; // half an ulp of 1
float dtOf(const sim::Op& op) { return (float)((double)op.a[0] * 1e-9); }

//---------------------------------------------------------------------------------------------------------------------
// C08
struct Smooth { float v[14], b[14]; double ref[14]; float f; double mag; int frames; };
const char* formOf(int i) { return i < 1 ? "float" : i < 3 ? "float2" : i < 6 ? "float3" : i < 10 ? "float4" : "f32x4"; }

void smoothFrame(const sim::Op& op, float* v, const float* b, float f, float dt)
{
	callSut(&op, [&] {
		v[0] = lerpDelta(v[0], b[0], f, dt);
		float2 r2 = lerpDelta(float2(v[1], v[2]), float2(b[1], b[2]), f, dt); v[1] = r2.x; v[2] = r2.y;
		float3 r3 = lerpDelta(float3(v[3], v[4], v[5]), float3(b[3], b[4], b[5]), f, dt); v[3] = r3.x; v[4] = r3.y; v[5] = r3.z;
		float4 r4 = lerpDelta(float4(v[6], v[7], v[8], v[9]), float4(b[6], b[7], b[8], b[9]), f, dt); v[6] = r4.x; v[7] = r4.y; v[8] = r4.z; v[9] = r4.w;
		f32x4 rs = lerpDelta(f32x4(v[10], v[11], v[12], v[13]), f32x4(b[10], b[11], b[12], b[13]), f, dt);
		v[10] = rs.getX(); v[11] = rs.getY(); v[12] = rs.getZ(); v[13] = rs.getW();
	});
}
float value(sim::Rng& r)
{
	switch (r.below(8))
	{
	case 0: return 0.0f;
	case 1: return (float)r.range(-10, 10);
	case 2: return (float)r.real(-1e6, 1e6);
	case 3: return (float)(r.real(-1, 1) * 1e-3);
	case 4: return (float)(r.real(-1, 1) * std::ldexp(1.0, (int)r.range(-20, 30)));
	default: return (float)r.real(-100, 100);
	}
}
float factor(sim::Rng& r)
{
	switch (r.below(10))
	{
	case 0: return 0.0f;
	case 1: return 1.0f;
	case 2: return (float)std::ldexp(1.0, -(int)r.range(1, 40));
	case 3: return 1.0f - (float)std::ldexp(1.0, -(int)r.range(2, 20));
	default: return (float)r.real(0.001, 0.999);
	}
}
void retarget(Smooth& s, uint64_t seed, bool first)
{
	sim::Rng r(seed);
	bool same = r.chance(0.2); // every form the same numbers
	for (int i = 0; i < 14; i++)
	{
		s.b[i] = r.chance(0.05) ? s.v[i] : value(r);
		if (first) { s.v[i] = value(r); s.ref[i] = s.v[i]; }
	}
	if (same) { static const int comp[14] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 6, 7, 8, 9}; for (int i = 0; i < 14; i++) { s.b[i] = s.b[comp[i]]; if (first) { s.v[i] = s.v[comp[i]]; s.ref[i] = s.v[i]; } } }
	s.f = factor(r);
	if (s.f == 0) rt::count(P_ZERO_F);
	if (s.f == 1) rt::count(P_ONE_F);
}
void execSmooth(const sim::Plan& plan)
{
	Smooth s; s.frames = 0;
	memset(s.v, 0, sizeof s.v);
	retarget(s, plan.seed, true);
	double mag[14]; for (int i = 0; i < 14; i++) mag[i] = std::max(std::fabs(s.v[i]), std::fabs(s.b[i]));
	double tol[14] = {}; // rounding the frames so far may have added up to
	int mode = 0;
	for (int k = 0; k < (int)plan.ops.size(); k++)
	{
		const sim::Op& op = plan.ops[k];
		rt::setOpIndex(k);
		if (op.kind == RETARGET) { retarget(s, op.seed, false); for (int i = 0; i < 14; i++) mag[i] = std::max(mag[i], (double)std::fabs(s.b[i])); continue; }
		float dt = dtOf(op), before[14]; memcpy(before, s.v, sizeof before);
		rt::simTime((uint64_t)op.a[0]);
		static const int ctr[] = {0, rt::F_CLOCK_JITTER, rt::F_CLOCK_STALL, rt::F_CLOCK_BURST, rt::F_CLOCK_ZERO};
		if (op.a[1] > 0 && op.a[1] < 5) rt::count(ctr[op.a[1]]);
		if (op.fpu != mode) { rt::count(P_MODE_CHANGE); mode = op.fpu; }
		smoothFrame(op, s.v, s.b, s.f, dt);
		rt::recordBytes(s.v, sizeof s.v);
		double decay = dt == 0 ? 1.0 : std::pow((double)s.f, (double)dt);
		s.frames++;
		for (int i = 0; i < 14; i++)
		{
			rt::count(rt::M_CHECKS);
			if (dt == 0 && !(s.v[i] == before[i])) // zero frame
				rt::violate("zero-frame", "%s lerpDelta changed a value in a zero-length frame: %.9g became %.9g (target %.9g, factor %.9g)", formOf(i), before[i], s.v[i], s.b[i], s.f);
			s.ref[i] = s.b[i] + (s.ref[i] - s.b[i]) * decay;
			tol[i] = tol[i] * decay + 16 * EPS * mag[i] + 1e-36;
			if (!(std::fabs(s.v[i] - s.ref[i]) <= tol[i]))
				rt::violate("frame-rate-dependent", "%s lerpDelta reached %.9g after %d frames, the closed form for the elapsed time is %.9g (allowed rounding %.3g; last frame %.9g s from %.9g towards %.9g, factor %.9g)",
					formOf(i), s.v[i], s.frames, s.ref[i], tol[i], dt, before[i], s.b[i], s.f);
			double lo = std::min(before[i], s.b[i]), hi = std::max(before[i], s.b[i]), slack = 4 * EPS * std::max(std::fabs(lo), std::fabs(hi)) + 1e-37;
			if (!(s.v[i] >= lo - slack && s.v[i] <= hi + slack))
				rt::violate("overshoot", "%s lerpDelta overshot: from %.9g towards %.9g gives %.9g (factor %.9g, frame %.9g s)", formOf(i), before[i], s.b[i], s.v[i], s.f, dt);
			if (s.v[i] == s.b[i]) rt::count(P_REACHED);
		}
		rt::nontrivial();
		if (s.frames == 60) rt::count(P_LONG);
	}
	rt::recordState((uint64_t)(s.f * 64) * 64 + std::min(s.frames, 63));
}

//---------------------------------------------------------------------------------------------------------------------
// C12: double precision references
struct V { double x, y, z; };
struct Q { double x, y, z, w; };
struct M { double c[4][4]; }; // columns
V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
V operator*(V a, double s) { return {a.x * s, a.y * s, a.z * s}; }
Q mul(Q a, Q b) { return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z, a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; }
Q aa(double angle, V axis) { double s = std::sin(angle / 2); return {axis.x * s, axis.y * s, axis.z * s, std::cos(angle / 2)}; }
M rotM(Q q)
{
	double x = q.x, y = q.y, z = q.z, w = q.w;
	return {{{1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y), 0}, {2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x), 0}, {2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y), 0}, {0, 0, 0, 1}}};
}
V rot(Q q, V v) { M m = rotM(q); return {m.c[0][0] * v.x + m.c[1][0] * v.y + m.c[2][0] * v.z, m.c[0][1] * v.x + m.c[1][1] * v.y + m.c[2][1] * v.z, m.c[0][2] * v.x + m.c[1][2] * v.y + m.c[2][2] * v.z}; }
Q conj(Q q) { return {-q.x, -q.y, -q.z, q.w}; }
double dot(Q a, Q b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
M trs(V p, Q q, V s) { M m = rotM(q); double k[3] = {s.x, s.y, s.z}; for (int c = 0; c < 3; c++) for (int i = 0; i < 3; i++) m.c[c][i] *= k[c]; m.c[3][0] = p.x; m.c[3][1] = p.y; m.c[3][2] = p.z; return m; }
f32x4 f(V v) { return f32x4((float)v.x, (float)v.y, (float)v.z, 0.0f); }
quat f(Q q) { return quat((float)q.x, (float)q.y, (float)q.z, (float)q.w); }
f32x4x4 f(const M& m) { f32x4x4 r; memcpy((void*)&r, 0 ? (void*)&m : (void*)&r, 0); float a[16]; for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) a[c * 4 + i] = (float)m.c[c][i]; memcpy((void*)&r, a, sizeof a); return r; }
V d3(const f32x4& v) { float a[4]; memcpy(a, &v, 16); return {a[0], a[1], a[2]}; }
Q dq(const quat& v) { float a[4]; memcpy(a, &v, 16); return {a[0], a[1], a[2], a[3]}; }

struct Pose
{
	// library state
	quat qWorld, qBody, qEuler, qSlerp; f32x4x4 rM, tWorld, tBody, sRight, sLeft, screw, model; f32x4 vec, back;
	// parameters of the current segment
	V axis, vel; double omega, smooth; V growth; int eulerAxis; Q target;
	// reference at the start of the segment and time since
	Q rWorld, rBody, rEuler, rSlerp; M rRM, rTW, rTB, rSR, rSL, rScrew; V rVec, rBack; V mp, ms; Q mq;
	double T = 0; int frames = 0;
	V euler, turn; V size; // a pose described by angles about the three axes and a fixed size
};
V unit(sim::Rng& r) { for (;;) { V v{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)}; double l = v.x * v.x + v.y * v.y + v.z * v.z; if (l > 0.05 && l < 1) { l = std::sqrt(l); return v * (1 / l); } } }
V axisOf(sim::Rng& r) { if (r.chance(0.3)) { int k = (int)r.below(3); double s = r.chance(0.5) ? 1 : -1; return {k == 0 ? s : 0, k == 1 ? s : 0, k == 2 ? s : 0}; } V v = unit(r); V w{(float)v.x, (float)v.y, (float)v.z}; return w; }
Q unitQ(sim::Rng& r) { if (r.chance(0.15)) return {0, 0, 0, 1}; double a = r.chance(0.2) ? M_PI * (double)r.range(-4, 4) / 2 : r.real(-6, 6); return aa(a, unit(r)); }
V vecOf(sim::Rng& r, double m) { return {r.real(-m, m), r.real(-m, m), r.real(-m, m)}; }

void segment(Pose& p, sim::Rng& r)
{
	p.axis = axisOf(r); p.vel = r.chance(0.1) ? V{0, 0, 0} : vecOf(r, 5); p.omega = r.chance(0.1) ? 0 : r.real(-7, 7);
	p.smooth = r.real(0.02, 0.98); p.eulerAxis = (int)r.below(3); p.target = unitQ(r);
	p.growth = {std::exp(r.real(-0.25, 0.25)), std::exp(r.real(-0.25, 0.25)), std::exp(r.real(-0.25, 0.25))};
	while (std::fabs(dot(p.rSlerp, p.target)) < 0.02) p.target = unitQ(r); // half a turn apart: both ways round are equally short
	p.T = 0;
	p.turn = {r.chance(0.4) ? 0 : r.real(-3, 3), r.chance(0.3) ? 0 : r.real(-2, 2), r.chance(0.4) ? 0 : r.real(-3, 3)};
	if (r.chance(0.3)) (r.chance(0.5) ? p.euler.x : p.euler.z) = 0;
	if (r.chance(0.15)) (r.chance(0.5) ? p.euler.x : p.euler.z) = (double)r.range(-2, 2) * M_PI / 2;
	if (r.chance(0.25)) { static const double off[] = {0, 1e-7, 3e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2}; p.euler.y = (r.chance(0.5) ? 1 : -1) * (M_PI / 2 - off[r.below(8)]); p.turn.y = r.chance(0.7) ? 0 : r.real(-1e-5, 1e-5); } // looking straight along the third axis: pitch and roll become one
	p.size = {r.chance(0.4) ? 1 : r.real(0.4, 2.5), r.chance(0.4) ? 1 : r.real(0.4, 2.5), r.chance(0.4) ? 1 : r.real(0.4, 2.5)};
	if (dot(p.rSlerp, p.target) < 0) rt::count(P_FLIP);
	if (std::fabs(dot(p.rSlerp, p.target)) < 0.2) rt::count(P_HALF_TURN);
}
double decayOf(const Pose& p, double T) { return std::pow(p.smooth, T); }
// references at time T of the segment
Q slerpRef(const Pose& p, double T)
{
	Q a = p.rSlerp, b = p.target; double c = dot(a, b);
	if (c < 0) { b = {-b.x, -b.y, -b.z, -b.w}; c = -c; }
	double t = 1 - decayOf(p, T), th = std::acos(std::min(1.0, c));
	if (th < 1e-9) return b;
	double s = std::sin(th), u = std::sin((1 - t) * th) / s, w = std::sin(t * th) / s;
	return {a.x * u + b.x * w, a.y * u + b.y * w, a.z * u + b.z * w, a.w * u + b.w * w};
}
M mulRot(Q q, const M& m) { M o = m; for (int c = 0; c < 4; c++) { V v = rot(q, {m.c[c][0], m.c[c][1], m.c[c][2]}); o.c[c][0] = v.x; o.c[c][1] = v.y; o.c[c][2] = v.z; } return o; }
V powV(V g, double T) { return {std::pow(g.x, T), std::pow(g.y, T), std::pow(g.z, T)}; }

struct Refs { V euler3; Q world, body, euler, slerp, mq; M rm, tw, tb, sr, sl, screw; V vec, back, mp, ms; };
Refs refsAt(const Pose& p, double T)
{
	Refs r; Q R = aa(p.omega * T, p.axis);
	V e{p.eulerAxis == 0 ? 1.0 : 0.0, p.eulerAxis == 1 ? 1.0 : 0.0, p.eulerAxis == 2 ? 1.0 : 0.0};
	r.world = mul(R, p.rWorld); r.body = mul(p.rBody, R); r.euler = mul(aa(p.omega * T, e), p.rEuler); r.slerp = slerpRef(p, T); r.mq = mul(R, p.mq);
	r.euler3 = p.euler + p.turn * T;
	r.rm = mulRot(R, p.rRM);
	r.tw = p.rTW; V d = p.vel * T; r.tw.c[3][0] += d.x; r.tw.c[3][1] += d.y; r.tw.c[3][2] += d.z;
	r.tb = p.rTB; for (int i = 0; i < 3; i++) r.tb.c[3][i] += p.rTB.c[0][i] * d.x + p.rTB.c[1][i] * d.y + p.rTB.c[2][i] * d.z;
	V g = powV(p.growth, T); double ga[4] = {g.x, g.y, g.z, 1};
	r.sr = p.rSR; r.sl = p.rSL;
	for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) { r.sr.c[c][i] *= ga[c]; r.sl.c[c][i] *= ga[i]; }
	r.screw = mulRot(R, p.rScrew); V a = p.axis * (p.vel.x * T); r.screw.c[3][0] += a.x; r.screw.c[3][1] += a.y; r.screw.c[3][2] += a.z;
	r.vec = rot(R, p.rVec); r.back = rot(conj(R), p.rBack);
	r.mp = p.mp + p.vel * T; r.ms = {p.ms.x * g.x, p.ms.y * g.y, p.ms.z * g.z};
	return r;
}
void restart(Pose& p, const Refs& r)
{
	p.rWorld = r.world; p.rBody = r.body; p.rEuler = r.euler; p.rSlerp = r.slerp; p.mq = r.mq; p.rRM = r.rm; p.rTW = r.tw; p.rTB = r.tb; p.rSR = r.sr; p.rSL = r.sl; p.rScrew = r.screw;
	p.euler = r.euler3; p.rVec = r.vec; p.rBack = r.back; p.mp = r.mp; p.ms = r.ms;
}
void fail(const char* what, const Pose& p, double err, double tol, const std::string& extra = "")
{
	rt::violate("pose-differs", "%s: differs from the closed form by %.3g after %d frames, allowed rounding is %.3g (segment time %.9g s, angular speed %.6g)%s", what, err, p.frames, tol, p.T, p.omega, extra.c_str());
}
void cmpQ(const char* what, const Pose& p, const quat& s, Q r, double tol)
{
	Q a = dq(s); double e = 0, g = 0, *x = &a.x, *y = &r.x;
	for (int i = 0; i < 4; i++) { e = std::max(e, std::fabs(x[i] - y[i])); g = std::max(g, std::fabs(x[i] + y[i])); }
	if (!(e == e) || !(g == g)) { e = g = NAN; }
	double err = std::min(e, g); rt::count(rt::M_CHECKS);
	if (!(err <= tol)) fail(what, p, err, tol);
}
void cmpV(const char* what, const Pose& p, const f32x4& s, V r, double tol)
{
	V a = d3(s); double e = std::max({std::fabs(a.x - r.x), std::fabs(a.y - r.y), std::fabs(a.z - r.z)}); rt::count(rt::M_CHECKS);
	if (!(a.x == a.x && a.y == a.y && a.z == a.z)) e = NAN;
	if (!(e <= tol)) fail(what, p, e, tol);
}
// linear part relative to its column length, translation relative to reach
void cmpM(const char* what, const Pose& p, const f32x4x4& s, const M& r, double rel, double reach)
{
	float a[16]; memcpy(a, (const void*)&s, sizeof a); rt::count(rt::M_CHECKS);
	for (int c = 0; c < 4; c++)
	{
		double len = c == 3 ? reach : std::sqrt(r.c[c][0] * r.c[c][0] + r.c[c][1] * r.c[c][1] + r.c[c][2] * r.c[c][2]);
		for (int i = 0; i < 4; i++)
		{
			double e = std::fabs(a[c * 4 + i] - r.c[c][i]), tol = i == 3 ? 1e-6 : rel * (len + 1e-6);
			if (!(e <= tol)) { char b[64]; snprintf(b, sizeof b, "; column %d row %d", c, i); fail(what, p, e, tol, b); }
		}
	}
}

void execPose(const sim::Plan& plan)
{
	sim::Rng r(plan.seed ^ 0x1234);
	Pose p;
	p.rWorld = unitQ(r); p.rBody = unitQ(r); p.rEuler = unitQ(r); p.rSlerp = unitQ(r); p.mq = unitQ(r);
	p.rRM = rotM(unitQ(r)); p.rTW = trs(vecOf(r, 20), unitQ(r), {1, 1, 1}); p.rTB = trs(vecOf(r, 20), unitQ(r), {r.real(0.5, 2), r.real(0.5, 2), r.real(0.5, 2)});
	p.rSR = trs(vecOf(r, 5), unitQ(r), {1, 1, 1}); p.rSL = trs(vecOf(r, 5), unitQ(r), {1, 1, 1}); p.rScrew = trs(vecOf(r, 5), unitQ(r), {1, 1, 1});
	p.rVec = unit(r) * r.real(0.5, 4); p.rBack = unit(r) * r.real(0.5, 4); p.mp = vecOf(r, 20); p.ms = {r.real(0.5, 2), r.real(0.5, 2), r.real(0.5, 2)};
	if (r.chance(0.3)) p.ms = {1, 1, 1};
	p.euler = {r.real(-3, 3), r.real(-1.5, 1.5), r.real(-3, 3)};
	segment(p, r);
	p.qWorld = f(p.rWorld); p.qBody = f(p.rBody); p.qEuler = f(p.rEuler); p.qSlerp = f(p.rSlerp); p.rM = f(p.rRM); p.tWorld = f(p.rTW); p.tBody = f(p.rTB); p.sRight = f(p.rSR); p.sLeft = f(p.rSL);
	p.screw = f(p.rScrew); p.vec = f(p.rVec); p.back = f(p.rBack); p.model = f(trs(p.mp, p.mq, p.ms));
	double reach = 60, dist = 0; int mode = 0;
	bool inplace = plan.knob("inplace"), renorm = plan.knob("renorm");
	for (int k = 0; k < (int)plan.ops.size(); k++)
	{
		const sim::Op& op = plan.ops[k];
		rt::setOpIndex(k);
		if (op.kind == RETARGET) { restart(p, refsAt(p, p.T)); sim::Rng q(op.seed); segment(p, q); continue; }
		float dt = dtOf(op); rt::simTime((uint64_t)op.a[0]);
		static const int ctr[] = {0, rt::F_CLOCK_JITTER, rt::F_CLOCK_STALL, rt::F_CLOCK_BURST, rt::F_CLOCK_ZERO};
		if (op.a[1] > 0 && op.a[1] < 5) rt::count(ctr[op.a[1]]);
		if (op.fpu != mode) { rt::count(P_MODE_CHANGE); mode = op.fpu; }
		// the application's own arithmetic, rounded once
		float angle = (float)(p.omega * (double)dt), slide = (float)(p.vel.x * (double)dt), t = (float)(1 - decayOf(p, dt));
		if (std::fabs(angle) > 2 * M_PI) rt::count(P_BIG_ANGLE);
		f32x4 ax = f(p.axis), step = f(p.vel * (double)dt), grow = f(powV(p.growth, dt)), euler = f(V{p.eulerAxis == 0 ? (double)angle : 0, p.eulerAxis == 1 ? (double)angle : 0, p.eulerAxis == 2 ? (double)angle : 0}), axisStep = f(p.axis * (double)slide);
		quat target = f(p.target), round, unitBack; f32x4x4 view, inv, mround; f32x4 pos, scl;
		callSut(&op, [&] {
			quat d(angle, ax);
			if (inplace) { p.qBody *= d; } else p.qBody = p.qBody * d;
			p.qWorld = d * p.qWorld;
			p.qEuler = fromEulerAngles(euler) * p.qEuler;
			p.qSlerp = slerp(p.qSlerp, target, t);
			if (renorm) { p.qBody = normalize(p.qBody); p.qWorld = normalize(p.qWorld); p.qEuler = normalize(p.qEuler); p.qSlerp = normalize(p.qSlerp); }
			f32x4x4 dm = rotate(d);
			p.rM = dm * p.rM;
			p.vec = d * p.vec;
			p.back = p.back * d;
			p.tWorld = translate(step, p.tWorld);
			p.tBody = translate(p.tBody, step);
			p.sRight = scale(p.sRight, grow);
			p.sLeft = scale(grow, p.sLeft);
			p.screw = translate(axisStep, dm * p.screw);
			quat mq; extractTransform(p.model, pos, mq, scl);
			p.model = calcModel(pos + step, d * mq, scl * grow);
			round = extractQuat(rotate(normalize(p.qWorld)));
			unitBack = inverse(p.qBody) * p.qBody;
			view = inverseTransRot(p.screw);
			inv = inverse4x4(p.tBody);
			mround = inverse4x4(p.model) * p.model;
		});
		{ // the pose the angles describe, its parts and its model matrix
			Refs A = refsAt(p, p.T + dt);
			auto wrap = [](double x) { return std::remainder(x, 2 * M_PI); };
			V e = A.euler3; if (plan.knob("wrap")) e = {wrap(e.x), wrap(e.y), wrap(e.z)};
			f32x4 E = f(e), S = f(p.size), at = f(A.mp), gotPos, gotScale, gotEuler, moved; V ed = d3(E), sd = d3(S), pd = d3(at); quat q, again, gotQ, gotQ2; f32x4x4 model, rigid, R0, R1; float2 s2;
			f32x4 v = f(p.vel);
			callSut(&op, [&] {
				q = fromEulerAngles(E);
				gotEuler = q.extractEulerAngles();
				again = fromEulerAngles(gotEuler);
				model = calcModel(at, q, S); rigid = calcModel(at, q);
				extractTransform(model, gotPos, gotQ, gotScale);
				R0 = extractRotation(model); R1 = extractRotationOnly(rigid); s2 = extractScale2(model);
				extractTransform(rigid, gotPos, gotQ2);
				moved = model * f32x4(v, 1.0f);
			});
			Q want = mul(aa(ed.z, {0, 0, 1}), mul(aa(ed.y, {0, 1, 0}), aa(ed.x, {1, 0, 0})));
			M rw = trs({0, 0, 0}, want, {1, 1, 1}), mw = trs(pd, want, sd);
			double reach2 = 10 + std::fabs(pd.x) + std::fabs(pd.y) + std::fabs(pd.z);
			cmpQ("quaternion from Euler angles", p, q, want, 1e-5);
			double cy = std::fabs(std::cos(ed.y)); // near a quarter turn of yaw the arc sine keeps half its digits
			cmpQ("quaternion to Euler angles and back", p, again, want, 1e-5 + std::min(4e-6 / std::max(cy, 1e-9), 1.2e-3)); rt::count(P_EULER); if (cy < 2e-3) rt::count(P_POLE);
			cmpM("model matrix", p, model, mw, 2e-5, reach2); cmpM("model matrix without scale", p, rigid, trs(pd, want, {1, 1, 1}), 2e-5, reach2);
			cmpM("rotation extracted from a scaled model", p, R0, rw, 2e-5, 1); cmpM("rotation extracted from a rigid model", p, R1, rw, 2e-5, 1);
			cmpQ("rotation taken from a scaled model", p, gotQ, want, 2e-5); cmpQ("rotation taken from a rigid model", p, gotQ2, want, 2e-5);
			cmpV("scale taken from a model", p, gotScale, sd, 2e-5); cmpV("position taken from a model", p, gotPos, pd, 1e-6 * reach2);
			cmpV("plane scale taken from a model", p, f32x4(s2.x, s2.y, 0.0f, 0.0f), {sd.x, sd.y, 0}, 2e-5);
			V vd = d3(v), w = rot(want, {vd.x * sd.x, vd.y * sd.y, vd.z * sd.z}) + pd;
			cmpV("point moved by a model matrix", p, moved, w, 1e-4 + 2e-6 * reach2);
			rt::recordBytes(&again, 16); rt::recordBytes(&model, 64);
		}
		p.T += dt; p.frames++; dist += std::fabs(dt) * 5 * 2;
		Refs R = refsAt(p, p.T);
		double n = p.frames + 4, tq = 1e-5 + n * 2e-6, len = reach + dist;
		cmpQ("quaternion accumulated in world space", p, p.qWorld, R.world, tq);
		cmpQ("quaternion accumulated in body space", p, p.qBody, R.body, tq);
		cmpQ("quaternion accumulated from Euler angles", p, p.qEuler, R.euler, tq);
		cmpQ("spherical interpolation towards a target", p, p.qSlerp, R.slerp, 2e-5 + n * 4e-6);
		cmpM("rotation matrix accumulated", p, p.rM, R.rm, tq, 1);
		cmpV("vector rotated every frame", p, p.vec, R.vec, 5 * tq);
		cmpV("vector rotated back every frame", p, p.back, R.back, 5 * tq);
		cmpM("matrix translated in world space", p, p.tWorld, R.tw, 1e-6 + n * 3e-7, len);
		cmpM("matrix translated in its own space", p, p.tBody, R.tb, 1e-6 + n * 3e-7, 2 * len);
		cmpM("matrix scaled from the right", p, p.sRight, R.sr, 1e-6 + n * 3e-7, 10);
		double g = std::max({1.0, powV(p.growth, p.T).x, powV(p.growth, p.T).y, powV(p.growth, p.T).z, std::fabs(R.sl.c[3][0]), std::fabs(R.sl.c[3][1]), std::fabs(R.sl.c[3][2])});
		cmpM("matrix scaled from the left", p, p.sLeft, R.sl, 1e-6 + n * 3e-7, 10 * g);
		cmpM("rotated and translated matrix", p, p.screw, R.screw, tq, len);
		cmpM("pose taken apart and put together every frame", p, p.model, trs(R.mp, R.mq, R.ms), 3 * tq, len);
		Q w = dq(p.qWorld); double nw = std::sqrt(dot(w, w)); w = {w.x / nw, w.y / nw, w.z / nw, w.w / nw};
		cmpQ("quaternion to matrix and back", p, round, w, 1e-5);
		cmpQ("inverse quaternion times quaternion", p, unitBack, Q{0, 0, 0, 1}, 1e-5);
		{ // view of the screw motion, from the library's own pose
			float a[16]; memcpy(a, (void*)&p.screw, sizeof a); M m; memset(&m, 0, sizeof m);
			for (int c = 0; c < 3; c++) for (int i = 0; i < 3; i++) m.c[c][i] = a[i * 4 + c];
			for (int i = 0; i < 3; i++) m.c[3][i] = -(a[i * 4] * (double)a[12] + a[i * 4 + 1] * (double)a[13] + a[i * 4 + 2] * (double)a[14]);
			m.c[3][3] = 1;
			cmpM("inverse of a rotated and translated matrix", p, view, m, 1e-5, len);
		}
		{ // inverse of the translated matrix applied to its own translation and axes
			float a[16], b[16]; memcpy(a, (void*)&p.tBody, sizeof a); memcpy(b, (void*)&inv, sizeof b);
			for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++)
			{
				double s = 0; for (int k2 = 0; k2 < 4; k2++) s += (double)b[k2 * 4 + i] * a[c * 4 + k2];
				double e = std::fabs(s - (c == i)), tol = 1e-5 * (c == 3 ? 10 * len : 10);
				if (!(e <= tol)) fail("inverse of a translated matrix", p, e, tol);
			}
		}
		rt::recordBytes(&p.qWorld, 16); rt::recordBytes(&p.model, 64); rt::recordBytes(&p.screw, 64);
		rt::nontrivial();
		if (p.frames == 60) rt::count(P_LONG);
		(void)mround;
	}
	rt::recordState((uint64_t)(int64_t)(p.omega * 8) * 4096 + std::min(p.frames, 255) * 4 + (uint64_t)p.eulerAxis);
}

void exec(const sim::Plan& plan) { if (plan.property == "C12") execPose(plan); else execSmooth(plan); }

void gen(sim::Plan& p, sim::Rng& r)
{
	p.knobs["heap_reuse"] = 0; p.knobs["heap_skew"] = 0; p.knobs["heap_garbage"] = 4;
	p.knobs["inplace"] = r.chance(0.5); p.knobs["wrap"] = r.chance(0.7); p.knobs["renorm"] = r.chance(0.5);
	int n = r.chance(0.15) ? 60 + (int)r.below(90) : 1 + (int)r.below(40);
	int64_t nominal = (int64_t)(1e9 / (r.chance(0.2) ? r.real(5, 500) : (double)(r.chance(0.5) ? 60 : 30)));
	double fault = r.chance(0.2) ? 0.0 : r.real(0.05, 0.6); bool fpu = r.chance(0.3); int mode = fpu ? 1 + (int)r.below(5) : 0; bool perFrame = r.chance(0.5);
	int burst = 0; int64_t total = 0;
	for (int i = 0; i < n; i++)
	{
		if (r.chance(0.06)) { sim::Op op; op.kind = RETARGET; op.seed = r.next(); p.ops.push_back(op); }
		sim::Op op; op.kind = FRAME; op.a[0] = nominal; op.a[1] = STEADY;
		if (burst) { burst--; op.a[0] = 1 + (int64_t)r.logUniform(2000000); op.a[1] = BURST; }
		else if (r.chance(fault))
		{
			switch (r.below(10))
			{
			case 0: case 1: op.a[0] = (int64_t)(r.real(0.2, 3.0) * 1e9); op.a[1] = STALL; break;
			case 2: op.a[0] = 0; op.a[1] = ZERO; break;
			case 3: burst = (int)r.below(12); op.a[0] = 1 + (int64_t)r.logUniform(2000000); op.a[1] = BURST; break;
			default: op.a[0] = (int64_t)(nominal * r.real(0.3, 3)); op.a[1] = JITTER; break;
			}
		}
		if (total + op.a[0] > 20000000000ll) op.a[0] = nominal; // keep a flight below about 25 s
		total += op.a[0];
		if (fpu && (!perFrame || r.chance(0.5))) op.fpu = perFrame ? 1 + (int)r.below(5) : mode;
		p.ops.push_back(op);
	}
}
const char* opName(int k) { return k == FRAME ? "frame" : "retarget"; }
}

const sim::Scenario sim::scenario = {"clock", gen, exec, opName, {"factor_zero", "factor_one", "target_reached", "slerp_long_way_round", "slerp_nearly_half_turn",
	"sixty_frames", "more_than_a_turn_in_a_frame", "fpu_mode_switch", "euler_round_trip", "euler_at_the_pole"}, 20, {"dt_ns", "clock"}};
