// Scenario "bake" (C16): image based lighting baked from a cubemap by simulated workers. The cubemap is split into work units; workers sum
// radiance times spherical harmonics per unit, can die (their unit is lost, or half written, and redone later by another worker), and the
// partial sums are merged in a seeded order. The result is filtered, deringed, prepared for shaders, and turned frame by frame by a rotating
// sky. Specular samples are drawn in batches the same way. Oracle: the same integrals and formulas in double precision, over the harness's
// own cubemap, directions and solid angles.
#include "common.h"
#include "math/sh.hpp"
#include "math/brdf.hpp"

using namespace math;
using sim::Op; using sim::Plan; using sim::Rng;

namespace
{
enum Kind { BAKE, FINISH, TURN, SAMPLE, TEXELS, DERING, NKINDS };
const char* opName(int k) { static const char* n[] = {"bake_unit", "finish", "turn_frame", "sample_batch", "texel_geometry", "dering_light"}; return n[(unsigned)k % NKINDS]; }
enum { P_LOST = rt::P_FIRST, P_HALF, P_REDONE, P_PARALLEL, P_WINDOWED, P_UNTOUCHED, P_TURNS, P_SAMPLES, P_FINISHED, P_DARK, P_SYMMETRIC, P_EXTREME, P_IN_PLACE, P_OTHER_LIGHT, P_STRONGEST };
enum { MAXN = 12, MAXUNIT = 36, LANES = 4 };
const double PI = 3.14159265358979323846;

struct V { double x, y, z; };
double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
V operator*(V a, double s) { return {a.x * s, a.y * s, a.z * s}; }
V unit(V a) { return a * (1 / std::sqrt(dot(a, a))); }
V unit(Rng& r) { for (;;) { V v{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)}; double l = dot(v, v); if (l > 0.05 && l < 1) return v * (1 / std::sqrt(l)); } }

// real spherical harmonics as the lighting code of the library and its shaders evaluates them
void basis(V d, double* b)
{
	double s = std::sqrt(1 / PI);
	b[0] = 0.5 * s; b[1] = -std::sqrt(3.) / 2 * s * d.y; b[2] = std::sqrt(3.) / 2 * s * d.z; b[3] = -std::sqrt(3.) / 2 * s * d.x;
	b[4] = std::sqrt(15.) / 2 * s * d.x * d.y; b[5] = -std::sqrt(15.) / 2 * s * d.y * d.z; b[6] = std::sqrt(5.) / 4 * s * (3 * d.z * d.z - 1); b[7] = -std::sqrt(15.) / 2 * s * d.x * d.z; b[8] = std::sqrt(15.) / 4 * s * (d.x * d.x - d.y * d.y);
}
double eval(const double* c, V d) { double b[9], s = 0; basis(d, b); for (int i = 0; i < 9; i++) s += c[i] * b[i]; return s; }
double window(int l, double c) { if (!l) return 1; double x = PI * l / c; x = std::sin(x) / x; return x * x * x * x; }
const int band[9] = {0, 1, 1, 1, 2, 2, 2, 2, 2};
// the cubemap convention of the graphics APIs: s to the right, t down
V texelDir(int face, double s, double t)
{
	switch (face) { case 0: return unit({1, -t, -s}); case 1: return unit({-1, -t, s}); case 2: return unit({s, 1, t}); case 3: return unit({s, -1, -t}); case 4: return unit({s, -t, 1}); default: return unit({-s, -t, -1}); }
}
double quadrant(double x, double y) { return std::atan2(x * y, std::sqrt(x * x + y * y + 1)); }
double solid(double s, double t, double h) { return quadrant(s - h, t - h) - quadrant(s - h, t + h) - quadrant(s + h, t - h) + quadrant(s + h, t + h); }

struct Part { f32x4 sh[9]; float area; };
struct World
{
	int n, units, rows; f32x4* map; bool done[MAXUNIT]; Part* parts; double ref[9][3], mag[9][3]; // mag: sum of absolute contributions
	bool finished = false; float turn[3][9]; double turn0[3][9]; V axis; double rate, t = 0; int turns = 0; double scale[3];
};
World* W;
void rows(int u, int& face, int& from, int& to) { int per = W->units / 6; face = u / per; int k = u % per; from = W->n * k / per; to = W->n * (k + 1) / per; }

bool bakeUnit(const Op& op, int u, Part* out)
{
	World& w = *W; int face, from, to; rows(u, face, from, to); const f32x4* map = w.map; int n = w.n;
	return callSut(&op, [&] {
		float inv = 1.0f / (float)n; for (int i = 0; i < 9; i++) out->sh[i] = f32x4::zero; out->area = 0;
		for (int y = from; y < to; y++) for (int x = 0; x < n; x++)
		{
			auto st = ibl::coordsToST(uint2(x, y), inv); auto dir = ibl::coordsToDir(uint3(x, y, face), inv); float a = sh::calcSolidAngle(st, inv), b[9]; sh::computeShBasis(dir, b);
			f32x4 c = map[(face * n + y) * n + x] * a; for (int i = 0; i < 9; i++) out->sh[i] += c * b[i];
			out->area += a;
		} }) == OK;
}
void bake(const Op& op, int index)
{
	World& w = *W; rt::setOpIndex(index); rt::simTime(1000000); int u = (int)((uint64_t)op.a[0] % w.units); if (op.lane) { u = u / LANES * LANES + op.lane - 1; if (u >= w.units) return; rt::count(P_PARALLEL); }
	Part* p = (Part*)rt::bufAlloc(sizeof(Part), 16); bool redo = w.done[u];
	if (bakeUnit(op, u, p))
	{
		if (redo) { rt::count(P_REDONE); if (op.fpu == 0 && op.a[3] == 0 && memcmp((void*)p->sh, (void*)w.parts[u].sh, sizeof p->sh)) rt::violate("redo-differs", "baking unit %d again gave other sums", u); }
		switch (op.a[1])
		{
		case 1: rt::count(P_LOST); break; // the worker died before its result was stored
		case 2: rt::count(P_HALF); memcpy((void*)&w.parts[u], (void*)p, sizeof(Part) / 2); w.done[u] = false; break; // half written: not marked as done
		default: memcpy((void*)&w.parts[u], (void*)p, sizeof(Part)); w.done[u] = op.fpu == 0; break;
		}
		if (!op.lane) rt::recordBytes(p->sh, sizeof p->sh);
	}
	rt::bufFree(p);
}
void loadTurn(const double in[9][3]) { World& w = *W; for (int c = 0; c < 3; c++) { w.scale[c] = 0; for (int i = 0; i < 9; i++) { w.turn[c][i] = (float)in[i][c]; w.turn0[c][i] = w.turn[c][i]; w.scale[c] += std::fabs(in[i][c]); } } w.t = 0; w.turns = 0; }
// the least light there can be in any direction when the light is turned so that its linear part is along an axis (the published bound)
struct Bound { double c0, len, nn, a, d; };
Bound boundOf(const double* c)
{
	double l[3] = {-c[3] * 0.4886025119029199, -c[1] * 0.4886025119029199, c[2] * 0.4886025119029199}, len = std::sqrt(l[0] * l[0] + l[1] * l[1] + l[2] * l[2]);
	double q[3][3]; const double k1 = 1.0925484305920792, k0 = 0.31539156525252005, k2 = 0.5462742152960396;
	q[0][0] = -k0 * c[6] + k2 * c[8]; q[1][1] = -k0 * c[6] - k2 * c[8]; q[2][2] = 2 * k0 * c[6]; q[0][1] = q[1][0] = k1 * c[4] / 2; q[1][2] = q[2][1] = -k1 * c[5] / 2; q[0][2] = q[2][0] = -k1 * c[7] / 2;
	V n = len > 0 ? V{l[0] / len, l[1] / len, l[2] / len} : V{0, 0, 1}, u = std::fabs(n.x) < 0.7 ? V{1, 0, 0} : V{0, 1, 0}; u = unit(V{u.x - n.x * dot(u, n), u.y - n.y * dot(u, n), u.z - n.z * dot(u, n)}); V t{n.y * u.z - n.z * u.y, n.z * u.x - n.x * u.z, n.x * u.y - n.y * u.x};
	auto form = [&](V a, V b) { double x[3] = {a.x, a.y, a.z}, y[3] = {b.x, b.y, b.z}, s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += x[i] * q[i][j] * y[j]; return s; };
	double nn = form(n, n), d = 2 * std::hypot(form(u, n), form(t, n)), a = std::hypot((form(u, u) - form(t, t)) / 2, form(u, t));
	return {c[0] * 0.28209479177387814, len, nn, a, d};
}
double least(const Bound& b, double w1, double w2)
{
	static const std::vector<std::pair<double, double>> zs = [] { std::vector<std::pair<double, double>> v; for (int i = 0; i <= 120; i++) v.push_back({std::cos(PI * i / 120), std::sin(PI * i / 120)}); return v; }(); double best = 1e300;
	for (auto& q : zs) { double z = q.first, s = q.second; best = std::min(best, b.c0 + w1 * b.len * z + w2 * (b.nn * (z * z - s * s / 2) - b.a * s * s - b.d * std::fabs(z) * s)); }
	return best;
}
// the direction from which the least light comes
V darkest(const double* o, Rng& r)
{
	V best = unit(r); double v = eval(o, best); for (int k = 0; k < 60; k++) { V d = unit(r); double q = eval(o, d); if (q < v) { v = q; best = d; } }
	for (double step = 0.3; step > 1e-3;) { bool moved = false; V e = unit(r); for (int sgn = -1; sgn <= 1; sgn += 2) { V d = unit(V{best.x + sgn * step * e.x, best.y + sgn * step * e.y, best.z + sgn * step * e.z}); double q = eval(o, d); if (q < v) { v = q; best = d; moved = true; } } if (!moved) step *= 0.85; }
	return best;
}
// deringing: one window for all channels, never negative light where a window can avoid it, no stronger than it has to be
void deringed(const double in[9][3], const float f[9][4], double dc, double out[9][3], Rng& r, bool sky)
{
	double w1 = -1, w2 = -1, best1 = 0, best2 = 0;
	for (int i = 1; i < 9; i++) for (int c = 0; c < 3; c++) { double& b = band[i] == 1 ? best1 : best2; if (std::fabs(in[i][c]) > b) { b = std::fabs(in[i][c]); (band[i] == 1 ? w1 : w2) = f[i][c] / in[i][c]; } }
	for (int i = 0; i < 9; i++) for (int c = 0; c < 3; c++)
	{
		double ww = band[i] == 0 ? 1 : band[i] == 1 ? w1 : w2; out[i][c] = f[i][c];
		if (!(std::fabs(f[i][c] - in[i][c] * ww) <= 2e-6 * dc)) rt::violate("dering-wrong", "deringing scales coefficient %d of channel %d by %.6g but its band by %.6g", i, c, f[i][c] / in[i][c], ww);
	}
	bool can = sky || (best1 > 1e-4 * dc && w1 > window(1, 3.2)); if (!can) rt::count(P_STRONGEST); if (!sky) rt::count(P_OTHER_LIGHT);
	for (int c = 0; can && c < 3; c++)
	{
		double o[9], before[9]; for (int i = 0; i < 9; i++) { o[i] = out[i][c]; before[i] = in[i][c]; }
		V d = darkest(o, r); double v = eval(o, d);
		if (!(v >= -5e-4 * std::fabs(o[0]) - 1e-6 * dc)) rt::violate("dering-wrong", "after deringing by %.5g the light from (%.4g %.4g %.4g) is %.5g, the average is %.5g; before it the coefficients were %.6g %.6g %.6g %.6g %.6g %.6g %.6g %.6g %.6g", w1, d.x, d.y, d.z, v, o[0] * 0.2820948, before[0], before[1], before[2], before[3], before[4], before[5], before[6], before[7], before[8]);
	}
	// the weakest window for which the bound shows that nothing is negative
	Bound bd[3]; for (int k = 0; k < 3; k++) { double o[9]; for (int i = 0; i < 9; i++) o[i] = in[i][k]; bd[k] = boundOf(o); } double lo = 3;
	for (double c = 3; c <= 12.9; c += 0.1) { bool all = true; for (int k = 0; k < 3 && all; k++) all = least(bd[k], window(1, c), window(2, c)) >= 1e-3 * std::fabs(in[0][k]) + 1e-6 * dc || bd[k].c0 == 0; if (!all) break; lo = c; }
	if (best1 > 1e-4 * dc) { double weak = window(1, std::max(3.0, lo - 0.25)); if (!(w1 >= weak - 1e-3)) rt::violate("dering-wrong", "deringing scales the first band by %.5g although a cutoff of %.2f (%.5g) leaves no negative light", w1, lo, weak); if (w1 < window(1, 12.5)) rt::count(P_WINDOWED); else rt::count(P_UNTOUCHED); }
	if (!(w1 < 1.0005 || best1 == 0)) rt::violate("dering-wrong", "deringing amplifies the first band by %.6g", w1);
}
// other light than a baked sky: light that was not spread over the surface, lamps as points, or coefficients from anywhere
void otherLight(const Op& op, int index)
{
	rt::setOpIndex(index); Rng r(op.seed); double in[9][3] = {}, out[9][3], dc = 0; int style = (int)r.below(5);
	for (int c = 0; c < 3; c++)
	{
		if (c && r.chance(0.3)) { for (int i = 0; i < 9; i++) in[i][c] = in[i][0] * (style == 3 ? 1 : 0.5); continue; }
		if (style < 4) { int n = 1 + (int)r.below(5); for (int k = 0; k < n; k++) { double b[9], p = r.real(0, 1); basis(unit(r), b); for (int i = 0; i < 9; i++) in[i][c] += p * b[i] * (style == 1 ? band[i] == 0 ? 1 : band[i] == 1 ? 2. / 3 : 0.25 : style == 2 && band[i] == 2 ? 0.5 : 1); } if (r.chance(0.6)) in[0][c] += r.unit() * r.unit(); }
		else { for (int i = 1; i < 9; i++) in[i][c] = r.real(-1, 1) * (r.chance(0.3) ? 0.05 : 1); in[0][c] = r.real(0.5, 5); }
	}
	f32x4* s = (f32x4*)rt::bufAlloc(sizeof(f32x4) * 9, 16); float q[9][4];
	for (int i = 0; i < 9; i++) { for (int c = 0; c < 3; c++) { q[i][c] = (float)in[i][c]; in[i][c] = q[i][c]; } q[i][3] = 0; } memcpy((void*)s, q, sizeof q); for (int c = 0; c < 3; c++) dc = std::max(dc, std::fabs(in[0][c]));
	int res = callSut(&op, [&] { sh::deringingSH(s); }); memcpy(q, (void*)s, sizeof q); rt::bufFree(s); if (res != OK || op.fpu) return;
	rt::count(rt::M_CHECKS); rt::nontrivial(); deringed(in, q, dc, out, r, style == 1);
}
void finish(const Op& op, int index)
{
	World& w = *W; rt::setOpIndex(index); Rng r(op.seed); rt::simTime(1000000);
	for (int u = 0; u < w.units; u++) if (!w.done[u]) { Op q = op; q.fpu = 0; if (bakeUnit(q, u, &w.parts[u])) w.done[u] = true; else return; }
	std::vector<int> order; for (int i = 0; i < w.units; i++) order.push_back(i);
	for (int i = w.units - 1; i > 0; i--) std::swap(order[(size_t)i], order[r.below((uint64_t)i + 1)]);
	f32x4* s = (f32x4*)rt::bufAlloc(sizeof(f32x4) * 9, 16); float area = 0; f32x4 raw[9], fin[9], sums[9]; const int* ord = order.data(); int un = w.units;
	if (callSut(&op, [&] {
		for (int i = 0; i < 9; i++) s[i] = f32x4::zero;
		for (int u = 0; u < un; u++) { const Part& p = w.parts[ord[u]]; for (int i = 0; i < 9; i++) s[i] += p.sh[i]; area += p.area; }
		for (int i = 0; i < 9; i++) { sums[i] = s[i]; s[i] *= sh::ki[i]; raw[i] = s[i]; }
		sh::deringingSH(s); for (int i = 0; i < 9; i++) fin[i] = s[i]; sh::shaderPreprocessSH(s); }) != OK) { rt::bufFree(s); return; }
	rt::count(P_FINISHED); rt::nontrivial(); rt::count(rt::M_CHECKS);
	float g[9][4], f[9][4], sh[9][4]; memcpy(g, (void*)raw, sizeof g); memcpy(f, (void*)fin, sizeof f); memcpy(sh, (void*)s, sizeof sh);
	if (!(std::fabs(area - 4 * PI) <= 2e-3)) rt::violate("bake-wrong", "the texels of the cubemap cover %.7g instead of the whole sphere", area);
	// constant * normalisation * cosine kernel, as published
	double in[9][3], out[9][3], bs[9];
	{ static const double A[3] = {PI, 2 * PI / 3, PI / 4}; static const double leg[9] = {1, -1, 1, -1, 6, -3, 1, -3, 3}; basis(unit(V{1, 1, 1}), bs); (void)bs;
	  static const double poly[9] = {0.5, -0.8660254037844386, 0.8660254037844386, -0.8660254037844386, 1.9364916731037085, -1.9364916731037085, 0.5590169943749475, -1.9364916731037085, 0.9682458365518543};
	  for (int i = 0; i < 9; i++) { double k = poly[i] / std::sqrt(PI) / (i == 4 ? 6 : i == 6 ? 0.5 * 1 : leg[i]); if (i == 6) k = poly[i] / std::sqrt(PI) * 2; k = std::fabs(k) * A[band[i]];
		for (int c = 0; c < 3; c++)
		{
			double want = w.ref[i][c] * k, tol = 1e-4 * w.mag[i][c] * k + 1e-30; in[i][c] = g[i][c];
			if (!(std::fabs(g[i][c] - want) <= tol)) rt::violate("bake-wrong", "coefficient %d of channel %d is %.8g instead of %.8g (allowed %.3g)", i, c, g[i][c], want, tol);
		} } }
	double dc = 0; for (int c = 0; c < 3; c++) dc = std::max(dc, std::fabs(in[0][c]));
	if (dc > 1e-20)
	{
		for (int i = 0; i < 9; i++) for (int c = 0; c < 3; c++)
		{
			static const double shader[9] = {0.28209479177387814, -0.4886025119029199, 0.4886025119029199, -0.4886025119029199, 1.0925484305920792, -1.0925484305920792, 0.31539156525252005, -1.0925484305920792, 0.5462742152960396};
			double want = f[i][c] * shader[i] / PI; if (!(std::fabs(sh[i][c] - want) <= 3e-6 * std::fabs(want) + 1e-37)) rt::violate("bake-wrong", "shader coefficient %d is %.8g instead of %.8g", i, sh[i][c], want);
		}
		deringed(in, f, dc, out, r, true);
		loadTurn(out);
	}
	else { rt::count(P_DARK); for (int i = 0; i < 9; i++) for (int c = 0; c < 3; c++) if (!(std::fabs(f[i][c]) <= 1e-20) || !(std::fabs(sh[i][c]) <= 1e-20)) rt::violate("bake-wrong", "darkness gives a coefficient of %.4g", f[i][c]); }
	w.finished = true; rt::bufFree(s);
}
void rotation(V a, double angle, double m[3][3]) // m[row][column]
{
	double c = std::cos(angle), s = std::sin(angle), k = 1 - c; double v[3] = {a.x, a.y, a.z};
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = v[i] * v[j] * k + (i == j ? c : 0);
	m[0][1] -= a.z * s; m[1][0] += a.z * s; m[0][2] += a.y * s; m[2][0] -= a.y * s; m[1][2] -= a.x * s; m[2][1] += a.x * s;
}
void turn(const Op& op, int index)
{
	World& w = *W; rt::setOpIndex(index); double dt = (double)op.a[0] * 1e-9; rt::simTime((uint64_t)op.a[0]); static const int ctr[] = {0, rt::F_CLOCK_JITTER, rt::F_CLOCK_STALL, rt::F_CLOCK_BURST, rt::F_CLOCK_ZERO}; if (op.a[1] > 0 && op.a[1] < 5) rt::count(ctr[op.a[1]]);
	if (w.turns == 0) { bool any = false; for (int c = 0; c < 3; c++) for (int i = 0; i < 9; i++) if (w.turn[c][i] != 0) any = true; if (!any) { Rng r(op.seed); double in[9][3]; for (int i = 0; i < 9; i++) for (int c = 0; c < 3; c++) in[i][c] = r.real(-1, 1); loadTurn(in); } }
	w.t += dt; w.turns++; rt::count(P_TURNS); double m[3][3]; rotation(w.axis, std::fmod(w.rate * dt, 2 * PI), m); float mm[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) mm[j][i] = (float)m[i][j];
	bool inPlace = op.a[2] & 1; if (inPlace) rt::count(P_IN_PLACE);
	for (int c = 0; c < 3; c++)
		if (callSut(&op, [&] { float3x3 q(float3(mm[0][0], mm[0][1], mm[0][2]), float3(mm[1][0], mm[1][1], mm[1][2]), float3(mm[2][0], mm[2][1], mm[2][2])); if (inPlace) sh::rotateSh3Bands(w.turn[c], q, w.turn[c]); else { float o[9]; sh::rotateSh3Bands(w.turn[c], q, o); memcpy(w.turn[c], o, sizeof o); } }) != OK) return;
	rotation(w.axis, std::fmod(w.rate * w.t, 2 * PI), m); Rng r(op.seed ^ 5); rt::count(rt::M_CHECKS); rt::nontrivial();
	for (int c = 0; c < 3; c++) for (int k = 0; k < 8; k++)
	{
		V d = unit(r), was{m[0][0] * d.x + m[1][0] * d.y + m[2][0] * d.z, m[0][1] * d.x + m[1][1] * d.y + m[2][1] * d.z, m[0][2] * d.x + m[1][2] * d.y + m[2][2] * d.z};
		double now[9]; for (int i = 0; i < 9; i++) now[i] = w.turn[c][i];
		double got = eval(now, d), want = eval(w.turn0[c], was), tol = (2e-5 + 4e-6 * w.turns) * w.scale[c] + 1e-30;
		if (!(std::fabs(got - want) <= tol)) rt::violate("turn-wrong", "after %d frames and %.6g s of a turning sky the light from (%.5g %.5g %.5g) is %.7g instead of %.7g (allowed %.3g)", w.turns, w.t, d.x, d.y, d.z, got, want, tol);
	}
}
void texels(const Op& op, int index)
{
	World& w = *W; rt::setOpIndex(index); Rng r(op.seed); int n = r.chance(0.5) ? w.n : 1 + (int)r.below(512), x = (int)r.below((uint64_t)n), y = (int)r.below((uint64_t)n), face = (int)r.below(6); if (r.chance(0.3)) x = r.chance(0.5) ? 0 : n - 1; if (r.chance(0.3)) y = r.chance(0.5) ? 0 : n - 1;
	float dir[3], a = 0, b[9], st[2];
	if (callSut(&op, [&] { float inv = 1.0f / (float)n; auto d = ibl::coordsToDir(uint3(x, y, face), inv); dir[0] = d.x; dir[1] = d.y; dir[2] = d.z; auto q = ibl::coordsToST(uint2(x, y), inv); st[0] = q.x; st[1] = q.y; a = sh::calcSolidAngle(q, inv); sh::computeShBasis(d, b); }) != OK) return;
	double s = (x + 0.5) / n * 2 - 1, t = (y + 0.5) / n * 2 - 1; V d = texelDir(face, s, t); double e = std::max({std::fabs(dir[0] - d.x), std::fabs(dir[1] - d.y), std::fabs(dir[2] - d.z)}), q = solid(s, t, 1.0 / n); rt::count(rt::M_CHECKS); rt::nontrivial();
	if (!(e <= 2e-6)) rt::violate("bake-wrong", "texel (%d %d) of face %d of a %d cubemap looks along (%.7g %.7g %.7g) instead of (%.7g %.7g %.7g)", x, y, face, n, dir[0], dir[1], dir[2], d.x, d.y, d.z);
	if (!(std::fabs(a - q) <= 1e-6)) rt::violate("bake-wrong", "texel (%d %d) of a %d cubemap covers %.7g instead of %.7g", x, y, n, a, q);
	double k[9] = {1, -d.y, d.z, -d.x, 6 * d.x * d.y, -3 * d.y * d.z, 0.5 * (3 * d.z * d.z - 1), -3 * d.x * d.z, 3 * (d.x * d.x - d.y * d.y)};
	for (int i = 0; i < 9; i++) if (!(std::fabs(b[i] - k[i]) <= 3e-5)) rt::violate("bake-wrong", "basis function %d at (%.6g %.6g %.6g) is %.7g instead of %.7g", i, d.x, d.y, d.z, b[i], k[i]);
}
void sample(const Op& op, int index)
{
	rt::setOpIndex(index); Rng r(op.seed); uint32_t count = r.chance(0.5) ? 1u << r.below(11) : 1 + (uint32_t)r.logUniform(100000), first = (uint32_t)r.below(count); double rough = r.chance(0.3) ? r.unit() * r.unit() : r.unit(); if (r.chance(0.1)) rough = r.chance(0.3) ? 0 : std::pow(10, r.real(-5, -1)); if (r.chance(0.05)) rough = 1; float a = (float)rough; rough = a;
	if (op.lane) rt::count(P_PARALLEL);
	enum { B = 16 }; float out[B][8] = {}; uint32_t m = std::min<uint32_t>(B, count - first); float ior = (float)r.real(1, 3), refl = 0;
	if (callSut(&op, [&] { float inv = 1.0f / (float)count; for (uint32_t i = 0; i < m; i++) { auto u = brdf::hammersley(first + i, inv); auto h = brdf::importanceSamplingNdfDggx(u, a); out[i][0] = u.x; out[i][1] = u.y; out[i][2] = h.getX(); out[i][3] = h.getY(); out[i][4] = h.getZ(); out[i][5] = brdf::ggx(h.getZ(), a); } refl = brdf::iorToReflectance(ior); }) != OK) return;
	rt::count(P_SAMPLES, m); rt::count(rt::M_CHECKS); rt::nontrivial(); if (rough < 1e-3) rt::count(P_EXTREME);
	for (uint32_t i = 0; i < m; i++)
	{
		double ux = (double)(first + i) / count, uy = 0, f = 0.5; for (uint32_t b = first + i; b; b >>= 1, f *= 0.5) if (b & 1) uy += f;
		float* o = out[i]; auto bad = [&](const char* what, double got, double want, double tol) { if (!(std::fabs(got - want) <= tol)) rt::violate("sample-wrong", "sample %u of %u at roughness %.6g: %s is %.7g instead of %.7g (allowed %.3g)", first + i, count, rough, what, got, want, tol); };
		bad("first coordinate", o[0], ux, 3e-7); bad("second coordinate", o[1], uy, 3e-7);
		double den = 1 - (1 - rough * rough) * (double)o[1], c2 = den > 0 ? (1 - (double)o[1]) / den : 1, de = 5e-7 / std::max(den, 1e-12), e2 = std::min(1.0, de + 1e-6);
		double lo = std::sqrt(std::max(0.0, c2 - e2)), hi = std::sqrt(std::min(1.0, c2 + e2)), slo = std::sqrt(std::max(0.0, 1 - c2 - e2)), shi = std::sqrt(std::min(1.0, 1 - c2 + e2)), l = std::sqrt((double)o[2] * o[2] + (double)o[3] * o[3]);
		if (!(o[4] >= lo - 1e-6 && o[4] <= hi + 1e-6)) bad("height above the surface", o[4], (lo + hi) / 2, (hi - lo) / 2 + 1e-6);
		if (!(l >= slo - 2e-6 && l <= shi + 2e-6)) bad("distance from the normal", l, (slo + shi) / 2, (shi - slo) / 2 + 2e-6);
		double phi = 2 * PI * (double)o[0]; bad("direction around the normal", o[2] * std::sin(phi) - o[3] * std::cos(phi), 0, 6e-6); if (!(o[2] * std::cos(phi) + o[3] * std::sin(phi) >= -6e-6)) bad("direction around the normal", -1, 1, 0);
		double z = o[4], ff = (rough * rough - 1) * z * z + 1; if (ff > 1e-4) { double g = rough * rough / (PI * ff * ff); bad("distribution", o[5], g, g * (2e-5 + 3e-6 / ff)); }
	}
	double f0 = ((double)ior - 1) / ((double)ior + 1), want = std::fabs(f0) / 0.4; if (!(std::fabs(refl - want) <= 2e-6 + 1e-6 * want)) rt::violate("sample-wrong", "index of refraction %.6g has reflectance %.7g instead of %.7g", ior, refl, want);
}
void one(const Op& op, int i)
{
	switch (op.kind) { case BAKE: bake(op, i); break; case FINISH: finish(op, i); break; case TURN: turn(op, i); break; case TEXELS: texels(op, i); break; case DERING: otherLight(op, i); break; default: sample(op, i); }
	if (!op.lane) rt::recordState((uint64_t)op.kind * 64 + (uint64_t)W->n * 4 + W->finished);
}
struct Par { const Plan* p; size_t from, to; };
void laneBody(void* ctx, int lane) { Par* g = (Par*)ctx; for (size_t i = g->from; i < g->to; i++) if (g->p->ops[i].lane - 1 == lane) one(g->p->ops[i], (int)i); }
void exec(const Plan& plan)
{
	World* w = W = new World(); Rng r(plan.seed ^ 0x55);
	w->n = 2 + (int)r.below(r.chance(0.7) ? 4 : MAXN - 1); int per = 1 + (int)r.below((uint64_t)std::min(w->n, MAXUNIT / 6)); w->units = 6 * per; w->axis = unit(r); w->rate = r.real(-6, 6);
	if (r.chance(0.3)) { int k = (int)r.below(3); w->axis = {k == 0 ? 1. : 0., k == 1 ? 1. : 0., k == 2 ? 1. : 0.}; }
	w->map = (f32x4*)rt::bufAlloc(16 * 6 * w->n * w->n, 16); w->parts = (Part*)rt::bufAlloc(sizeof(Part) * w->units, 16); memset((void*)w->parts, 0, sizeof(Part) * w->units);
	// sky: ambient light, lamps of any sharpness and brightness, sometimes symmetric about an axis or dark
	int style = (int)r.below(6), lamps = style == 0 ? 0 : 1 + (int)r.below(4); double amb[3], col[4][3], sharp[4]; V at[4];
	for (int c = 0; c < 3; c++) amb[c] = style == 5 && r.chance(0.3) ? 0 : r.chance(0.3) ? 0 : r.real(0, 2);
	for (int k = 0; k < lamps; k++) { at[k] = unit(r); sharp[k] = r.chance(0.5) ? r.real(1, 8) : r.real(8, 200); double p = r.chance(0.3) ? 500 : 3; for (int c = 0; c < 3; c++) col[k][c] = r.chance(0.2) ? 0 : r.real(0, p); if (style == 1) { int q = (int)r.below(3); at[k] = {q == 0 ? 1. : 0., q == 1 ? (r.chance(0.5) ? 1. : -1.) : 0., q == 2 ? 1. : 0.}; rt::count(P_SYMMETRIC); } }
	if (style == 5 && r.chance(0.3)) lamps = 0, amb[0] = amb[1] = amb[2] = 0;
	for (int i = 0; i < 9; i++) for (int c = 0; c < 3; c++) w->ref[i][c] = w->mag[i][c] = 0;
	for (int f = 0; f < 6; f++) for (int y = 0; y < w->n; y++) for (int x = 0; x < w->n; x++)
	{
		double s = (x + 0.5) / w->n * 2 - 1, t = (y + 0.5) / w->n * 2 - 1, a = solid(s, t, 1.0 / w->n); V d = texelDir(f, s, t); float q[4] = {0, 0, 0, 1};
		for (int c = 0; c < 3; c++) { double v = amb[c]; for (int k = 0; k < lamps; k++) v += col[k][c] * std::exp(sharp[k] * (dot(d, at[k]) - 1)); q[c] = (float)v; }
		memcpy((void*)(w->map + (f * w->n + y) * w->n + x), q, 16);
		double k[9] = {1, -d.y, d.z, -d.x, 6 * d.x * d.y, -3 * d.y * d.z, 0.5 * (3 * d.z * d.z - 1), -3 * d.x * d.z, 3 * (d.x * d.x - d.y * d.y)};
		for (int i = 0; i < 9; i++) for (int c = 0; c < 3; c++) { w->ref[i][c] += q[c] * a * k[i]; w->mag[i][c] += q[c] * a * (std::fabs(k[i]) + 0.05); }
	}
	rt::protectConst(w->map, true);
	for (size_t i = 0; i < plan.ops.size();)
	{
		if (plan.ops[i].lane <= 0) { one(plan.ops[i], (int)i); i++; continue; }
		Par g{&plan, i, i}; int lanes = 0; while (g.to < plan.ops.size() && plan.ops[g.to].lane > 0) { lanes = std::max(lanes, plan.ops[g.to].lane); g.to++; }
		rt::runParallel(std::min<int>(lanes, LANES), laneBody, &g); i = g.to;
	}
}
void gen(Plan& p, Rng& r)
{
	p.knobs["heap_reuse"] = r.chance(0.5); p.knobs["heap_skew"] = r.chance(0.5); p.knobs["heap_garbage"] = (int64_t)(r.next() >> 2);
	double cr = r.chance(0.4) ? 0 : r.real(0.1, 0.5); bool fpu = r.chance(0.2); double cf = r.chance(0.3) ? 0 : r.real(0.1, 0.6); int64_t nominal = (int64_t)(1e9 / r.real(5, 240));
	auto make = [&](int lane, int kind) {
		Op q; q.lane = lane; q.kind = kind; q.seed = r.next() >> 1; q.a[0] = (int64_t)r.below(MAXUNIT); if (kind == BAKE && r.chance(cr)) q.a[1] = 1 + (int64_t)r.below(2);
		if (kind == TURN)
		{
			q.a[0] = nominal; q.a[1] = 0; q.a[2] = (int64_t)r.below(2);
			if (r.chance(cf)) switch (r.below(5)) { case 0: q.a[0] = (int64_t)(r.real(0.3, 5) * 1e9); q.a[1] = 2; break; case 1: q.a[0] = 0; q.a[1] = 4; break; case 2: q.a[0] = 1 + (int64_t)r.logUniform(1000000); q.a[1] = 3; break; default: q.a[0] = (int64_t)(nominal * r.real(0.3, 3)); q.a[1] = 1; break; }
		}
		if (fpu && kind != BAKE && kind != FINISH && r.chance(0.5)) q.fpu = 1 + (int)r.below(5);
		if (lane) { int np = (int)r.below(6); for (int j = 0; j < np; j++) q.pre.push_back({(uint32_t)r.logUniform(4000), (uint8_t)r.below(8), (uint8_t)r.chance(0.15)}); std::sort(q.pre.begin(), q.pre.end(), [](const rt::Pre& x, const rt::Pre& y) { return x.step < y.step; }); }
		p.ops.push_back(q);
	};
	int n = 2 + (int)r.below(8);
	for (int i = 0; i < n; i++)
	{
		if (r.chance(0.35)) { int lanes = 2 + (int)r.below(3); int64_t u = (int64_t)r.below(MAXUNIT); for (int l = 1; l <= lanes; l++) { make(l, r.chance(0.7) ? BAKE : r.chance(0.4) ? SAMPLE : r.chance(0.5) ? DERING : TEXELS); p.ops.back().a[0] = u; } continue; }
		switch (r.below(8)) { case 6: case 7: { int k = 1 + (int)r.below(6); for (int j = 0; j < k; j++) make(0, DERING); break; } case 0: case 1: make(0, BAKE); break; case 2: { int k = 1 + (int)r.below(20); for (int j = 0; j < k; j++) make(0, TURN); break; } case 3: make(0, FINISH); break; case 4: make(0, SAMPLE); break; default: make(0, TEXELS); }
	}
	make(0, FINISH); int k = (int)r.below(12); for (int j = 0; j < k; j++) make(0, TURN);
}
}

const sim::Scenario sim::scenario = {"bake", gen, exec, opName, {"worker_died", "half_written_result", "unit_redone", "on_parallel_threads", "deringed", "left_almost_as_it_was", "turned_frames", "samples", "finished_bakes", "dark_skies", "symmetric_skies", "very_smooth", "turned_in_place", "other_light", "strongest_window"}, 20,
	{"unit_or_dt", "crash_or_clock", "in_place", "-"}};
