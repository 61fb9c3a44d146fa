// Scenario "image" (C15): a picture of 8-bit colours in simulated storage that an application opens, converts, edits and saves again and again.
// Every pass goes through the library's conversions (normalised, linear, XYZ, Yxy, binary, hexadecimal text) tile by tile, on one or several
// simulated threads, with crashes between tiles, torn tile writes redone from a journal, refused allocations and floating-point modes.
// A pass that changes nothing must leave every pixel as it was however often it is made; edits are compared with double-precision formulas.
#include "common.h"
#include "math/color.hpp"
#include "math/color-space.hpp"
#include <map>

using namespace math;
using sim::Op; using sim::Plan; using sim::Rng;

namespace
{
enum Kind { PASS, FADE, EXPOSE, MIX, TINT, MEASURE, PALETTE, NKINDS };
const char* opName(int k) { static const char* n[] = {"convert_and_back", "fade", "expose", "mix", "tint", "measure", "palette"}; return n[(unsigned)k % NKINDS]; }
enum { P_CRASH = rt::P_FIRST, P_TORN, P_REDONE, P_OOM, P_PARALLEL, P_UNDECIDED, P_BLACK, P_TEXT, P_YXY, P_EDIT, P_PALETTE, P_GENERATIONS };
enum { N = 64, TILES = 8, PER = N / TILES, LANES = 4, PATHS = 14 };
const char* pathName[PATHS] = {"f32x4", "float4", "float3", "float2", "setNorm", "linear", "XYZ", "Yxy", "uint32", "hex8", "hex6", "XYZ and Yxy", "linear Yxy", "linear f32x4"};

struct Px { uint8_t c[4]; };
struct World { Px model[N]; Color* disk; Color* other; Px otherModel[N]; uint64_t gens = 0; };
World* W;
double toLin(double v) { return v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); }
double toSrgb(double v) { return v <= 0.0031308 ? v * 12.92 : 1.055 * std::pow(v, 1 / 2.4) - 0.055; }
double lev(double v) { return std::min(1.0, std::max(0.0, v)) * 255.0; }
Px px(Color c) { return {{c.r, c.g, c.b, c.a}}; }
void lum(const double* rgb, double* xyz)
{
	static const double m[3][3] = {{0.4124564, 0.3575761, 0.1804375}, {0.2126729, 0.7151522, 0.0721750}, {0.0193339, 0.1191920, 0.9503041}};
	for (int i = 0; i < 3; i++) xyz[i] = m[i][0] * rgb[0] + m[i][1] * rgb[1] + m[i][2] * rgb[2];
}

// library code only: one pixel through a conversion and back
Color convert(Color c, int path)
{
	switch (path)
	{
	case 0: return Color((f32x4)c);
	case 1: return Color((float4)c);
	case 2: { Color r((float3)c); r.a = c.a; return r; }
	case 3: { Color r((float2)c); r.b = c.b; r.a = c.a; return r; }
	case 4: { Color r; r.setNormR(c.getNormR()); r.setNormG(c.getNormG()); r.setNormB(c.getNormB()); r.setNormA(c.getNormA()); return r; }
	case 5: return Color::fromLinear(c.toLinear());
	case 6: { auto l = c.toLinear(); auto x = xyzToRgb(rgbToXyz(l)); x.setW(l.getW()); return Color::fromLinear(x); }
	case 7: { auto l = c.toLinear(); auto x = yxyToRgb(rgbToYxy(l)); x.setW(l.getW()); return Color::fromLinear(x); }
	case 8: return Color((uint32)c);
	case 9: return Color(c.toHex4());
	case 10: { Color r(c.toHex3()); r.a = c.a; return r; }
	case 11: { auto l = c.toLinear(); auto x = xyzToRgb(yxyToXyz(xyzToYxy(rgbToXyz(l)))); x.setW(l.getW()); return Color::fromLinear(x); }
	case 12: { auto l = srgbToRgb((f32x4)c); auto x = yxyToRgb(rgbToYxy(l)); return Color(f32x4(rgbToSrgb(x), l.getW())); }
	default: { f32x4 v = srgbToRgb((f32x4)c); return Color(rgbToSrgb(v)); }
	}
}
bool exact(const Px& a, const Px& b) { return !memcmp(a.c, b.c, 4); }

// processes one tile into out; returns false when it could not (out of memory three times)
bool work(const Op& op, int tile, Color* out)
{
	World& w = *W; int path = (int)((uint64_t)op.a[1] % PATHS); double v = (double)op.a[2] * 1e-6; const Color* in = w.disk + tile * PER; const Color* in2 = w.other + tile * PER; int form = (int)((uint64_t)op.a[1] % 4);
	for (int attempt = 0; attempt < 3; attempt++)
	{
		Op q = op; if (attempt) q.fmode = 0;
		Outcome r = callSut(&q, [&] {
			for (int i = 0; i < PER; i++) switch (op.kind)
			{
			case PASS: out[i] = convert(in[i], path); break;
			case FADE: out[i] = in[i]; switch (form) { case 0: out[i].setNormA((float)v); break; case 1: out[i].setNormR((float)v); break; case 2: out[i].setNormG((float)v); break; default: out[i].setNormB((float)v); } break;
			case EXPOSE: { auto l = in[i].toLinear(); auto e = l * (float)v; e.setW(l.getW()); out[i] = Color::fromLinear(e); break; }
			case MIX: { auto a = in[i].toLinear(), b = in2[i].toLinear(); out[i] = Color::fromLinear(lerp(a, b, (float)v)); break; }
			default: { float4 t(1.0f, (float)v, 0.5f, 1.0f); out[i] = form & 1 ? Color((float4)in[i] * t) : Color((f32x4)in[i] * f32x4(1.0f, (float)v, 0.5f, 1.0f)); break; }
			}
		});
		if (r == OK) return true;
		rt::count(P_OOM);
	}
	return false;
}
// what the pixel must be afterwards, as a real number of levels per channel
void want(const Op& op, const Px& a, const Px& b, double* o)
{
	double v = (double)(float)((double)op.a[2] * 1e-6); int form = (int)((uint64_t)op.a[1] % 4);
	for (int k = 0; k < 4; k++) { double x = a.c[k] / 255.0, y = b.c[k] / 255.0; switch (op.kind)
	{
	case FADE: { static const int ch[] = {3, 0, 1, 2}; o[k] = ch[form] == k ? lev(v) : a.c[k]; break; }
	case EXPOSE: o[k] = k == 3 ? a.c[k] : lev(toSrgb(toLin(x) * v)); break;
	case MIX: o[k] = k == 3 ? lev(x + (y - x) * v) : lev(toSrgb(toLin(x) + (toLin(y) - toLin(x)) * v)); break;
	case TINT: { const double t[] = {1, v, 0.5, 1}; o[k] = lev(x * t[k]); break; }
	default: o[k] = a.c[k];
	} }
}
void check(const Op& op, int tile, const Color* out, Px* next)
{
	World& w = *W;
	for (int i = 0; i < PER; i++)
	{
		const Px &a = w.model[tile * PER + i], &b = w.otherModel[tile * PER + i]; Px g = px(out[i]); double o[4]; want(op, a, b, o); next[i] = g; rt::count(rt::M_CHECKS);
		if (a.c[0] + a.c[1] + a.c[2] == 0) rt::count(P_BLACK);
		for (int k = 0; k < 4; k++)
		{
			double e = o[k] - std::floor(o[k]) - 0.5, m = op.kind == EXPOSE || op.kind == MIX ? 0.05 : 2e-3; int lo = (int)std::floor(o[k] + 0.5), hi = lo;
			if (op.kind != PASS && std::fabs(e) < m) { lo = (int)std::floor(o[k]); hi = lo + 1; rt::count(P_UNDECIDED); }
			if (g.c[k] < lo || g.c[k] > hi) rt::violate(op.kind == PASS ? "pixel-drifted" : "edit-wrong", "%s %s: pixel (%d %d %d %d) became (%d %d %d %d), channel %d should be %.4f", opName(op.kind), op.kind == PASS ? pathName[(uint64_t)op.a[1] % PATHS] : "",
				a.c[0], a.c[1], a.c[2], a.c[3], g.c[0], g.c[1], g.c[2], g.c[3], k, o[k]);
		}
	}
	rt::nontrivial();
}
Color* newTile() { return (Color*)rt::bufAlloc(sizeof(Color) * PER, alignof(Color)); }
void tile(const Op& op, int t, int torn)
{
	World& w = *W; Color* out = newTile();
	if (work(op, t, out))
	{
		Px next[PER], again[PER]; check(op, t, out, next);
		if (torn >= 0) // the write of this tile tears and the process dies: the journal still has the tile as it was, and the tile is redone
		{
			rt::count(P_CRASH); rt::count(P_TORN); Color journal[PER]; memcpy((void*)journal, w.disk + t * PER, sizeof journal);
			memcpy((void*)(w.disk + t * PER), out, (size_t)torn); rt::bufFree(out); out = newTile(); memset((void*)out, 0xA5, sizeof(Color) * PER);
			memcpy((void*)(w.disk + t * PER), journal, sizeof journal);
			Op q = op; q.fmode = 0; if (!work(q, t, out)) rt::harnessError("redo failed");
			check(op, t, out, again); rt::count(P_REDONE);
			if (op.fpu == 0 && memcmp(again, next, sizeof next)) rt::violate("redo-differs", "%s: redoing a tile after a crash gave other pixels", opName(op.kind));
		}
		memcpy((void*)(w.disk + t * PER), out, sizeof(Color) * PER); for (int i = 0; i < PER; i++) w.model[t * PER + i] = px(out[i]);
		if (!op.lane) rt::recordBytes(out, sizeof(Color) * PER);
	}
	rt::bufFree(out);
}
void measure(const Op& op)
{
	World& w = *W; Rng r(op.seed); int i = (int)r.below(N); float lin[4], xyz[4], yxy[4], back[4], lab[4]; Px a = w.model[i];
	if (callSut(&op, [&] { auto l = w.disk[i].toLinear(), x = rgbToXyz(l), y = rgbToYxy(l), b = rgbToSrgb(l), z = xyzToYxy(x); memcpy(lin, (void*)&l, 16); memcpy(xyz, (void*)&x, 16); memcpy(yxy, (void*)&y, 16); memcpy(back, (void*)&b, 16); memcpy(lab, (void*)&z, 16); }) != OK) return;
	double c[3], x[3], s; for (int k = 0; k < 3; k++) c[k] = toLin(a.c[k] / 255.0); lum(c, x); s = x[0] + x[1] + x[2]; rt::count(rt::M_CHECKS); rt::nontrivial();
	double yy[3] = {x[1], s > 0 ? x[0] / s : 0, s > 0 ? x[1] / s : 0};
	for (int k = 0; k < 3; k++)
	{
		auto bad = [&](const char* n, double got, double w2, double tol) { if (!(std::fabs(got - w2) <= tol)) rt::violate("measure-wrong", "%s component %d of (%d %d %d) is %.7g instead of %.7g", n, k, a.c[0], a.c[1], a.c[2], got, w2); };
		bad("linear", lin[k], c[k], 2e-5); bad("XYZ", xyz[k], x[k], 4e-5); bad("sRGB", back[k], a.c[k] / 255.0, 1e-4);
		if (s > 1e-4) { bad("Yxy", yxy[k], yy[k], 1e-4); bad("Yxy of XYZ", lab[k], yy[k], 1e-4); }
	}
	if (!(std::fabs(lin[3] - a.c[3] / 255.0) <= 1e-6) || !(std::fabs(back[3] - a.c[3] / 255.0) <= 1e-6)) rt::violate("measure-wrong", "alpha of the linear color is %.7g instead of %.7g", lin[3], a.c[3] / 255.0);
}
struct Less { bool operator()(const Color& a, const Color& b) const { return isBinaryLess(a, b); } };
void palette(const Op& op)
{
	World& w = *W; typedef std::map<Color, uint32_t, Less> Map; Map* m = (Map*)rt::bufAlloc(sizeof(Map), alignof(Map)); callSut(nullptr, [&] { new (m) Map(); });
	int done = 0; // inserting can run out of memory: the palette stays usable and the pixel is counted again
	for (int attempt = 0; attempt < 3 && done < N; attempt++)
	{
		Op q = op; if (attempt) q.fmode = 0;
		Outcome r = callSut(&q, [&] { while (done < N) { (*m)[w.disk[done]]++; done++; } }); if (r == OOM) rt::count(P_OOM);
	}
	if (done == N)
	{
		std::map<uint32_t, uint32_t> ref; for (int i = 0; i < N; i++) { uint32_t k; memcpy(&k, w.model[i].c, 4); ref[k]++; }
		std::vector<std::pair<uint32_t, uint32_t>> got; got.reserve(N); uint32_t found = 0, n = 0; std::pair<uint32_t, uint32_t> buf[N];
		callSut(nullptr, [&] { for (auto& e : *m) { uint32_t k = (uint32_t)e.first; if (n < N) buf[n] = {k, e.second}; n++; } for (int i = 0; i < N; i++) { auto f = m->find(Color(w.disk[i].r, w.disk[i].g, w.disk[i].b, w.disk[i].a)); if (f != m->end() && f->first == w.disk[i]) found++; } });
		bool bad = n != ref.size() || found != N; if (!bad) { n = 0; for (auto& e : ref) { if (buf[n] != std::make_pair(e.first, e.second)) bad = true; n++; } }
		rt::count(rt::M_CHECKS); rt::nontrivial(); rt::count(P_PALETTE);
		if (bad) rt::violate("palette-wrong", "a palette of %zu colors has %u entries, %u of %d pixels are found", ref.size(), n, found, (int)N);
	}
	callSut(nullptr, [&] { m->~Map(); }); rt::bufFree(m);
}
void one(const Op& op, int index)
{
	World& w = *W; rt::setOpIndex(index); rt::simTime(1000000);
	if (op.lane) { rt::count(P_PARALLEL); tile(op, (op.lane - 1) * 2 + (int)((uint64_t)op.a[3] & 1), -1); return; }
	if (op.kind == MEASURE) { measure(op); return; }
	if (op.kind == PALETTE) { palette(op); return; }
	if (op.kind == PASS) { int p = (int)((uint64_t)op.a[1] % PATHS); if (p == 7 || p == 11 || p == 12) rt::count(P_YXY); if (p == 9 || p == 10) rt::count(P_TEXT); } else rt::count(P_EDIT);
	int stop = op.a[4] > 0 ? (int)(op.a[4] - 1) % TILES : -1;
	for (int t = 0; t < TILES; t++) tile(op, t, t == stop ? (int)((uint64_t)op.a[5] % (PER * 4 + 1)) : -1);
	w.gens++; rt::count(P_GENERATIONS);
	for (int i = 0; i < N; i++) if (!exact(px(w.disk[i]), w.model[i])) rt::harnessError("model differs");
	rt::recordState((uint64_t)op.kind * 64 + (uint64_t)op.a[1] % PATHS);
}
struct Par { const Plan* p; size_t from, to; };
void laneBody(void* ctx, int lane) { Par* g = (Par*)ctx; for (size_t i = g->from; i < g->to; i++) if (g->p->ops[i].lane - 1 == lane) one(g->p->ops[i], (int)i); }
void exec(const Plan& plan)
{
	World* w = W = new World(); Rng r(plan.seed ^ 0x77);
	w->disk = (Color*)rt::bufAlloc(sizeof(Color) * N, 4); w->other = (Color*)rt::bufAlloc(sizeof(Color) * N, 4);
	int style = (int)r.below(4);
	auto paint = [&](Px* m, Color* d) { for (int i = 0; i < N; i++)
	{
		Px& p = m[i]; uint8_t base = (uint8_t)r.below(256);
		for (int k = 0; k < 4; k++) p.c[k] = style == 0 ? (uint8_t)r.below(256) : style == 1 ? (r.chance(0.5) ? 0 : 255) : style == 2 ? (uint8_t)r.below(14) : (k == 3 ? (uint8_t)(r.chance(0.7) ? 255 : 0) : base);
		if (r.chance(0.05)) p.c[0] = p.c[1] = p.c[2] = 0;
		memcpy((void*)(d + i), p.c, 4);
	} };
	paint(w->model, w->disk); paint(w->otherModel, w->other); rt::protectConst(w->other, true);
	for (size_t i = 0; i < plan.ops.size();)
	{
		if (plan.ops[i].lane <= 0) { one(plan.ops[i], (int)i); i++; continue; }
		Par g{&plan, i, i}; int lanes = 0; while (g.to < plan.ops.size() && plan.ops[g.to].lane > 0) { lanes = std::max(lanes, plan.ops[g.to].lane); g.to++; }
		rt::runParallel(std::min<int>(lanes, LANES), laneBody, &g);
		for (int k = 0; k < N; k++) if (!exact(px(w->disk[k]), w->model[k])) rt::violate("pixel-drifted", "a tile was changed by a thread that does not own it");
		i = g.to;
	}
}
void gen(Plan& p, Rng& r)
{
	p.knobs["heap_reuse"] = r.chance(0.5); p.knobs["heap_skew"] = r.chance(0.5); p.knobs["heap_garbage"] = (int64_t)(r.next() >> 2);
	int n = 2 + (int)r.below(14); double fr = r.chance(0.4) ? 0 : r.real(0.1, 0.5), cr = r.chance(0.4) ? 0 : r.real(0.1, 0.5); bool fpu = r.chance(0.25);
	auto make = [&](int lane) {
		static const int wt[] = {50, 9, 9, 9, 7, 6, 10}; Op q; q.lane = lane; q.kind = r.pick(wt); if (lane && (q.kind == MEASURE || q.kind == PALETTE)) q.kind = PASS;
		q.seed = r.next() >> 1; q.a[1] = (int64_t)r.below(PATHS * 4);
		switch (q.kind) { case EXPOSE: q.a[2] = (int64_t)(r.real(0, 3) * 1e6); break; default: q.a[2] = (int64_t)(r.real(-0.2, 1.2) * 1e6); if (r.chance(0.4)) q.a[2] = (int64_t)std::llround((double)r.below(256) / 255.0 * 1e6); }
		if (q.kind == MIX) q.a[2] = std::min<int64_t>(1000000, std::max<int64_t>(0, q.a[2]));
		q.a[3] = (int64_t)r.below(2);
		if (!lane && r.chance(cr)) { q.a[4] = 1 + (int64_t)r.below(TILES); q.a[5] = (int64_t)r.below(PER * 4 + 1); }
		if (r.chance(fr)) { q.fmode = r.chance(0.7) ? rt::FM_NTH : rt::FM_FROM; q.fn = 1 + (int64_t)r.below(q.kind == PALETTE ? 40 : 12); }
		if (fpu && r.chance(0.5)) q.fpu = 1 + (int)r.below(5);
		if (lane) { int np = (int)r.below(6); for (int j = 0; j < np; j++) q.pre.push_back({(uint32_t)r.logUniform(1500), (uint8_t)r.below(8), (uint8_t)r.chance(0.15)}); std::sort(q.pre.begin(), q.pre.end(), [](const rt::Pre& x, const rt::Pre& y) { return x.step < y.step; }); }
		p.ops.push_back(q);
	};
	for (int i = 0; i < n; i++) if (r.chance(0.2)) { int lanes = 2 + (int)r.below(3); for (int l = 1; l <= lanes; l++) make(l); } else make(0);
}
}

const sim::Scenario sim::scenario = {"image", gen, exec, opName, {"process_crash", "torn_tile_write", "tile_redone", "out_of_memory_and_retried", "tiles_on_parallel_threads", "undecided_by_rounding", "black_pixels", "passes_through_text", "passes_through_Yxy", "edits", "palettes", "generations"}, 20,
	{"-", "path", "value", "tile", "crash_at_tile", "torn_after_bytes"}};
