// Scenario "pick" (C14): an application loop under a simulated clock in which boxes and a triangle mesh move, two BVHs are rebuilt (possibly
// out of memory, then retried) and the application asks them what a ray hits, what a sphere or box touches, what holds a point, which triangle
// is nearest, which mesh triangles a voxel overlaps and where the ground is, using the library's geometry functions on nodes and primitives.
// Queries can be aborted and repeated; several threads can ask at once, each walking the tree itself. Every answer is compared with a
// brute-force double-precision reference over all objects, as positioned by the application and not by the library.
#include "common.h"
#include "math/bvh.hpp"
#include "math/sphere.hpp"
#include "math/line.hpp"
#include "math/ray.hpp"
#include "math/triangle.hpp"
#include "math/plane.hpp"
#include <stack>

using namespace math;
using sim::Op; using sim::Plan; using sim::Rng;

namespace
{
enum Kind { FRAME, PICK, SIGHT, TOUCH_SPHERE, TOUCH_BOX, HOLDS, WITHIN, NEAREST, VOXEL, GROUND, SHAPES, MOVES, NKINDS };
const char* opName(int k) { static const char* n[] = {"frame", "pick", "line_of_sight", "touch_sphere", "touch_box", "holds_point", "within_region", "nearest_triangle", "voxel", "ground", "shapes", "moved_shapes"}; return n[(unsigned)k % NKINDS]; }
enum { STEADY, JITTER, STALL, BURST, ZERO };
enum { P_HIT = rt::P_FIRST, P_MISS, P_AXIS_RAY, P_INSIDE, P_UNDECIDED, P_REBUILD_OOM, P_QUERY_OOM, P_ABORTED, P_PARALLEL, P_NO_BVH, P_EDGE, P_FACE, P_OVERLAP, P_LATTICE, P_EMPTY_REGION, P_EXACT, P_TOUCH, P_NEAR_MISS };
enum { MAXBOX = 40, MAXTRI = 40, LANES = 4 };

struct V { double x, y, z; };
V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
V operator*(V a, double s) { return {a.x * s, a.y * s, a.z * s}; }
double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
double len(V a) { return std::sqrt(dot(a, a)); }
f32x4 f(V v) { return f32x4((float)v.x, (float)v.y, (float)v.z, 0.0f); }
V rnd(V v) { return {(float)v.x, (float)v.y, (float)v.z}; }
V d3(f32x4 v) { float a[4]; memcpy(a, (void*)&v, 16); return {a[0], a[1], a[2]}; }
double comp(V v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
V unit(Rng& r) { for (;;) { V v{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)}; double l = len(v); if (l > 0.2 && l < 1) return v * (1 / l); } }

struct Box { V base, vel, ext, lo, hi; int how; };
struct World
{
	Box box[MAXBOX]; int nbox; V tri[MAXTRI][3], vert[MAXTRI * 3], vbase[MAXTRI * 3], vvel; uint32_t idx[MAXTRI * 3]; int ntri, nvert, stride, isize; bool lattice; double size;
	double t = 0; int frames = 0;
	Bvh* bvh; Bvh* mesh; Aabb* boxes; uint8_t* vertices; uint8_t* indices; bool current = false, meshCurrent = false; f32x4* centroids; bool useCentroids;
};
World* W;
double snap(double v) { return W->lattice ? std::round(v) : v; }
V snap(V v) { return rnd({snap(v.x), snap(v.y), snap(v.z)}); }

//---------------------------------------------------------------------------------------------------------------------
// double-precision references
double boxDist(V lo, V hi, V p) { double s = 0; for (int i = 0; i < 3; i++) { double c = comp(p, i), a = comp(lo, i) - c, b = c - comp(hi, i), d = std::max({a, b, 0.0}); s += d * d; } return std::sqrt(s); }
// how far inside (positive) or outside (negative, per axis) a point is
double boxDepth(V lo, V hi, V p) { double m = 1e300; for (int i = 0; i < 3; i++) m = std::min({m, comp(p, i) - comp(lo, i), comp(hi, i) - comp(p, i)}); return m; }
double boxOverlap(V alo, V ahi, V blo, V bhi) { double m = 1e300; for (int i = 0; i < 3; i++) m = std::min({m, comp(ahi, i) - comp(blo, i), comp(bhi, i) - comp(alo, i)}); return m; }
bool slab(V lo, V hi, V o, V d, double grow, double& t0, double& t1)
{
	t0 = -1e300; t1 = 1e300;
	for (int i = 0; i < 3; i++)
	{
		double a = comp(lo, i) - grow - comp(o, i), b = comp(hi, i) + grow - comp(o, i), c = comp(d, i);
		if (a > b) return false;
		if (c == 0) { if (a > 0 || b < 0) return false; continue; }
		a /= c; b /= c; if (a > b) std::swap(a, b);
		t0 = std::max(t0, a); t1 = std::min(t1, b);
	}
	return t0 <= t1 && t1 >= 0;
}
V segClosest(V a, V b, V p) { V d = b - a; double t = dot(p - a, d) / dot(d, d); return a + d * std::min(1.0, std::max(0.0, t)); }
V triClosest(const V* t, V p)
{
	V n = cross(t[1] - t[0], t[2] - t[0]); V q = p - n * (dot(p - t[0], n) / dot(n, n));
	bool in = true; for (int i = 0; i < 3; i++) if (dot(cross(t[(i + 1) % 3] - t[i], q - t[i]), n) < 0) in = false;
	if (in) return q;
	V best{}; double bd = 1e300; for (int i = 0; i < 3; i++) { V c = segClosest(t[i], t[(i + 1) % 3], p); double l = len(p - c); if (l < bd) { bd = l; best = c; } }
	return best;
}
bool triInBox(const V* t, V lo, V hi) // is anything left of the triangle after clipping it to the box
{
	std::vector<V> poly{t[0], t[1], t[2]}, out;
	for (int i = 0; i < 3; i++) for (int s = 0; s < 2; s++)
	{
		auto side = [&](V p) { return s ? comp(hi, i) - comp(p, i) : comp(p, i) - comp(lo, i); };
		out.clear();
		for (size_t k = 0; k < poly.size(); k++)
		{
			V a = poly[k], b = poly[(k + 1) % poly.size()]; double da = side(a), db = side(b);
			if (da >= 0) out.push_back(a);
			if ((da > 0 && db < 0) || (da < 0 && db > 0)) out.push_back(a + (b - a) * (da / (da - db)));
		}
		poly.swap(out);
		if (poly.empty()) return false;
	}
	return true;
}

//---------------------------------------------------------------------------------------------------------------------
struct Budget { int left; };
void spend(Budget& b) { if (b.left > 0 && !--b.left) { rt::Outside o; rt::count(rt::F_CALLBACK_THROW); throw Abort{77}; } }

// the application's walk of a tree: the library's traversal, or its own loop over the nodes with its own stack
template<class N, class L> void walk(Bvh& bvh, bool own, Budget& b, N&& enter, L&& leaf)
{
	const uint32_t* prim = bvh.getPrimitives().data();
	if (!own)
	{
		bvh.traverse([&](const Bvh::Node& n) { spend(b); return enter(n); }, [&](uint32 first, uint32 m) { spend(b); for (uint32 i = 0; i < m; i++) leaf(prim[first + i]); });
		return;
	}
	auto& nodes = bvh.getNodes(); if (nodes.empty()) return;
	std::stack<uint32_t, std::vector<uint32_t>> todo; todo.push(0);
	while (!todo.empty())
	{
		auto& n = nodes[todo.top()]; todo.pop(); spend(b);
		if (!enter(n)) continue;
		if (n.isLeaf()) { for (uint32 i = 0; i < n.getPrimitiveCount(); i++) leaf(prim[n.getFirstPrimitive() + i]); }
		else { todo.push(n.getLeftNode() + 1); todo.push(n.getLeftNode()); }
	}
}
Triangle readTriangle(const World& w, uint32_t k)
{
	f32x4 p[3];
	for (int i = 0; i < 3; i++)
	{
		uint32_t v = w.isize == 2 ? ((const uint16_t*)w.indices)[k * 3 + i] : ((const uint32_t*)w.indices)[k * 3 + i];
		const float* q = (const float*)(w.vertices + (size_t)v * w.stride); p[i] = f32x4(q[0], q[1], q[2], 0.0f);
	}
	return Triangle(p[0], p[1], p[2]);
}

void frame(const Op& op, int index)
{
	World& w = *W; rt::setOpIndex(index); double dt = (double)op.a[0] * 1e-9; rt::simTime((uint64_t)op.a[0]); w.t += dt; w.frames++;
	static const int ctr[] = {0, rt::F_CLOCK_JITTER, rt::F_CLOCK_STALL, rt::F_CLOCK_BURST, rt::F_CLOCK_ZERO}; if (op.a[1] > 0 && op.a[1] < 5) rt::count(ctr[op.a[1]]);
	// positions wander inside the world
	auto bounce = [&](double v) { double s = w.size, u = std::fmod(std::fabs(v + s), 4 * s); return u <= 2 * s ? u - s : 3 * s - u; };
	Aabb root;
	for (int i = 0; i < w.nbox; i++)
	{
		Box& b = w.box[i]; V p = b.base + b.vel * w.t; p = snap(V{bounce(p.x), bounce(p.y), bounce(p.z)}); V e = b.ext; f32x4 ext;
		b.lo = p - e; b.hi = p + e; V lo = b.lo, hi = b.hi; int how = b.how;
		callSut(nullptr, [&] {
			Aabb& x = w.boxes[i];
			switch (how)
			{
			case 0: x = Aabb(f(lo), f(hi)); break;
			case 1: x.setExtent(f(e), f(p)); break;
			case 2: x.setSize(f(e * 2), f(p)); break;
			case 3: x.setExtent(f(e)); x.translate(f(p)); break;
			case 4: x = Aabb(f32x4(-0.5f, -0.5f, -0.5f), f32x4(0.5f, 0.5f, 0.5f)); x.scale(f(e * 2)); x += f(p); break;
			case 5: x = Aabb(f(p), f(p)); x.extend(f(lo)); x.extend(f(hi)); break;
			case 6: x = Aabb::full; x.shrink(Aabb(f(lo), f(hi))); break;
			case 7: if (!x.trySet(f(lo), f(hi))) x = Aabb(); break;
			case 8: x.setSize(f(e * 2)); x += f(p); break;
			case 9: x.set(f(lo), f(lo)); x.setMax(f(hi)); x.setMin(f(lo)); break;
			case 10: { Aabb half(f(e * -0.5), f(e * 0.5)); x = half * f32x4(2.0f, 2.0f, 2.0f) + f(p); break; }
			case 11: { Aabb twice(f(lo * 2), f(hi * 2)); x = twice / f32x4(2.0f, 2.0f, 2.0f); x -= f32x4::zero; break; }
			case 14: x.set(f(lo), f(hi)); break;
			case 12: x = Aabb::full; x.setMin(f(lo)); x.setMax(f(hi)); break;
			default: x = Aabb::one; x *= f(e * 2); x = x - f(p * -1.0); break;
			}
			if (i == 0) root = x; else root.extend(x);
			f32x4 pos; x.getExtent(ext, pos); w.centroids[i] = pos;
		});
		f32x4 gl, gh; callSut(nullptr, [&] { gl = w.boxes[i].getMin(); gh = w.boxes[i].getMax(); });
		double err = std::max(len(d3(gl) - lo), len(d3(gh) - hi)), tol = 1e-6 * (len(lo) + len(hi) + 1); rt::count(rt::M_CHECKS);
		{ double pe = len(d3(w.centroids[i]) - (lo + hi) * 0.5), ee = len(d3(ext) - (hi - lo) * 0.5); if (!(pe <= tol && ee <= tol)) rt::violate("box-wrong", "frame %d: the extent and position of box %d are off by %.4g and %.4g (allowed %.3g)", w.frames, i, ee, pe, tol); }
		if (!(err <= tol)) rt::violate("box-wrong", "frame %d: box %d made the %d. way has corners (%.7g %.7g %.7g) (%.7g %.7g %.7g) instead of (%.7g %.7g %.7g) (%.7g %.7g %.7g)", w.frames, i, how, d3(gl).x, d3(gl).y, d3(gl).z, d3(gh).x, d3(gh).y, d3(gh).z, lo.x, lo.y, lo.z, hi.x, hi.y, hi.z);
	}
	for (int i = 0; i < w.nvert; i++) { V p = w.vbase[i] + w.vvel * w.t; if (w.lattice) p = w.vbase[i] + V{std::round(w.vvel.x * w.t), std::round(w.vvel.y * w.t), std::round(w.vvel.z * w.t)}; w.vert[i] = rnd(p); float q[3] = {(float)p.x, (float)p.y, (float)p.z}; memcpy(w.vertices + (size_t)i * w.stride, q, 12); }
	Aabb mroot; V mlo{1e300, 1e300, 1e300}, mhi = mlo * -1.0;
	for (int i = 0; i < w.ntri; i++) for (int k = 0; k < 3; k++) { V p = w.vert[w.idx[i * 3 + k]]; w.tri[i][k] = p; mlo = {std::min(mlo.x, p.x), std::min(mlo.y, p.y), std::min(mlo.z, p.z)}; mhi = {std::max(mhi.x, p.x), std::max(mhi.y, p.y), std::max(mhi.z, p.z)}; }
	callSut(nullptr, [&] { mroot = Aabb(f(mlo), f(mhi)); });
	w.current = w.meshCurrent = false;
	for (int attempt = 0; attempt < 3; attempt++)
	{
		Op o = op; if (attempt) { o.fmode = 0; if (op.a[3] & 1) break; } // a frame without a tree
		Outcome r = callSut(&o, [&] {
			if (!w.current) { w.bvh->recreate(w.boxes, root, (uint32)w.nbox, w.useCentroids ? w.centroids : nullptr); w.current = true; }
			if (!w.meshCurrent) { w.mesh->recreate(w.vertices, w.indices, mroot, (uint32)w.ntri * 3, (uint32)w.stride, (uint32)w.isize); w.meshCurrent = true; } });
		if (r == OK) break;
		rt::count(P_REBUILD_OOM);
	}
	rt::record((uint64_t)w.current * 2 + w.meshCurrent);
}

V somePoint(Rng& r, double spread)
{
	World& w = *W;
	switch (r.below(5))
	{
	case 0: { Box& b = w.box[r.below((uint64_t)w.nbox)]; return snap(V{r.real(b.lo.x, b.hi.x), r.real(b.lo.y, b.hi.y), r.real(b.lo.z, b.hi.z)}); }
	case 1: { V* t = w.tri[r.below((uint64_t)w.ntri)]; double u = r.unit(), v = r.unit(); if (u + v > 1) { u = 1 - u; v = 1 - v; } return snap(t[0] + (t[1] - t[0]) * u + (t[2] - t[0]) * v + unit(r) * r.real(0, 2)); }
	case 2: { V* t = w.tri[r.below((uint64_t)w.ntri)]; int k = (int)r.below(3); return rnd(t[k] + (t[(k + 1) % 3] - t[k]) * (w.lattice ? (double)r.range(-1, 2) : r.real(-1, 2))); }
	default: return snap(V{r.real(-spread, spread), r.real(-spread, spread), r.real(-spread, spread)});
	}
}
bool ask(const Op& op, bool own, Budget& b, const std::function<void()>& start, const std::function<void()>& body)
{
	(void)own;
	for (int attempt = 0; attempt < 3; attempt++)
	{
		Op q = op; if (attempt) { q.fmode = 0; b.left = 0; }
		{ rt::Outside o; start(); }
		Outcome r = callSut(&q, [&] { body(); });
		if (r == OK) return true;
		if (r == OOM) rt::count(P_QUERY_OOM);
		if (r == ABORTED) rt::count(P_ABORTED);
	}
	return false;
}
// touching: coordinates are exact, and boxes include their faces
void compareSets(const char* what, const bool* got, const double* depth, double margin, int n, const char* of, bool touching = false)
{
	for (int i = 0; i < n; i++)
	{
		rt::count(rt::M_CHECKS);
		if (touching && depth[i] == 0) rt::count(P_TOUCH);
		else if (std::fabs(depth[i]) <= margin) { rt::count(P_UNDECIDED); continue; }
		bool want = depth[i] >= 0;
		if (got[i] != want) rt::violate("wrong-answer", "%s: %s %d is %s although it %s by %.6g", what, of, i, got[i] ? "reported" : "missing", want ? "is, " : "is not, ", std::fabs(depth[i]));
		rt::count(want ? P_HIT : P_MISS); rt::nontrivial();
	}
}

void query(const Op& op, int index)
{
	World& w = *W; rt::setOpIndex(index); if (!w.frames) return;
	Rng r(op.seed); bool own = op.lane > 0 || (op.a[2] & 1), tree = w.current, mtree = w.meshCurrent; Budget b{(int)op.a[3]};
	if (op.lane) rt::count(P_PARALLEL);
	if (w.lattice) rt::count(P_LATTICE);
	if (!tree) rt::count(P_NO_BVH);
	const double S = w.size; bool got[MAXBOX + MAXTRI] = {}; double depth[MAXBOX + MAXTRI];
	switch (op.kind)
	{
	case PICK: case SIGHT:
	{
		V o = somePoint(r, S), to = somePoint(r, S), dir = to - o;
		int axis = (int)r.below(6); // rays along an axis or in a coordinate plane are common: gravity probes, grid walks, sun at noon
		if (axis < 3) { V a{0, 0, 0}; (axis == 0 ? a.x : axis == 1 ? a.y : a.z) = r.chance(0.5) ? 1 : -1; dir = a; rt::count(P_AXIS_RAY); }
		else if (axis == 3) { int k = (int)r.below(3); (k == 0 ? dir.x : k == 1 ? dir.y : dir.z) = r.chance(0.5) ? 0.0 : -0.0; }
		if (len(dir) < 1e-3) dir = {0, -1, 0};
		if (op.kind == SIGHT) dir = to - o;
		if (len(dir) < 1e-3) return;
		dir = rnd(dir); double L = len(dir); V u = dir * (1 / L);
		int form = (int)((uint64_t)op.a[1] % 6); bool raw = (op.a[2] & 4) != 0; // ray given normalised, or as it is
		double unitLen = raw ? L : 1; // library distances are in lengths of the direction it was given
		double best = 0; int who = -1; bool any = false, behind = false; f32x4 gotDir; u32x4 gotParallel; bool sameRay = false;
		int j = (int)r.below((uint64_t)w.nbox); float2 full[2]; float first[2]; bool meets[2]; // everything the library says about one of the boxes
		bool exact = w.lattice && (dir.x != 0) + (dir.y != 0) + (dir.z != 0) == 1; // along the lattice: touching is decided too
		double limit = op.kind == SIGHT ? (raw ? 1 : L) : 1e30;
		bool ok = ask(op, own, b, [&] { best = limit; who = -1; any = false; behind = false; }, [&] {
			Ray ray(f(o), f(dir), !raw); gotDir = ray.getDirection();
			if (form == 5) { ray = Ray(); ray.origin = f(o); ray.setDirection(f(dir), !raw); }
			Ray inv(f(o), f32x4::one / ray.getDirection(), false); gotParallel = ray.getParallel();
			full[0] = raycast2(w.boxes[j], ray); full[1] = raycast2I(w.boxes[j], inv); first[0] = raycast1(w.boxes[j], ray); first[1] = raycast1I(w.boxes[j], inv); meets[0] = raycast(w.boxes[j], ray); meets[1] = raycastI(w.boxes[j], inv);
			{ Ray again; again.origin = ray.origin; again.setDirection(f(dir), !raw); Ray once(f(o), f(dir), !raw); sameRay = again == once && !(again != once); }
			auto near = [&](const Aabb& box) -> float { // first distance, or FLT_MAX
				switch (form)
				{
				case 0: { float2 t = raycast2(box, ray); return isAabbIntersected(t) ? t.x : FLT_MAX; }
				case 1: return raycast1(box, ray);
				case 2: return raycast1I(box, inv);
				case 3: { float2 t = raycast2I(box, inv); return isAabbIntersected(t) ? t.x : FLT_MAX; }
				default: { if (!raycast(box, ray)) { if (raycastI(box, inv)) behind = true; return FLT_MAX; } if (!raycastI(box, inv)) behind = true; return raycast1(box, ray); }
				} };
			auto one = [&](uint32_t i) { float t = near(w.boxes[i]); if (t == FLT_MAX) return; any = true; double at = std::max(t, 0.0f); if (at < best || (who < 0 && at <= best)) { best = at; who = (int)i; } };
			if (tree) walk(*w.bvh, own, b, [&](const Bvh::Node& n) { float t = near(n.aabb); return t != FLT_MAX && t <= best; }, one);
			else for (uint32_t i = 0; i < (uint32_t)w.nbox; i++) one(i);
		});
		if (!ok) return;
		{ double e = len(d3(gotDir) - (raw ? dir : u)); if (!(e <= 3e-7 * (raw ? 0 : 1) + 1e-12)) rt::violate("wrong-answer", "ray direction is off by %.3g", e); }
		if (behind) rt::violate("wrong-answer", "raycast and raycastI disagree about the same ray from (%.7g %.7g %.7g) along (%.7g %.7g %.7g)", o.x, o.y, o.z, dir.x, dir.y, dir.z);
		{ uint32_t q[4]; memcpy(q, (void*)&gotParallel, 16); for (int i = 0; i < 3; i++) if ((q[i] != 0) != (comp(dir, i) == 0)) rt::violate("wrong-answer", "a ray along (%.7g %.7g %.7g) says it is %sparallel to the planes across axis %d", dir.x, dir.y, dir.z, q[i] ? "" : "not ", i); }
		if (!sameRay) rt::violate("wrong-answer", "a ray made with its direction (%.7g %.7g %.7g) and one given it later are not equal", dir.x, dir.y, dir.z);
		double m = exact ? 0 : 2e-6 * (4 * S + L) + 1e-6, lo = 1e300, hi = 1e300;
		{
			double a0, a1, b0, b1; bool may = slab(w.box[j].lo, w.box[j].hi, o, u, m, a0, a1), must = slab(w.box[j].lo, w.box[j].hi, o, u, -m, b0, b1) && (exact || b1 > m); rt::count(rt::M_CHECKS);
			auto wrong = [&](const char* what, double v, double least, double most) { rt::violate("wrong-answer", "%s of box %d (%.7g %.7g %.7g) (%.7g %.7g %.7g) for the ray from (%.7g %.7g %.7g) along (%.7g %.7g %.7g) is %.7g instead of %.7g to %.7g", what, j, w.box[j].lo.x, w.box[j].lo.y, w.box[j].lo.z, w.box[j].hi.x, w.box[j].hi.y, w.box[j].hi.z, o.x, o.y, o.z, dir.x, dir.y, dir.z, v, least, most); };
			if (exact) rt::count(P_EXACT);
			for (int k = 0; k < 2; k++)
			{
				const char* what[] = {k ? "raycast2I entry" : "raycast2 entry", k ? "raycast2I exit" : "raycast2 exit", k ? "raycast1I" : "raycast1", k ? "raycastI" : "raycast"};
				if (!may)
				{
					if (full[k].x != FLT_MAX) wrong(what[0], full[k].x, FLT_MAX, FLT_MAX);
					if (full[k].y != -FLT_MAX) wrong(what[1], full[k].y, -FLT_MAX, -FLT_MAX);
					if (first[k] != FLT_MAX) wrong(what[2], first[k], FLT_MAX, FLT_MAX);
					if (meets[k]) wrong(what[3], 1, 0, 0);
				}
				else if (must)
				{
					auto in = [&](const char* n, double v, double least, double most) { double q = 4e-6 * (std::fabs(least) + std::fabs(most) + S) + 1e-6; v *= unitLen; if (!(v >= least - q && v <= most + q)) wrong(n, v, least, most); };
					in(what[0], full[k].x, a0, b0); in(what[1], full[k].y, b1, a1); in(what[2], first[k], a0, b0); if (!meets[k]) wrong(what[3], 0, 1, 1);
				}
			}
		}
		for (int i = 0; i < w.nbox; i++)
		{
			double t0, t1;
			if (slab(w.box[i].lo, w.box[i].hi, o, u, m, t0, t1)) lo = std::min(lo, std::max(0.0, t0)); // could be hit from here
			if (slab(w.box[i].lo, w.box[i].hi, o, u, -m, t0, t1) && (exact || t1 > m)) { hi = std::min(hi, std::max(0.0, t0)); if (t0 < 0) rt::count(P_INSIDE); } // must be hit by here
		}
		double at = best * unitLen, end = op.kind == SIGHT ? L : 1e300; rt::count(rt::M_CHECKS);
		if (who >= 0)
		{
			double t0, t1, slackT = 4e-6 * (at + S) + m;
			if (!slab(w.box[who].lo, w.box[who].hi, o, u, m, t0, t1) || at < std::max(0.0, t0) - slackT) rt::violate("wrong-answer", "%s: box %d is reported at %.7g along the ray from (%.7g %.7g %.7g) along (%.7g %.7g %.7g), the ray %s", opName(op.kind), who, at, o.x, o.y, o.z, dir.x, dir.y, dir.z, "meets it later or not at all");
			if (at > hi + slackT) rt::violate("wrong-answer", "%s: box %d is reported at %.7g along the ray from (%.7g %.7g %.7g) along (%.7g %.7g %.7g), another box is hit at %.7g (%s, form %d%s)", opName(op.kind), who, at, o.x, o.y, o.z, dir.x, dir.y, dir.z, hi, tree ? "tree" : "no tree", form, raw ? ", unnormalised" : "");
			rt::count(P_HIT); rt::nontrivial();
		}
		else
		{
			if (hi < end - m - 4e-6 * (end < 1e30 ? end : 0)) rt::violate("wrong-answer", "%s: nothing is reported on the ray from (%.7g %.7g %.7g) along (%.7g %.7g %.7g) although a box is hit at %.7g (%s, form %d%s)", opName(op.kind), o.x, o.y, o.z, dir.x, dir.y, dir.z, hi, tree ? "tree" : "no tree", form, raw ? ", unnormalised" : "");
			rt::count(P_MISS); if (lo > 1e200) rt::nontrivial();
		}
		rt::record((uint64_t)(who + 1)); rt::recordBytes(&best, 8);
		break;
	}
	case TOUCH_SPHERE:
	{
		V c = somePoint(r, S); double rad = (float)(r.chance(0.3) ? r.real(0.01, 1) : r.real(0.1, S * 0.7)); bool balls = op.a[2] & 2;
		for (int i = 0; i < w.nbox; i++) { V mid = (w.box[i].lo + w.box[i].hi) * 0.5; depth[i] = rad - (balls ? len(mid - c) - len(w.box[i].ext) : boxDist(w.box[i].lo, w.box[i].hi, c)); }
		bool same = true; bool heldC = false; V far{};
		bool ok = ask(op, own, b, [&] { memset(got, 0, sizeof got); }, [&] {
			Sphere s((float)rad, f(c));
			auto one = [&](uint32_t i) {
				if (!balls) { got[i] = isIntersected(s, w.boxes[i]); return; }
				Sphere o; o.setPosition(w.boxes[i].getPosition()); o.setRadius(length3(w.boxes[i].getExtent())); got[i] = isIntersected(s, o); if (isIntersected(o, s) != got[i]) same = false; };
			if (tree && !balls) walk(*w.bvh, own, b, [&](const Bvh::Node& n) { return isIntersected(s, n.aabb); }, one);
			else for (uint32_t i = 0; i < (uint32_t)w.nbox; i++) one(i);
			heldC = isInside(s, f(c)); far = d3(closestPoint(s, f(c + V{3, 4, 12})));
		});
		if (!ok) return;
		compareSets(balls ? "touch_sphere with spheres" : "touch_sphere", got, depth, 4e-6 * (S + rad + 1), w.nbox, "box");
		if (!same) rt::violate("wrong-answer", "sphere intersection depends on the order of the spheres");
		V want = c + V{3, 4, 12} * (rad / 13);
		if (!heldC || !(len(far - want) <= 4e-6 * (S + rad))) rt::violate("wrong-answer", "sphere of radius %.7g at (%.7g %.7g %.7g): its centre is %s, the point towards (3 4 12) is off by %.3g", rad, c.x, c.y, c.z, heldC ? "inside" : "outside", len(far - want));
		break;
	}
	case TOUCH_BOX: case WITHIN:
	{
		V c = somePoint(r, S), e = snap(V{r.real(0.05, S * 0.7), r.real(0.05, S * 0.7), r.real(0.05, S * 0.7)}); if (w.lattice) e = e + V{1, 1, 1}; if (r.chance(0.5)) e = e * 0.25; V lo = rnd(c - e), hi = rnd(c + e);
		for (int i = 0; i < w.nbox; i++)
		{
			if (op.kind == TOUCH_BOX) depth[i] = boxOverlap(lo, hi, w.box[i].lo, w.box[i].hi);
			else { depth[i] = 1e300; for (int k = 0; k < 3; k++) depth[i] = std::min({depth[i], comp(w.box[i].lo, k) - comp(lo, k), comp(hi, k) - comp(w.box[i].hi, k)}); }
			if (depth[i] > 1e3) depth[i] = 1;
		}
		bool same = true; int clipped[MAXBOX]; V clo[MAXBOX], chi[MAXBOX];
		bool ok = ask(op, own, b, [&] { memset(got, 0, sizeof got); memset(clipped, 0, sizeof clipped); }, [&] {
			Aabb q(f(lo), f(hi));
			auto one = [&](uint32_t i) {
				if (op.kind == WITHIN) { got[i] = isInside(q, w.boxes[i]); return; }
				got[i] = isIntersected(q, w.boxes[i]); if (isIntersected(w.boxes[i], q) != got[i]) same = false;
				Aabb part; clipped[i] = part.trySet(max(q.getMin(), w.boxes[i].getMin()), min(q.getMax(), w.boxes[i].getMax())) ? 2 : 1; clo[i] = d3(part.getMin()); chi[i] = d3(part.getMax()); };
			if (tree) walk(*w.bvh, own, b, [&](const Bvh::Node& n) { return isIntersected(q, n.aabb); }, one);
			else for (uint32_t i = 0; i < (uint32_t)w.nbox; i++) one(i);
		});
		if (!ok) return;
		compareSets(opName(op.kind), got, depth, 4e-6 * (S + 1), w.nbox, "box", w.lattice);
		if (!same) rt::violate("wrong-answer", "box intersection depends on the order of the boxes");
		if (op.kind == TOUCH_BOX) for (int i = 0; i < w.nbox; i++)
		{
			if (!clipped[i] || std::fabs(depth[i]) <= 4e-6 * (S + 1)) continue;
			if (clipped[i] == 1) rt::count(P_EMPTY_REGION);
			if ((clipped[i] == 2) != (depth[i] > 0)) rt::violate("wrong-answer", "the common part of two boxes is %s although they overlap by %.6g", clipped[i] == 2 ? "accepted" : "refused", depth[i]);
			if (clipped[i] == 2) for (int k = 0; k < 3; k++)
				if (!(std::fabs(comp(clo[i], k) - std::max(comp(lo, k), comp(w.box[i].lo, k))) <= 2e-6 * (S + 1)) || !(std::fabs(comp(chi[i], k) - std::min(comp(hi, k), comp(w.box[i].hi, k))) <= 2e-6 * (S + 1))) rt::violate("wrong-answer", "the common part of two boxes has the wrong corners");
		}
		break;
	}
	case HOLDS:
	{
		V p = somePoint(r, S); for (int i = 0; i < w.nbox; i++) depth[i] = boxDepth(w.box[i].lo, w.box[i].hi, p);
		V near[MAXBOX]; bool asked[MAXBOX] = {};
		bool ok = ask(op, own, b, [&] { memset(got, 0, sizeof got); }, [&] {
			auto one = [&](uint32_t i) { got[i] = isInside(w.boxes[i], f(p)); near[i] = d3(closestPoint(w.boxes[i], f(p))); asked[i] = true; };
			if (tree) walk(*w.bvh, own, b, [&](const Bvh::Node& n) { return isInside(n.aabb, f(p)); }, one);
			else for (uint32_t i = 0; i < (uint32_t)w.nbox; i++) one(i);
		});
		if (!ok) return;
		compareSets("holds_point", got, depth, 2e-6 * (S + 1), w.nbox, "box", w.lattice);
		for (int i = 0; i < w.nbox; i++) if (asked[i] && !(std::fabs(len(near[i] - p) - boxDist(w.box[i].lo, w.box[i].hi, p)) <= 4e-6 * (S + 1))) rt::violate("wrong-answer", "closest point of box %d is at distance %.7g instead of %.7g", i, len(near[i] - p), boxDist(w.box[i].lo, w.box[i].hi, p));
		break;
	}
	case NEAREST:
	{
		V p = somePoint(r, S), at{}; double best = 1e300; int who = -1;
		bool ok = ask(op, own, b, [&] { best = 1e300; who = -1; }, [&] {
			auto one = [&](uint32_t i) { f32x4 c = closestPoint(readTriangle(w, i), f(p)); double d = distance3(c, f(p)); if (d < best) { best = d; who = (int)i; at = d3(c); } };
			if (mtree) walk(*w.mesh, own, b, [&](const Bvh::Node& n) { return distance3(closestPoint(n.aabb, f(p)), f(p)) <= best; }, one);
			else for (uint32_t i = 0; i < (uint32_t)w.ntri; i++) one(i);
		});
		if (!ok) return;
		double want = 1e300; int wi = -1; for (int i = 0; i < w.ntri; i++) { double d = len(triClosest(w.tri[i], p) - p); if (d < want) { want = d; wi = i; } }
		double tol = 3e-5 * (S + 1); rt::count(rt::M_CHECKS); rt::nontrivial();
		if (who < 0 || !(std::fabs(best - want) <= tol)) rt::violate("wrong-answer", "nearest_triangle: (%.7g %.7g %.7g) is %.7g from triangle %d, the nearest is triangle %d at %.7g", p.x, p.y, p.z, best, who, wi, want);
		if (!(len(triClosest(w.tri[who], at) - at) <= tol)) rt::violate("wrong-answer", "nearest_triangle: the closest point (%.7g %.7g %.7g) is %.3g away from its triangle %d", at.x, at.y, at.z, len(triClosest(w.tri[who], at) - at), who);
		{ V c = triClosest(w.tri[wi], p), n = cross(w.tri[wi][1] - w.tri[wi][0], w.tri[wi][2] - w.tri[wi][0]); if (std::fabs(dot(p - c, n)) > 0.999 * len(n) * len(p - c)) rt::count(P_FACE); else rt::count(P_EDGE); }
		rt::record((uint64_t)who); rt::recordBytes(&best, 8);
		break;
	}
	case VOXEL:
	{
		V c = somePoint(r, S), e = snap(V{r.real(0.05, S * 0.3), r.real(0.05, S * 0.3), r.real(0.05, S * 0.3)}); if (w.lattice) e = e + V{0.5, 0.5, 0.5}; 
		if (r.chance(0.6)) // barely beside or barely into one triangle: the voxel's nearest feature is put a little away from the triangle's along one separating axis
		{
			V* t = w.tri[r.below((uint64_t)w.ntri)]; int axis = (int)r.below(13); V a{0, 0, 0}, q = t[0]; int along = -1; e = V{r.real(0.05, S * 0.3), r.real(0.05, S * 0.3), r.real(0.05, S * 0.3)};
			auto set = [](V& v, int i, double x) { (i == 0 ? v.x : i == 1 ? v.y : v.z) = x; };
			if (axis < 9)
			{
				int j = axis % 3; along = axis / 3; V d{0, 0, 0}; set(d, along, 1); V f0 = t[(j + 1) % 3] - t[j]; a = cross(d, f0); if (len(a) < 0.1) a = V{0, 1, 0};
				if (dot(a, t[(j + 2) % 3] - t[j]) > 0) a = a * -1.0;
				q = t[j] + f0 * r.real(0.1, 0.9);
			}
			else if (axis < 12) { set(a, axis - 9, r.chance(0.5) ? 1 : -1); for (int k = 1; k < 3; k++) if (dot(a, t[k] - q) > 0) q = t[k]; }
			else { a = cross(t[1] - t[0], t[2] - t[0]) * (r.chance(0.5) ? 1 : -1); double u = r.real(0.1, 0.5), v = r.real(0.1, 0.4); q = t[0] + (t[1] - t[0]) * u + (t[2] - t[0]) * v; }
			a = a * (1 / len(a)); double gap = (5e-5 * (S + 1) + (r.chance(0.5) ? 0.02 : 0.4) * r.unit() * std::min({e.x, e.y, e.z})) * (r.chance(0.6) ? 1 : -1);
			c = q + a * gap; for (int i = 0; i < 3; i++) { double k = comp(a, i); set(c, i, comp(c, i) + comp(e, i) * (i == along || std::fabs(k) < 1e-6 ? r.real(-0.9, 0.9) : k > 0 ? 1 : -1)); }
			rt::count(P_NEAR_MISS);
		}
		c = rnd(c); e = rnd(e);
		bool ok = ask(op, own, b, [&] { memset(got, 0, sizeof got); }, [&] {
			Aabb cell; cell.setExtent(f(e), f(c));
			auto one = [&](uint32_t i) { got[i] = isAabbIntersected(f(c), f(e), readTriangle(w, i)); };
			if (mtree) walk(*w.mesh, own, b, [&](const Bvh::Node& n) { return isIntersected(cell, n.aabb); }, one);
			else for (uint32_t i = 0; i < (uint32_t)w.ntri; i++) one(i);
		});
		if (!ok) return;
		double m = 1e-5 * (S + 1);
		for (int i = 0; i < w.ntri; i++)
		{
			V g{m, m, m}; bool in = triInBox(w.tri[i], c - e + g, c + e - g), maybe = triInBox(w.tri[i], c - e - g, c + e + g);
			depth[i] = in ? 1 : maybe ? 0 : -1; if (in) rt::count(P_OVERLAP);
		}
		compareSets("voxel", got, depth, 0.5, w.ntri, "triangle");
		break;
	}
	case GROUND: // where a line hits the mesh, with the triangle's plane, containment and barycentric functions
	{
		int k = (int)r.below((uint64_t)w.ntri); V* t = w.tri[k]; double u = r.real(-0.6, 1.4), v = r.real(-0.6, 1.4);
		if (w.lattice && r.chance(0.5)) { u = (double)r.range(-1, 2); v = (double)r.range(-1, 2); }
		V n = cross(t[1] - t[0], t[2] - t[0]); double area = len(n); n = n * (1 / area);
		V want = t[0] + (t[1] - t[0]) * u + (t[2] - t[0]) * v, dir = unit(r); if (std::fabs(dot(dir, n)) < 0.25) dir = n;
		if (dot(dir, n) > 0 && r.chance(0.5)) dir = dir * -1.0;
		V o = rnd(want - dir * r.real(0.5, 8)); dir = rnd(dir); want = o + dir * (dot(t[0] - o, n) / dot(dir, n));
		bool in = false; V hit{}, bary{}, pn{}; double above = 0;
		bool ok = ask(op, own, b, [&] {}, [&] {
			Triangle tri = readTriangle(w, (uint32_t)k); Plane p(tri); pn = d3(p.getNormal()); above = distance3(p, f(o));
			f32x4 h = f(o) - f(dir) * f32x4(distance3(p, f(o)) / dot3(p.getNormal(), f(dir)));
			in = isInside(tri, h); f32x4 bc = calcBarycentric(tri, h); bary = d3(bc); hit = d3(h);
		});
		if (!ok) return;
		double tol = 2e-4 * (S + 1), edge = 0; rt::count(rt::M_CHECKS); rt::nontrivial();
		V e0 = t[1] - t[0], e1 = t[2] - t[0], q = want - t[0]; double d00 = dot(e0, e0), d01 = dot(e0, e1), d11 = dot(e1, e1), d20 = dot(q, e0), d21 = dot(q, e1), den = d00 * d11 - d01 * d01;
		double bv = (d11 * d20 - d01 * d21) / den, bw = (d00 * d21 - d01 * d20) / den, bu = 1 - bv - bw; edge = std::min({bu, bv, bw});
		if (!(len(pn - n) <= 1e-4)) rt::violate("wrong-answer", "ground: the plane of triangle %d has the wrong normal (%.7g %.7g %.7g)", k, pn.x, pn.y, pn.z);
		if (!(std::fabs(above - dot(o - t[0], n)) <= tol)) rt::violate("wrong-answer", "ground: (%.7g %.7g %.7g) is %.7g above the plane of triangle %d instead of %.7g", o.x, o.y, o.z, above, k, dot(o - t[0], n));
		if (!(len(hit - want) <= tol)) rt::violate("wrong-answer", "ground: the plane of triangle %d is hit at (%.7g %.7g %.7g) instead of (%.7g %.7g %.7g)", k, hit.x, hit.y, hit.z, want.x, want.y, want.z);
		double be = std::max({std::fabs(bary.x - bu), std::fabs(bary.y - bv), std::fabs(bary.z - bw)});
		if (!(be <= 2e-3 * (1 + S / 10))) rt::violate("wrong-answer", "ground: barycentric coordinates (%.7g %.7g %.7g) should be (%.7g %.7g %.7g)", bary.x, bary.y, bary.z, bu, bv, bw);
		bool exact = w.lattice && len(hit - rnd(hit)) == 0 && hit.x == std::round(hit.x) && hit.y == std::round(hit.y) && hit.z == std::round(hit.z) && len(hit - want) < 1e-9;
		double em = exact ? 1e-6 : 2e-3 * (1 + S / 10);
		if (std::fabs(edge) > em && in != (edge > 0)) rt::violate("wrong-answer", "ground: (%.7g %.7g %.7g) is said to be %s triangle %d, its barycentric coordinates are (%.7g %.7g %.7g)", hit.x, hit.y, hit.z, in ? "inside" : "outside", k, bu, bv, bw);
		rt::count(edge > 0 ? P_HIT : P_MISS);
		break;
	}
	default: // SHAPES: measures of boxes, points on lines, rays and planes
	{
		int k = (int)r.below((uint64_t)w.nbox); Box& x = w.box[k]; V a = somePoint(r, S), c = somePoint(r, S), p = somePoint(r, S); if (len(c - a) < 0.05) c = a + V{1, 2, 3}; a = rnd(a); c = rnd(c);
		double area = 0, vol = 0, t = 0, pd = 0; V sz{}, ex{}, po{}, l1{}, l2{}, r1{}, ld{}, pc{};
		V n = unit(r); double dist = (float)r.real(-S, S);
		bool ok = ask(op, own, b, [&] {}, [&] {
			const Aabb& y = w.boxes[k]; area = y.calcArea(); vol = y.calcVolume(); sz = d3(y.getSize()); ex = d3(y.getExtent()); po = d3(y.getPosition());
			Line l(f(a), f(c)); float q; l1 = d3(closestPoint(l, f(p))); l2 = d3(closestPoint(l, f(p), q)); t = q; ld = d3(l.getDirection());
			r1 = d3(closestPoint(Ray(f(a), f(c - a)), f(p)));
			Plane pl(f(n), (float)dist); pd = distance3(pl, f(p)); pc = d3(closestPoint(pl, f(p)));
		});
		if (!ok) return;
		double tol = 1e-5 * (S + 1); V s = x.ext * 2, d = c - a; rt::count(rt::M_CHECKS); rt::nontrivial();
		auto bad = [&](const char* what, double e, double allowed) { if (!(e <= allowed)) rt::violate("wrong-answer", "shapes: %s is off by %.4g (allowed %.3g)", what, e, allowed); };
		bad("size of a box", len(sz - s), tol); bad("extent of a box", len(ex - x.ext), tol); bad("position of a box", len(po - (x.lo + x.hi) * 0.5), tol);
		bad("area of a box", std::fabs(area - 2 * (s.x * s.y + s.y * s.z + s.z * s.x)), tol * 8 * (1 + len(s))); bad("volume of a box", std::fabs(vol - s.x * s.y * s.z), tol * 4 * (1 + len(s)) * (1 + len(s)));
		V lw = segClosest(a, c, p); bad("closest point on a line", len(l1 - lw), 2 * tol); bad("closest point on a line (with position)", len(l2 - lw), 2 * tol);
		bad("position of the closest point on a line", std::fabs(t - dot(p - a, d) / dot(d, d)) * std::min(1.0, len(d)), 4 * tol * (1 + len(p - a) / len(d)));
		bad("direction of a line", len(ld - d * (1 / len(d))), 1e-5 + 1e-6 * S / len(d));
		double ray = std::max(0.0, dot(p - a, d) / dot(d, d)); bad("closest point on a ray", len(r1 - (a + d * ray)), 2 * tol + 5e-6 * S * len(p - a) * (1 + 1 / len(d)));
		bad("distance from a plane", std::fabs(pd - (dot(n, p) + dist)), 2 * tol); bad("closest point on a plane", len(pc - (p - n * (dot(n, p) + dist))), 4 * tol);
		break;
	}
	case MOVES:
	{
		// a box, a line, a triangle, a ray, a plane and a sphere are moved, scaled and reset through every operator they have
		Box& x = w.box[r.below((uint64_t)w.nbox)]; V* tr = w.tri[r.below((uint64_t)w.ntri)]; V p = somePoint(r, S), a = somePoint(r, S), c = somePoint(r, S), n = rnd(unit(r)), g = rnd(V{r.real(0.3, 3), r.real(0.3, 3), r.real(0.3, 3)}), k = rnd(V{g.x * (r.chance(0.5) ? 1 : -1), g.y * (r.chance(0.5) ? 1 : -1), g.z * (r.chance(0.5) ? 1 : -1)});
		if (len(c - a) < 0.5) c = a + V{1, 2, 3};
		float dist = (float)r.real(-S, S), rad = (float)r.real(0.1, S); struct Got { V v[220]; int n; bool flag[24]; int m; } o; Got& q = o;
		bool ok = ask(op, own, b, [&] { q.n = q.m = 0; }, [&] {
			auto put = [&](f32x4 v) { q.v[q.n++] = d3(v); }; auto one = [&](float v) { q.v[q.n++] = {v, 0, 0}; }; auto box = [&](const Aabb& v) { put(v.getMin()); put(v.getMax()); };
			auto line = [&](const Line& v) { put(v.start); put(v.end); }; auto tri = [&](const Triangle& v) { put(v.p0); put(v.p1); put(v.p2); }; auto ray = [&](const Ray& v) { put(v.origin); put(v.getDirection()); }; auto yes = [&](bool v) { q.flag[q.m++] = v; };
			f32x4 P = f(p), K = f(k), G = f(g); { float l[4]; K.store(l); l[3] = 1; K = f32x4(l); G.store(l); l[3] = 1; G = f32x4(l); }
			Aabb A(f(x.lo), f(x.hi)), B; box(A * G); box(A / G); box(A + P); box(A - P); B = A; B *= G; box(B); B = A; B /= G; box(B); B = A; B += P; box(B); B = A; B -= P; box(B); B = A; B.scale(G); box(B); B = A; B.translate(P); box(B);
			B = A; B.shrink(P); box(B); B = A; B.extend(P); box(B); B = A; B.extend(Aabb(P, P)); box(B); B = A; B.setSize(G); box(B); B = A; B.setExtent(G); box(B); B = A; B.setSize(G, P); box(B); B = A; B.setExtent(G, P); box(B); box(Aabb::zero); box(Aabb::one); box(Aabb::two); box(Aabb::half);
			B = A; yes(B == A); yes(B != A); B += f32x4(1.0f, 0.0f, 0.0f); yes(B != A); yes(B == A); yes(B.trySet(f(x.hi), f(x.lo)) == (x.ext.x == 0 && x.ext.y == 0 && x.ext.z == 0)); yes(Aabb::full.getMin() == f32x4::minusMax && Aabb::full.getMax() == f32x4::max); yes(Aabb::inf.getMin() == f32x4::minusInf && Aabb::inf.getMax() == f32x4::inf);
			Line L(f(a), f(c)), M; line(L * K); line(L / K); line(L + P); line(L - P); M = L; M *= K; line(M); M = L; M /= K; line(M); M = L; M += P; line(M); M = L; M -= P; line(M); M = L; yes(M == L); M.end += f32x4(1.0f); yes(M != L);
			Triangle T(f(tr[0]), f(tr[1]), f(tr[2])), U; tri(T * K); tri(T / K); tri(T + P); tri(T - P); U = T; U *= K; tri(U); U = T; U /= K; tri(U); U = T; U += P; tri(U); U = T; U -= P; tri(U); U = T; yes(U == T); U.p1 += f32x4(1.0f); yes(U != T);
			Ray R(f(a), f(c - a), false), Q; Q = R; Q *= K; ray(Q); Q = R; Q /= K; ray(Q); Q = R; Q.normalize(); ray(Q); Q = R; yes(Q == R); Q.origin += f32x4(1.0f); yes(Q != R); ray(R * K); ray(R / K); put((R + P).origin); put((R - P).origin); Q = R; Q += P; put(Q.origin); Q = R; Q -= P; put(Q.origin); ray(Ray::left); ray(Ray::right); ray(Ray::bottom); ray(Ray::top); ray(Ray::back); ray(Ray::front);
			Plane E(f(n), dist, false), H; H = E; H.setDistance(rad); put(H.getNormal()); one(H.getDistance()); H = E; H.setNormal(f(c - a)); put(H.getNormal()); one(H.getDistance()); H.setNormal(f(n), false); yes(distance3(H, P) == distance3(E, P)); H = E; yes(H == E); H.setDistance(dist + 1); yes(H != E); Plane N(f(c - a), dist, false); N.normalize(); put(N.getNormal()); one(N.getDistance());
			Plane Z[3] = {Plane(f(c - a), dist, false), Plane(f(n * 3), dist, false), Plane(f(n * 3), dist, false)}; normalizePlanes(Z, 2); put(Z[0].getNormal()); one(Z[0].getDistance()); put(Z[1].getNormal()); one(Z[1].getDistance()); put(Z[2].getNormal());
			put(Plane::left.getNormal()); put(Plane::right.getNormal()); put(Plane::bottom.getNormal()); put(Plane::top.getNormal()); put(Plane::back.getNormal()); put(Plane::front.getNormal()); one(Plane::left.getDistance()); one(Plane::right.getDistance()); one(Plane::bottom.getDistance()); one(Plane::top.getDistance()); one(Plane::back.getDistance()); one(Plane::front.getDistance());
			one((float)Plane::frustumCount); put(Plane(f(n * 3)).getNormal()); one(Plane(f(n * 3)).getDistance()); put(Plane(f(n * 3), dist).getNormal()); put(Plane().getNormal()); one(Plane().getDistance()); put(Ray(f(a), f(c - a)).getDirection()); put(Ray().origin); put(Ray().getDirection()); put(Line().start); put(Line().end); box(Aabb()); tri(Triangle()); put(Plane(Triangle(P, P, P)).getNormal()); one(Plane(Triangle(P, P, P)).getDistance());
			Sphere s(rad, P), t; t.setPosition(f(a)); t.setRadius(rad); put(t.getPosition()); one(t.getRadius()); t.setPosition(P); t.setRadius(rad); put(t.getPosition()); one(t.getRadius()); yes(distance3(t.getPosition(), P) == 0); t = s; yes(t == s); t.setRadius(rad + 1); yes(t != s); put(t.getPosition()); one(Sphere::one.getRadius()); one(Sphere::two.getRadius()); one(Sphere::half.getRadius());
		});
		if (!ok) return;
		int at = 0; auto mul = [](V u, V v) { return V{u.x * v.x, u.y * v.y, u.z * v.z}; }; auto div = [](V u, V v) { return V{u.x / v.x, u.y / v.y, u.z / v.z}; }; auto lo = [](V u, V v) { return V{std::min(u.x, v.x), std::min(u.y, v.y), std::min(u.z, v.z)}; }; auto hi = [](V u, V v) { return V{std::max(u.x, v.x), std::max(u.y, v.y), std::max(u.z, v.z)}; };
		auto is = [&](const char* what, V want) { V got2 = q.v[at++]; rt::count(rt::M_CHECKS); if (!(len(got2 - want) <= 1e-6 * (len(want) + 2 * S))) rt::violate("wrong-answer", "moved shapes: %s is (%.9g %.9g %.9g) instead of (%.9g %.9g %.9g)", what, got2.x, got2.y, got2.z, want.x, want.y, want.z); };
		auto two = [&](const char* what, V u, V v) { is(what, u); is(what, v); }; auto three = [&](const char* what, V u, V v, V z) { is(what, u); is(what, v); is(what, z); };
		V l = x.lo, h = x.hi, z{0, 0, 0}; auto iso = [](double v) { return V{v, v, v}; };
		two("box * v", mul(l, g), mul(h, g)); two("box / v", div(l, g), div(h, g)); two("box + v", l + p, h + p); two("box - v", l - p, h - p); two("box *= v", mul(l, g), mul(h, g)); two("box /= v", div(l, g), div(h, g)); two("box += v", l + p, h + p); two("box -= v", l - p, h - p); two("scaled box", mul(l, g), mul(h, g)); two("translated box", l + p, h + p);
		two("box shrunk to a point", hi(l, p), lo(h, p)); two("box extended by a point", lo(l, p), hi(h, p)); two("box extended by a box", lo(l, p), hi(h, p)); two("box of a size", g * -0.5, g * 0.5); two("box of an extent", g * -1.0, g); two("box of a size at a position", p - g * 0.5, p + g * 0.5); two("box of an extent at a position", p - g, p + g); two("Aabb::zero", z, z); two("Aabb::one", iso(-0.5), iso(0.5)); two("Aabb::two", iso(-1), iso(1)); two("Aabb::half", iso(-0.25), iso(0.25));
		for (int j = 0; j < 2; j++) { two("line * v", mul(a, k), mul(c, k)); two("line / v", div(a, k), div(c, k)); two("line + v", a + p, c + p); two("line - v", a - p, c - p); }
		for (int j = 0; j < 2; j++) { three("triangle * v", mul(tr[0], k), mul(tr[1], k), mul(tr[2], k)); three("triangle / v", div(tr[0], k), div(tr[1], k), div(tr[2], k)); three("triangle + v", tr[0] + p, tr[1] + p, tr[2] + p); three("triangle - v", tr[0] - p, tr[1] - p, tr[2] - p); }
		V d = rnd(c - a), dn = d * (1 / len(d)), dk = mul(d, k), dq = div(d, k); two("ray *= v", mul(a, k), dk); two("ray /= v", div(a, k), dq); two("normalized ray", a, dn); two("ray * v", mul(a, k), dk * (1 / len(dk))); two("ray / v", div(a, k), dq * (1 / len(dq)));
		is("origin of ray + v", a + p); is("origin of ray - v", a - p); is("origin of ray += v", a + p); is("origin of ray -= v", a - p);
		for (int j = 0; j < 6; j++) { V e{0, 0, 0}; (j < 2 ? e.x : j < 4 ? e.y : e.z) = j % 2 ? 1 : -1; two("ray along an axis", z, e); }
		is("plane normal", n); is("plane distance", {rad, 0, 0}); is("plane normal set", dn); is("plane distance kept", {dist, 0, 0}); is("normalized plane", dn); is("normalized plane's distance", {dist / len(d), 0, 0});
		is("first normalized plane", dn); is("first normalized plane's distance", {dist / len(d), 0, 0}); is("second normalized plane", n * (1 / len(n))); is("second normalized plane's distance", {dist / (3 * len(n)), 0, 0}); is("plane after the last", n * 3);
		for (int j = 0; j < 6; j++) { V e{0, 0, 0}; (j < 2 ? e.x : j < 4 ? e.y : e.z) = j % 2 ? 1 : -1; is("plane facing along an axis", e); }
		for (int j = 0; j < 6; j++) is("distance of a plane facing along an axis", z);
		is("planes of a frustum", {6, 0, 0}); is("normal of a plane", n * (1 / len(n))); is("distance of a plane by default", z); is("normal of a plane", n * (1 / len(n))); two("empty plane", z, z); is("direction of a ray by default", dn); two("empty ray", z, z); two("empty line", z, z); two("empty box", z, z); three("empty triangle", z, z, z); two("plane of a triangle that is a point", z, z);
		is("sphere position", a); is("sphere radius", {rad, 0, 0}); is("sphere position set", p); is("sphere radius kept", {rad, 0, 0}); is("sphere position kept", p); is("Sphere::one", {0.5, 0, 0}); is("Sphere::two", {1, 0, 0}); is("Sphere::half", {0.25, 0, 0});
		for (int j = 0; j < q.m; j++) { static const bool want[] = {1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; rt::count(rt::M_CHECKS); if (q.flag[j] != want[j]) rt::violate("wrong-answer", "moved shapes: comparison %d is %d", j, (int)q.flag[j]); }
		if (at != q.n) rt::violate("wrong-answer", "moved shapes: %d results instead of %d", q.n, at);
		rt::nontrivial(); break;
	}
	}
	if (!op.lane) rt::recordState((uint64_t)op.kind * 1024 + (uint64_t)w.nbox * 8 + (uint64_t)tree * 4 + w.lattice);
}
struct Par { const Plan* p; size_t from, to; };
void laneBody(void* ctx, int lane)
{
	Par* g = (Par*)ctx;
	for (size_t i = g->from; i < g->to; i++) if (g->p->ops[i].lane - 1 == lane) query(g->p->ops[i], (int)i);
}
void exec(const Plan& plan)
{
	World* w = W = new World(); Rng r(plan.seed ^ 0x99);
	w->lattice = plan.knob("lattice"); w->size = r.chance(0.3) ? 40 : 8; double S = w->size;
	w->nbox = 1 + (int)r.below(r.chance(0.5) ? 8 : MAXBOX); w->useCentroids = r.chance(0.3);
	for (int i = 0; i < w->nbox; i++)
	{
		Box& b = w->box[i]; b.base = {r.real(-S, S), r.real(-S, S), r.real(-S, S)}; b.vel = r.chance(0.4) ? V{0, 0, 0} : V{r.real(-6, 6), r.real(-6, 6), r.real(-6, 6)}; b.how = (int)r.below(15);
		double s = r.chance(0.2) ? S * 0.5 : S * 0.12; b.ext = w->lattice ? V{(double)r.range(0, 3), (double)r.range(0, 3), (double)r.range(0, 3)} * (r.chance(0.5) ? 1 : 0.5) : rnd(V{r.real(0.01, s), r.real(0.01, s), r.real(0.01, s)});
		if (i && r.chance(0.15)) { b.base = w->box[i - 1].base; b.vel = w->box[i - 1].vel; }
	}
	w->ntri = 1 + (int)r.below(r.chance(0.5) ? 6 : MAXTRI); w->stride = 12 + 4 * (int)r.below(4); w->isize = r.chance(0.5) ? 2 : 4;
	w->vvel = r.chance(0.5) ? V{0, 0, 0} : V{r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)};
	w->nvert = 0;
	for (int i = 0; i < w->ntri; i++) for (;;)
	{
		V c{r.real(-S, S), r.real(-S, S), r.real(-S, S)}, t[3]; double s = r.chance(0.3) ? S * 0.5 : S * 0.2;
		for (int k = 0; k < 3; k++) t[k] = snap(c + unit(r) * (r.real(0.3, 1) * s));
		if (i && r.chance(0.3)) t[0] = w->vbase[w->idx[(i - 1) * 3 + 1]]; // shares a corner
		V n = cross(t[1] - t[0], t[2] - t[0]); double longest = std::max({len(t[1] - t[0]), len(t[2] - t[1]), len(t[0] - t[2])});
		if (!(len(n) > 0.15 * longest * longest) || longest < 0.3) continue;
		for (int k = 0; k < 3; k++) { w->vbase[w->nvert] = t[k]; w->idx[i * 3 + k] = (uint32_t)w->nvert++; }
		break;
	}
	w->boxes = (Aabb*)rt::bufAlloc(sizeof(Aabb) * w->nbox, 16); memset((void*)w->boxes, 0, sizeof(Aabb) * w->nbox); w->centroids = (f32x4*)rt::bufAlloc(16 * w->nbox, 16);
	w->vertices = (uint8_t*)rt::bufAlloc((size_t)w->nvert * w->stride, 4); memset(w->vertices, 0, (size_t)w->nvert * w->stride);
	w->indices = (uint8_t*)rt::bufAlloc((size_t)w->ntri * 3 * w->isize, 4); for (int i = 0; i < w->ntri * 3; i++) if (w->isize == 2) ((uint16_t*)w->indices)[i] = (uint16_t)w->idx[i]; else ((uint32_t*)w->indices)[i] = w->idx[i];
	w->bvh = (Bvh*)rt::bufAlloc(sizeof(Bvh), alignof(Bvh)); w->mesh = (Bvh*)rt::bufAlloc(sizeof(Bvh), alignof(Bvh)); callSut(nullptr, [&] { new (w->bvh) Bvh(); new (w->mesh) Bvh(); });
	for (size_t i = 0; i < plan.ops.size();)
	{
		const Op& op = plan.ops[i];
		if (op.lane <= 0) { if (op.kind == FRAME) frame(op, (int)i); else query(op, (int)i); i++; continue; }
		Par g{&plan, i, i}; int lanes = 0;
		while (g.to < plan.ops.size() && plan.ops[g.to].lane > 0) { lanes = std::max(lanes, plan.ops[g.to].lane); g.to++; }
		rt::runParallel(std::min<int>(lanes, LANES), laneBody, &g);
		i = g.to;
	}
}
void gen(Plan& p, Rng& r)
{
	p.knobs["heap_reuse"] = r.chance(0.5); p.knobs["heap_skew"] = r.chance(0.5); p.knobs["heap_garbage"] = (int64_t)(r.next() >> 2); p.knobs["lattice"] = r.chance(0.35);
	int n = 1 + (int)r.below(6); int64_t nominal = r.chance(0.5) ? 16666667 : (int64_t)(1e9 / r.real(5, 240)); double cf = r.chance(0.3) ? 0 : r.real(0.1, 0.6), fr = r.chance(0.4) ? 0 : r.real(0.1, 0.5); bool fpu = r.chance(0.15);
	auto fault = [&](Op& o, int span) { if (!r.chance(fr)) return; o.fmode = r.chance(0.7) ? rt::FM_NTH : rt::FM_FROM; o.fn = 1 + (int64_t)r.below((uint64_t)span); };
	auto make = [&](int lane) {
		Op q; q.kind = 1 + (int)r.below(NKINDS - 1); q.lane = lane; q.a[1] = (int64_t)r.below(6); q.a[2] = (int64_t)r.below(8); q.seed = r.next() >> 1; fault(q, 3); if (r.chance(fr)) q.a[3] = 1 + (int64_t)r.below(20);
		if (fpu && r.chance(0.5)) q.fpu = 1 + (int)r.below(5);
		if (lane) { int np = (int)r.below(6); for (int j = 0; j < np; j++) q.pre.push_back({(uint32_t)r.logUniform(2000), (uint8_t)r.below(8), (uint8_t)r.chance(0.15)}); std::sort(q.pre.begin(), q.pre.end(), [](const rt::Pre& x, const rt::Pre& y) { return x.step < y.step; }); }
		p.ops.push_back(q);
	};
	for (int i = 0; i < n; i++)
	{
		Op o; o.kind = FRAME; o.a[0] = nominal; o.a[1] = STEADY; o.seed = r.next() >> 1;
		if (r.chance(cf)) switch (r.below(6))
		{
		case 0: o.a[0] = (int64_t)(r.real(0.3, 3) * 1e9); o.a[1] = STALL; break;
		case 1: o.a[0] = 0; o.a[1] = ZERO; break;
		case 2: o.a[0] = 1 + (int64_t)r.logUniform(1000000); o.a[1] = BURST; break;
		default: o.a[0] = (int64_t)(nominal * r.real(0.3, 3)); o.a[1] = JITTER; break;
		}
		o.a[3] = (int64_t)r.below(4); fault(o, 12);
		p.ops.push_back(o);
		if (r.chance(0.2)) { int lanes = 2 + (int)r.below(3); for (int l = 1; l <= lanes; l++) make(l); }
		int q = 1 + (int)r.below(6); for (int k = 0; k < q; k++) make(0);
	}
}
}

const sim::Scenario sim::scenario = {"pick", gen, exec, opName, {"hits", "misses", "ray_along_an_axis", "ray_starts_inside_a_box", "undecided_by_rounding", "rebuild_out_of_memory", "query_out_of_memory", "query_aborted_and_repeated", "parallel_queries",
	"asked_without_bvh", "nearest_on_edge_or_corner", "nearest_on_face", "triangle_in_voxel", "lattice_scene", "empty_common_region", "ray_along_the_lattice", "touching_decided", "triangle_barely_off_or_on"}, 20, {"dt", "clock_or_form", "variant", "abort_after_or_give_up"}};
