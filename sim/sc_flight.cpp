// Scenario "flight" (C13): an application loop under a simulated clock. Objects and cameras move, the BVH is rebuilt (possibly out of memory,
// then retried), and every camera culls with the real library, possibly from several threads at once. The view volume and the objects are also
// known in double precision from what the application asked for; an object with a point inside the view volume must never be culled.
#include "common.h"
#include "math/bvh.hpp"
#include "math/matrix/projection.hpp"
#include "math/matrix/transform.hpp"
#include <stack>

using namespace math;
using sim::Op; using sim::Plan; using sim::Rng;

namespace
{
enum Kind { FRAME, CULL, NKINDS };
const char* opName(int k) { return k == FRAME ? "frame" : "cull"; }
enum { STEADY, JITTER, STALL, BURST, ZERO };
enum { P_VISIBLE = rt::P_FIRST, P_INVISIBLE, P_CULLED, P_EDGE, P_BIG, P_REBUILD_OOM, P_RETRY, P_STALE_BVH, P_PARALLEL, P_QUERY_OOM, P_ORTHO, P_INFINITE, P_NORMALIZED, P_TRAVERSE, P_FALLBACK, P_INSIDE_CAMERA };
enum { NCAM = 4, MAXOBJ = 48 };

struct V { double x, y, z; };
V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
V operator*(V a, double s) { return {a.x * s, a.y * s, a.z * s}; }
double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
double len(V a) { return std::sqrt(dot(a, a)); }
V norm(V a) { return a * (1 / len(a)); }
struct R3 { V x, y, z; }; // columns
V mul(const R3& r, V v) { return r.x * v.x + r.y * v.y + r.z * v.z; }
R3 axisAngle(double a, V k) { double c = std::cos(a), s = std::sin(a); auto col = [&](V v) { return v * c + cross(k, v) * s + k * (dot(k, v) * (1 - c)); }; return {col({1, 0, 0}), col({0, 1, 0}), col({0, 0, 1})}; }
R3 mul(const R3& a, const R3& b) { return {mul(a, b.x), mul(a, b.y), mul(a, b.z)}; }
f32x4 f(V v) { return f32x4((float)v.x, (float)v.y, (float)v.z, 0.0f); }
V rnd(V v) { return {(float)v.x, (float)v.y, (float)v.z}; } // the float the library is given
V unit(Rng& r) { for (;;) { V v{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)}; double l = len(v); if (l > 0.2 && l < 1) return rnd(v * (1 / l)); } }

struct Camera
{
	int mode, proj; V base, vel; double yaw0, yawRate, pitch, upTilt; float fov, aspect, zNear, zFar; float2 width, height; bool normalize; int planes;
	// truth this frame
	V pos, s, u, fw;
	// inputs this frame
	f32x4 from, to, up, dir; float yaw, pitchNow; Plane lib[6]; double scaleErr;
};
struct Object
{
	V base, vel, axis; double omega; V half, mid, scl; int mode; int tail; double tailDepth, tailSide, tailIn; int tailPlane, corner;
	// truth this frame
	V pos; R3 rot; V pts[48]; int np; double rad;
	Aabb local, world; f32x4x4 model;
};
struct Flight
{
	Camera cam[NCAM]; Object obj[MAXOBJ]; int nobj; double t = 0; int frames = 0;
	Bvh* bvh = nullptr; Aabb* boxes = nullptr; bool current = false; uint32_t* out[NCAM] = {}; std::stack<Bvh::Node*>* stacks[NCAM] = {};
	bool fat; Plane* planes = nullptr; bool loose;
};
Flight* F;

bool ortho(const Camera& c) { return c.proj >= 3; }
// distances of a world point inside each bounding plane of the view volume; the smallest slack relative to the margin allowed
template<class T> void distances(const Camera& c, V p, double margin, T&& take)
{
	V d = p - c.pos; double x = dot(d, c.s), y = dot(d, c.u), z = dot(d, c.fw);
	if (ortho(c))
	{
		take(x - c.width.x, margin, 0); take(c.width.y - x, margin, 1); take(y - c.height.x, margin, 2); take(c.height.y - y, margin, 3);
	}
	else
	{
		double t = std::tan((double)c.fov * 0.5), tx = t * c.aspect, nx = std::sqrt(1 + tx * tx), ny = std::sqrt(1 + t * t);
		take((z * tx + x) / nx, margin, 0); take((z * tx - x) / nx, margin, 1); take((z * t + y) / ny, margin, 2); take((z * t - y) / ny, margin, 3);
	}
	take(z - c.zNear, margin, 4);
	if (c.proj != 0)
	{
		// the far plane of a standard projection is the difference of nearly equal numbers
		double far = margin; if (c.proj == 2) far += 2e-7 * 8 * (len(c.pos) + c.zFar) * (c.zFar - c.zNear) / c.zNear;
		take(c.zFar - z, far, 5);
	}
}
double inside(const Camera& c, V p, double margin)
{
	double best = 1e300; distances(c, p, margin, [&](double v, double m, int) { best = std::min(best, v - m); });
	return best;
}
double marginOf(const Camera& c, V p) { return 3e-5 * (2 + len(c.pos) + len(p - c.pos)); }

// how far all eight corners of a box lie on the outer side of one and the same plane, beyond the margin; negative when there is no such plane
double outside(const Camera& c, const V* corner, double extra)
{
	double most[6] = {-1e300, -1e300, -1e300, -1e300, -1e300, -1e300}, best = -1e300;
	for (int i = 0; i < 8; i++) distances(c, corner[i], marginOf(c, corner[i]) + extra, [&](double v, double m, int k) { most[k] = std::max(most[k], v + m); });
	for (double m : most) if (m > -1e299) best = std::max(best, -m);
	return best;
}

void placeCamera(Camera& c, double t)
{
	c.pos = rnd(c.base + c.vel * t);
	c.yaw = (float)std::remainder(c.yaw0 + c.yawRate * t, 2 * M_PI); c.pitchNow = (float)c.pitch;
	R3 r = mul(axisAngle(c.yaw, {0, 1, 0}), axisAngle(c.pitchNow, {1, 0, 0}));
	c.from = f(c.pos); c.up = f32x4(0.0f, 1.0f, 0.0f, 0.0f);
	V up{0, 1, 0};
	if (c.mode == 0 || c.mode == 3)
	{
		V to = rnd(c.pos + r.z * 7.0); up = rnd(V{std::sin(c.upTilt), std::cos(c.upTilt), 0}); c.to = f(to); c.up = f(up);
		if (len(cross(up, norm(to - c.pos))) < 0.15) { up = rnd(r.y); c.up = f(up); }
		c.fw = norm(to - c.pos); c.s = norm(cross(up, c.fw)); c.u = cross(c.fw, c.s);
	}
	else if (c.mode == 4 || c.mode == 6) // a direction
	{
		V d = rnd(r.z); c.dir = f(d); if (c.mode == 4) { up = rnd(V{std::sin(c.upTilt), std::cos(c.upTilt), 0}); if (len(cross(up, d)) < 0.15) up = rnd(r.y); c.up = f(up); }
		c.fw = norm(d); c.s = norm(cross(up, c.fw)); c.u = cross(c.fw, c.s);
	}
	else { c.s = r.x; c.u = r.y; c.fw = r.z; }
}
// the application's code: planes of a camera with the library
void viewPlanes(const Camera& c, Plane* planes)
{
	f32x4x4 view;
	quat q = quat(c.yaw, f32x4(0.0f, 1.0f, 0.0f, 0.0f)) * quat(c.pitchNow, f32x4(1.0f, 0.0f, 0.0f, 0.0f));
	switch (c.mode)
	{
	case 0: view = lookAt(c.from, c.to, c.up); break;
	case 1: view = inverseTransRot(calcModel(c.from, q)); break;
	case 2: view = inverse4x4(calcModel(c.from, q)); break;
	case 3: view = inverseTransRot(translate(c.from, rotate(c.from, c.to, c.up))); break;
	case 4: view = inverseTransRot(calcModel(c.from, lookAtQuat(c.dir, c.up))); break;
	case 5: view = rotate(conjugate(q)) * translate(-c.from); break;
	default: view = inverseTransRot(translate(c.from) * rotate(c.dir)); break;
	}
	float4x4 proj;
	switch (c.proj)
	{
	case 0: proj = calcPerspProjInfRevZ(c.fov, c.aspect, c.zNear); break;
	case 1: proj = calcPerspProjRevZ(c.fov, c.aspect, c.zNear, c.zFar); break;
	case 2: proj = calcPerspProj(c.fov, c.aspect, c.zNear, c.zFar); break;
	case 3: proj = calcOrthoProjRevZ(c.width, c.height, float2(c.zNear, c.zFar)); break;
	default: proj = calcOrthoProj(c.width, c.height, float2(c.zNear, c.zFar)); break;
	}
	extractFrustumPlanes((f32x4x4)proj * view, planes);
	if (c.normalize) normalizePlanes(planes, Plane::frustumCount);
}
void placeObject(Object& o, double t, const Camera& c)
{
	float angle = (float)std::remainder(o.omega * t, 2 * M_PI);
	o.rot = axisAngle(angle, norm(o.axis));
	V sc = o.scl, h{o.half.x * sc.x, o.half.y * sc.y, o.half.z * sc.z}, m{o.mid.x * sc.x, o.mid.y * sc.y, o.mid.z * sc.z};
	if (o.tail)
	{
		// follows a camera so that one corner just reaches into its view volume past one plane
		double z = c.zNear + o.tailDepth * (std::min<double>(c.proj == 0 ? 60 : c.zFar, 60) - c.zNear), tn = std::tan((double)c.fov * 0.5);
		double lx = ortho(c) ? c.width.x : -z * tn * c.aspect, hx = ortho(c) ? c.width.y : -lx, ly = ortho(c) ? c.height.x : -z * tn, hy = ortho(c) ? c.height.y : -ly;
		V p{lx + (hx - lx) * o.tailSide, ly + (hy - ly) * (1 - o.tailSide), z};
		double in = o.tailIn * 3e-5 * (4 + len(c.pos) + 60); V out{0, 0, 0};
		switch (o.tailPlane)
		{
		case 0: p.x = lx + in; out = {-1, 0, 0}; break;
		case 1: p.x = hx - in; out = {1, 0, 0}; break;
		case 2: p.y = ly + in; out = {0, -1, 0}; break;
		case 3: p.y = hy - in; out = {0, 1, 0}; break;
		case 4: p.z = c.zNear + in; if (!ortho(c)) { p.x *= p.z / z; p.y *= p.z / z; } out = {0, 0, -1}; break;
		default: if (c.proj != 0) p.z = c.zFar - in; if (!ortho(c)) { p.x *= p.z / z; p.y *= p.z / z; } out = {0, 0, 1}; break;
		}
		V w = c.s * p.x + c.u * p.y + c.fw * p.z + c.pos, outw = c.s * out.x + c.u * out.y + c.fw * out.z;
		double sx = dot(o.rot.x, outw) > 0 ? -1 : 1, sy = dot(o.rot.y, outw) > 0 ? -1 : 1, sz = dot(o.rot.z, outw) > 0 ? -1 : 1;
		if (o.corner & 8) { sx = o.corner & 1 ? 1 : -1; sy = o.corner & 2 ? 1 : -1; sz = o.corner & 4 ? 1 : -1; }
		o.pos = rnd(w - mul(o.rot, V{m.x + sx * h.x, m.y + sy * h.y, m.z + sz * h.z}));
	}
	else o.pos = rnd(o.base + o.vel * t);
	o.np = 0; o.rad = len(h) + len(m);
	auto add = [&](double a, double b, double d) { o.pts[o.np++] = o.pos + mul(o.rot, V{m.x + a * h.x, m.y + b * h.y, m.z + d * h.z}); };
	for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) for (int d = -1; d <= 1; d++) add(a, b, d);
	Rng q((uint64_t)(t * 1e9) * 31 + (uint64_t)(uintptr_t)(&o - F->obj)); for (int i = 0; i < 12; i++) add(q.real(-1, 1), q.real(-1, 1), q.real(-1, 1));
	f32x4 P = f(o.pos), S = f(o.scl), A = f(o.axis); f32x4x4& M = o.model; Aabb& L = o.local; Aabb& W = o.world; int mode = o.mode;
	V lo = o.mid - o.half, hi = o.mid + o.half;
	callSut(nullptr, [&] {
		quat R(angle, A);
		switch (mode)
		{
		case 0: M = calcModel(P, R, S); break;
		case 1: M = translate(P) * rotate(R) * scale(S); break;
		case 2: M = scale(translate(P, rotate(R)), S); break;
		case 3: { f32x4 p, s; quat r; extractTransform(calcModel(P, R, S), p, r, s); M = calcModel(p, r, s); break; }
		default: M = translate(P, scale(rotate(R), S)); break;
		}
		L = Aabb(f(lo), f(hi));
		f32x4 mn = f32x4(INFINITY), mx = f32x4(-INFINITY);
		for (int i = 0; i < 8; i++)
		{
			f32x4 v = M * f32x4((float)(i & 1 ? hi.x : lo.x), (float)(i & 2 ? hi.y : lo.y), (float)(i & 4 ? hi.z : lo.z), 1.0f);
			mn = min(mn, v); mx = max(mx, v);
		}
		W = Aabb(mn, mx);
	});
}
void rebuild(const Op& op, bool useFault)
{
	Flight& w = *F; int n = w.nobj; Aabb root; double pad = w.fat ? 0.75 : 0;
	for (int i = 0; i < n; i++)
	{
		Object& o = w.obj[i];
		callSut(nullptr, [&] {
			f32x4 p((float)pad, (float)pad, (float)pad, 0.0f);
			w.boxes[i] = Aabb(o.world.getMin() - p, o.world.getMax() + p);
			if (i == 0) root = w.boxes[i]; else root = Aabb(min(root.getMin(), w.boxes[i].getMin()), max(root.getMax(), w.boxes[i].getMax())); });
	}
	if (w.loose) callSut(nullptr, [&] { root = Aabb(f32x4(-2000.0f), f32x4(2000.0f)); });
	bool viaAssign = op.a[3] & 1;
	for (int attempt = 0;; attempt++)
	{
		Op o = op; if (!useFault || attempt > (int)(op.a[4] & 1)) o.fmode = 0;
		Outcome r = callSut(&o, [&] { if (viaAssign) *w.bvh = Bvh(w.boxes, root, (uint32)n); else w.bvh->recreate(w.boxes, root, (uint32)n); });
		rt::record((uint64_t)r);
		if (r == OK) break;
		rt::count(P_REBUILD_OOM); rt::count(P_RETRY); w.current = false;
		if (attempt == 0 && (op.a[3] & 2)) return; // gives up for this frame: objects are tested one by one
	}
	w.current = true;
}
const char* projName(const Camera& c) { static const char* n[] = {"infinite reversed-Z perspective", "reversed-Z perspective", "perspective", "reversed-Z orthographic", "orthographic"}; return n[c.proj]; }
const char* modeName(const Camera& c) { static const char* n[] = {"lookAt", "inverseTransRot(calcModel)", "inverse4x4(calcModel)", "inverseTransRot(rotate(from, to))", "inverseTransRot(lookAtQuat)", "rotate(conjugate) * translate", "inverseTransRot(translate * rotate(front))"}; return n[c.mode]; }

void frame(const Op& op, int index)
{
	Flight& w = *F; double dt = (double)op.a[0] * 1e-9; rt::setOpIndex(index);
	rt::simTime((uint64_t)op.a[0]); w.t += dt; w.frames++;
	static const int ctr[] = {0, rt::F_CLOCK_JITTER, rt::F_CLOCK_STALL, rt::F_CLOCK_BURST, rt::F_CLOCK_ZERO}; if (op.a[1] > 0 && op.a[1] < 5) rt::count(ctr[op.a[1]]);
	for (auto& c : w.cam) placeCamera(c, w.t);
	bool fits = w.current && w.frames > 1;
	for (int i = 0; i < w.nobj; i++)
	{
		Object& o = w.obj[i]; placeObject(o, w.t, w.cam[0]);
		if (fits)
		{
			float a[4], b[4], c[4], d[4]; f32x4 v = o.world.getMin(); memcpy(a, (void*)&v, 16); v = o.world.getMax(); memcpy(b, (void*)&v, 16); v = w.boxes[i].getMin(); memcpy(c, (void*)&v, 16); v = w.boxes[i].getMax(); memcpy(d, (void*)&v, 16);
			for (int k = 0; k < 3; k++) if (!(a[k] >= c[k] && b[k] <= d[k])) fits = false;
		}
	}
	// objects kept in the stored boxes: no need to rebuild
	if (fits && w.fat) rt::count(P_STALE_BVH); else rebuild(op, true);
	rt::record((uint64_t)w.current);
}
void cull(const Op& op, int index)
{
	Flight& w = *F; rt::setOpIndex(index); int k = op.lane ? op.lane - 1 : (int)(op.a[0] & 3); if (k >= NCAM || !w.frames) return;
	Camera& c = w.cam[k]; Plane* planes = w.planes + k * 6; int count = c.planes;
	if (op.lane) rt::count(P_PARALLEL);
	if (ortho(c)) rt::count(P_ORTHO);
	if (c.proj == 0) rt::count(P_INFINITE);
	if (c.normalize) rt::count(P_NORMALIZED);
	Op quiet = op; quiet.fmode = 0;
	bool tr = (op.a[1] & 1) && op.lane == 0; uint32_t n = 0; uint32_t* out = w.out[k]; bool useBvh = w.current; bool hit[MAXOBJ] = {}; bool box[MAXOBJ] = {};
	callSut(&quiet, [&] { viewPlanes(c, planes); });
	if (useBvh)
	{
		if (tr) rt::count(P_TRAVERSE);
		for (int attempt = 0; attempt < 2; attempt++)
		{
			n = 0; const uint32_t* prim = w.bvh->getPrimitives().data();
			Outcome r = callSut(attempt ? &quiet : &op, [&] {
				if (tr) w.bvh->traverse([&](const Bvh::Node& node) { return !isBehindFrustum(planes, (uint8)count, node.aabb); },
					[&](uint32 first, uint32 m) { for (uint32 i = 0; i < m && n < (uint32)w.nobj; i++) out[n++] = prim[first + i]; });
				else n = w.bvh->collectInFrustum(planes, (uint8)count, out, op.lane || (op.a[1] & 2) ? w.stacks[k] : nullptr); });
			if (r == OK) break;
			rt::count(P_QUERY_OOM);
			if (!rt::opFaultFired()) break;
		}
		if (n > (uint32_t)w.nobj) rt::violate("foreign", "a query over %d objects returned %u", w.nobj, n);
		for (uint32_t i = 0; i < n; i++) { if (out[i] >= (uint32_t)w.nobj) rt::violate("foreign", "a query returned object %u of %d", out[i], w.nobj); hit[out[i]] = true; }
	}
	else rt::count(P_FALLBACK);
	if (useBvh && n && count == 6)
	{
		V lo{}, hi{}; { const Aabb& root = w.bvh->getNodes()[0].aabb; f32x4 v = root.getMin(); float a[4]; memcpy(a, (void*)&v, 16); lo = {a[0], a[1], a[2]}; v = root.getMax(); memcpy(a, (void*)&v, 16); hi = {a[0], a[1], a[2]}; }
		V corner[8]; for (int j = 0; j < 8; j++) corner[j] = {j & 1 ? hi.x : lo.x, j & 2 ? hi.y : lo.y, j & 4 ? hi.z : lo.z};
		double out = outside(c, corner, 1e-5 * len(hi - lo));
		if (out > 0) rt::violate("kept", "frame %d (%.6f s): a BVH %s returned %u objects although the whole scene lies more than %.3g outside one plane of the view volume; %s camera with %s", w.frames, w.t, tr ? "traversal" : "query", n, out, projName(c), modeName(c));
	}
	callSut(&quiet, [&] { for (int i = 0; i < w.nobj; i++) box[i] = !isBehindFrustum(planes, (uint8)count, w.obj[i].local, w.obj[i].model); });
	int vis = 0, culled = 0;
	for (int i = 0; i < w.nobj; i++)
	{
		Object& o = w.obj[i]; double best = -1e300; V at{}; 
		for (int j = 0; j < o.np; j++) { double d = inside(c, o.pts[j], marginOf(c, o.pts[j]) + 1e-5 * o.rad); if (d > best) { best = d; at = o.pts[j]; } }
		rt::count(rt::M_CHECKS); if (!box[i]) culled++;
		if (count == 6 && box[i])
		{
			V h{o.half.x * o.scl.x, o.half.y * o.scl.y, o.half.z * o.scl.z}, m{o.mid.x * o.scl.x, o.mid.y * o.scl.y, o.mid.z * o.scl.z}, corner[8];
			for (int j = 0; j < 8; j++) corner[j] = o.pos + mul(o.rot, V{m.x + (j & 1 ? h.x : -h.x), m.y + (j & 2 ? h.y : -h.y), m.z + (j & 4 ? h.z : -h.z)});
			double out = outside(c, corner, 1e-5 * o.rad);
			if (out > 0) rt::violate("kept", "frame %d (%.6f s): object %d is not culled by its box although all of it lies more than %.3g outside one plane of the view volume; %s camera with %s, model kind %d", w.frames, w.t, i, out, projName(c), modeName(c), o.mode);
		}
		if (best <= 0) { rt::count(P_INVISIBLE); continue; }
		vis++; rt::nontrivial(); if (o.tail) rt::count(P_EDGE); if (o.rad > 20) rt::count(P_BIG);
		{ V d = c.pos - o.pos, h{o.half.x * o.scl.x, o.half.y * o.scl.y, o.half.z * o.scl.z}, m{o.mid.x * o.scl.x, o.mid.y * o.scl.y, o.mid.z * o.scl.z}; if (std::fabs(dot(d, o.rot.x) - m.x) < h.x && std::fabs(dot(d, o.rot.y) - m.y) < h.y && std::fabs(dot(d, o.rot.z) - m.z) < h.z) rt::count(P_INSIDE_CAMERA); }
		if (useBvh && !hit[i])
			rt::violate("culled", "frame %d (%.6f s): object %d is missing from the BVH %s although (%.7g %.7g %.7g) is %.3g inside the view volume; %s camera with %s, %d objects", w.frames, w.t, i, tr ? "traversal" : "query", at.x, at.y, at.z, best + marginOf(c, at), projName(c), modeName(c), w.nobj);
		if (!box[i])
			rt::violate("culled", "frame %d (%.6f s): object %d is culled by its box although (%.7g %.7g %.7g) is %.3g inside the view volume; %s camera with %s, model kind %d", w.frames, w.t, i, at.x, at.y, at.z, best + marginOf(c, at), projName(c), modeName(c), o.mode);
	}
	rt::count(P_VISIBLE, vis); rt::count(P_CULLED, culled);
	rt::record((uint64_t)vis * 1000 + (uint64_t)culled); for (uint32_t i = 0; i < n; i++) rt::record(out[i]);
	if (!op.lane) rt::recordState(((uint64_t)c.mode * 5 + c.proj) * 4096 + (uint64_t)vis * 64 + culled);
}
struct Par { const Plan* p; size_t from, to; };
void laneBody(void* ctx, int lane)
{
	Par* g = (Par*)ctx;
	for (size_t i = g->from; i < g->to; i++) if (g->p->ops[i].lane - 1 == lane) cull(g->p->ops[i], (int)i);
}
void exec(const Plan& plan)
{
	Flight* w = F = new Flight(); Rng r(plan.seed ^ 0x77);
	double world = r.chance(0.2) ? 400 : 30;
	for (auto& c : w->cam)
	{
		c.mode = (int)r.below(7); c.proj = (int)r.below(5); c.base = {r.real(-world, world), r.real(-world, world) * 0.3, r.real(-world, world)}; c.vel = {r.real(-8, 8), r.real(-2, 2), r.real(-8, 8)};
		c.yaw0 = r.real(-3.1, 3.1); c.yawRate = r.real(-2, 2); c.pitch = r.real(-1.1, 1.1); c.upTilt = r.chance(0.5) ? 0 : r.real(-0.6, 0.6);
		if (c.mode == 6) c.upTilt = 0;
		c.fov = (float)r.real(0.2, 2.4); c.aspect = (float)r.real(0.4, 2.5); c.zNear = (float)r.real(0.05, 1); c.zFar = (float)(c.proj == 2 ? r.real(10, 120) : r.real(10, 600));
		c.width = float2((float)r.real(-40, -1), (float)r.real(1, 40)); c.height = float2((float)r.real(-30, -1), (float)r.real(1, 30));
		if (r.chance(0.3)) { c.width = float2(2.0f, 25.0f); }
		if (ortho(c) && r.chance(0.3)) c.zNear = r.chance(0.5) ? 0.0f : (float)r.real(-20, -1);
		c.normalize = r.chance(0.5); c.planes = r.chance(0.8) ? 6 : 1 + (int)r.below(6);
	}
	w->nobj = 1 + (int)r.below(r.chance(0.5) ? 8 : MAXOBJ);
	for (int i = 0; i < w->nobj; i++)
	{
		Object& o = w->obj[i]; const Camera& c = w->cam[r.below(NCAM)];
		o.base = c.base + V{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)} * (r.chance(0.5) ? 15 : 60); o.vel = r.chance(0.3) ? V{0, 0, 0} : V{r.real(-5, 5), r.real(-2, 2), r.real(-5, 5)};
		o.axis = unit(r); o.omega = r.chance(0.3) ? 0 : r.real(-4, 4); double size = r.chance(0.1) ? 60 : r.chance(0.5) ? 0.5 : 3;
		o.half = rnd({r.real(0, size), r.real(0, size), r.real(0, size)}); o.mid = r.chance(0.5) ? V{0, 0, 0} : rnd(V{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)} * size);
		{ V lo = rnd(o.mid - o.half), hi = rnd(o.mid + o.half); o.mid = (lo + hi) * 0.5; o.half = (hi - lo) * 0.5; }
		o.scl = r.chance(0.4) ? V{1, 1, 1} : rnd({r.real(0.2, 3), r.real(0.2, 3), r.real(0.2, 3)}); o.mode = (int)r.below(5); if (o.mode == 4 && !(o.scl.x == o.scl.y && o.scl.y == o.scl.z)) o.scl = {o.scl.x, o.scl.x, o.scl.x};
		o.tail = r.chance(0.5); o.tailDepth = r.unit() * r.unit(); o.tailSide = r.real(0.02, 0.98); o.tailIn = r.real(2.5, 30); o.tailPlane = (int)r.below(6); o.corner = (int)r.below(16);
	}
	w->fat = plan.knob("fat"); w->loose = plan.knob("loose");
	w->boxes = (Aabb*)rt::bufAlloc(sizeof(Aabb) * w->nobj, 16); w->planes = (Plane*)rt::bufAlloc(sizeof(Plane) * 6 * NCAM, 16);
	w->bvh = (Bvh*)rt::bufAlloc(sizeof(Bvh), alignof(Bvh)); callSut(nullptr, [&] { new (w->bvh) Bvh(); });
	for (int i = 0; i < NCAM; i++) { w->out[i] = (uint32_t*)rt::bufAlloc(4 * w->nobj, 4); w->stacks[i] = (std::stack<Bvh::Node*>*)rt::bufAlloc(sizeof(*w->stacks[i]), 16); callSut(nullptr, [&] { new (w->stacks[i]) std::stack<Bvh::Node*>(); }); }
	for (size_t i = 0; i < plan.ops.size();)
	{
		const Op& op = plan.ops[i];
		if (op.lane <= 0) { if (op.kind == FRAME) frame(op, (int)i); else cull(op, (int)i); i++; continue; }
		Par g{&plan, i, i}; int lanes = 0;
		while (g.to < plan.ops.size() && plan.ops[g.to].lane > 0) { lanes = std::max(lanes, plan.ops[g.to].lane); g.to++; }
		rt::runParallel(std::min<int>(lanes, NCAM), laneBody, &g);
		i = g.to;
	}
}
void gen(Plan& p, Rng& r)
{
	p.knobs["heap_reuse"] = r.chance(0.5); p.knobs["heap_skew"] = r.chance(0.5); p.knobs["heap_garbage"] = (int64_t)(r.next() >> 2);
	p.knobs["fat"] = r.chance(0.5); p.knobs["loose"] = r.chance(0.2);
	int n = 1 + (int)r.below(10); int64_t nominal = r.chance(0.5) ? 16666667 : (int64_t)(1e9 / r.real(5, 240)); double cf = r.chance(0.3) ? 0 : r.real(0.1, 0.6), fr = r.chance(0.4) ? 0 : r.real(0.1, 0.6); bool fpu = r.chance(0.15);
	auto fault = [&](Op& o, int span) { if (!r.chance(fr)) return; o.fmode = r.chance(0.7) ? rt::FM_NTH : rt::FM_FROM; o.fn = 1 + (int64_t)r.below((uint64_t)span); };
	for (int i = 0; i < n; i++)
	{
		Op o; o.kind = FRAME; o.a[0] = nominal; o.a[1] = STEADY; o.seed = r.next() >> 1;
		if (r.chance(cf)) switch (r.below(6))
		{
		case 0: o.a[0] = (int64_t)(r.real(0.3, 3) * 1e9); o.a[1] = STALL; break;
		case 1: o.a[0] = 0; o.a[1] = ZERO; break;
		case 2: o.a[0] = 1 + (int64_t)r.logUniform(1000000); o.a[1] = BURST; break;
		default: o.a[0] = (int64_t)(nominal * r.real(0.3, 3)); o.a[1] = JITTER; break;
		}
		o.a[3] = (int64_t)r.below(4); o.a[4] = (int64_t)r.below(2); fault(o, 8);
		p.ops.push_back(o);
		if (r.chance(0.25))
		{
			int lanes = 2 + (int)r.below(3);
			for (int l = 1; l <= lanes; l++)
			{
				Op q; q.kind = CULL; q.lane = l; q.a[1] = (int64_t)r.below(4); q.seed = r.next() >> 1; fault(q, 3); int np = (int)r.below(6);
				for (int j = 0; j < np; j++) q.pre.push_back({(uint32_t)r.logUniform(2000), (uint8_t)r.below(8), (uint8_t)r.chance(0.15)});
				std::sort(q.pre.begin(), q.pre.end(), [](const rt::Pre& x, const rt::Pre& y) { return x.step < y.step; });
				p.ops.push_back(q);
			}
			continue;
		}
		int views = 1 + (int)r.below(3);
		for (int v = 0; v < views; v++)
		{
			Op q; q.kind = CULL; q.a[0] = v ? (int64_t)r.below(4) : 0; q.a[1] = (int64_t)r.below(4); q.seed = r.next() >> 1; fault(q, 3); if (fpu && r.chance(0.5)) q.fpu = 1 + (int)r.below(5);
			p.ops.push_back(q);
		}
	}
}
}

const sim::Scenario sim::scenario = {"flight", gen, exec, opName, {"visible_objects", "invisible_objects", "culled_objects", "corner_barely_inside", "large_visible_object", "rebuild_out_of_memory", "rebuild_retried",
	"bvh_kept_from_earlier_frame", "parallel_views", "query_out_of_memory", "orthographic", "infinite_far_plane", "normalized_planes", "culled_by_traversal", "tested_without_bvh", "camera_inside_object"}, 20, {"dt_or_camera", "clock_or_variant", "-", "rebuild", "retries"}};
