// Scenario: histories of operations on BVHs (C01-C06, C10).
#include "common.h"
#include "math/bvh.hpp"
#include <algorithm>
#include <deque>
#include <stack>

using namespace sim;
using math::Aabb; using math::Bvh; using math::Plane; using math::f32x4;
typedef std::stack<Bvh::Node*> NodeStack;

enum Kind { BUILD, COPY_CTOR, COPY_ASSIGN, MOVE_CTOR, MOVE_ASSIGN, SWAP, QUERY, TRAVERSE, DESTROY, CURSOR, NKINDS };
static const char* kindNames[] = { "build", "copy-construct", "copy-assign", "move-construct", "move-assign", "swap", "query", "traverse", "destroy", "shift-stack-cursor" };
static const char* opName(int k) { return k >= 0 && k < NKINDS ? kindNames[k] : "?"; }

enum Probe
{
	PR_DEEP = rt::P_FIRST, PR_ROOT_LEAF, PR_BIG_LEAF, PR_REBUILD_AFTER_FAIL, PR_USE_AFTER_ABORT, PR_QUERY_OOM, PR_BUILD_OOM, PR_COPY_OOM,
	PR_MOVE_OOM, PR_NESTED, PR_KEEP_OLD, PR_BECAME_EMPTY, PR_SHRINK, PR_GROW, PR_EXACT_TOUCH, PR_PARTIAL_RESULT, PR_AMBIGUOUS, PR_SUPPLIED_CENTROIDS,
	PR_U16, PR_TRIANGLES, PR_SELF_ASSIGN, PR_MOVED_FROM_REUSED, PR_CONCURRENT_OPS, PR_COPY_DIVERGED, PR_TRAVERSE_OOM, PR_MUTATED, PR_BIG_INDEX, PR_OWN_ROOT, PR_OWN_CENTROIDS, PR_QUALITY, PR_BEHIND_HALVED, PR_UNUSED_LANES, PR_UNDIVIDED, PR_END
};
static_assert((int)PR_END <= (int)rt::NCOUNTERS, "counters");

enum { NSLOTS = 3, MAXN = 700 };
enum SceneKind { S_UNIFORM, S_LATTICE, S_SAME, S_CLUSTERS, S_ULP, S_DENORMAL, S_HUGE, S_CHAIN, S_FLAT, S_POINTS, S_MIXED, S_TINYRANGE, S_ROW, S_SCATTER, S_SKEW, NSCENES };
enum RootMode { R_EXACT, R_LOOSE, R_INF, R_FULL, R_ZERO, R_PARTIAL, NROOTS };
enum CentroidMode { C_NONE, C_EXACT, C_RANDOM, C_CHAIN, C_SAME, C_ULP, NCENTROIDS };

//---------------------------------------------------------------------------------------------------------------------
struct V3 { float v[3]; };
struct Scene
{
	std::vector<V3> mn, mx, mid; V3 rmn, rmx; bool exact = false, finite = true, encloses = true; // mid: centroids of triangles
	bool tri = false; bool centroidsGiven = false;
	int n() const { return (int)mn.size(); }
};
struct Buffers // exact-size input buffers in simulated memory
{
	uint8_t* vertices = nullptr; uint8_t* indices = nullptr; Aabb* aabbs = nullptr; f32x4* centroids = nullptr;
	uint32_t indexCount = 0, vertexSize = 0, indexSize = 0; size_t vertexBytes = 0; Aabb root;
	std::shared_ptr<Scene> scene;
	~Buffers() { rt::bufFree(vertices); rt::bufFree(indices); rt::bufFree(aabbs); rt::bufFree(centroids); }
	// Takes over the memory of an earlier input of the same shape, as an application that updates its arrays in place.
	void reuse(Buffers& o)
	{
		if (scene->n() != o.scene->n()) return;
		if (aabbs && o.aabbs) { std::memcpy((void*)o.aabbs, (const void*)aabbs, sizeof(Aabb) * (size_t)scene->n()); std::swap(aabbs, o.aabbs); }
		if (centroids && o.centroids) { std::memcpy((void*)o.centroids, (const void*)centroids, sizeof(f32x4) * (size_t)scene->n()); std::swap(centroids, o.centroids); }
		if (vertices && o.vertices && vertexBytes == o.vertexBytes && vertexSize == o.vertexSize && indexSize == o.indexSize)
		{
			std::memcpy(o.vertices, vertices, vertexBytes); std::memcpy(o.indices, indices, (size_t)indexCount * indexSize);
			std::swap(vertices, o.vertices); std::swap(indices, o.indices);
		}
	}
	void protect(bool on)
	{
		for (void* p : { (void*)vertices, (void*)indices, (void*)aabbs, (void*)centroids }) if (p) rt::protectConst(p, on);
	}
};

static float coordOf(int kind, Rng& r, int i, int axis, float scale)
{
	switch (kind)
	{
	case S_UNIFORM: return (float)r.real(-100, 100);
	case S_LATTICE: return (float)r.range(-60, 60);
	case S_SAME: return 3.0f;
	case S_CLUSTERS: return (float)r.range(-2, 2) * 10.0f;
	case S_ULP: return ulpStep(scale, (int)r.below(3));
	case S_DENORMAL: return (float)r.range(-3, 3) * 1.4e-45f * (float)(1 << (int)r.below(6));
	case S_HUGE: return (float)r.real(-3.0e38, 3.0e38);
	case S_CHAIN: return axis == 0 ? ldexpf(1.0f, (i * 2) % 200 - 100) : (float)r.real(-1, 1);
	case S_FLAT: return axis == 1 ? 5.0f : (float)r.real(-50, 50);
	case S_POINTS: return (float)r.range(-8, 8);
	case S_TINYRANGE: return scale + (float)r.below(4) * scale * 1e-7f;
	default: return (float)r.real(-1, 1);
	}
}
static std::shared_ptr<Buffers> makeBuffers(const Op& op)
{
	auto b = std::make_shared<Buffers>(); auto s = std::make_shared<Scene>(); b->scene = s;
	Rng r(op.seed);
	int kind = (int)(std::llabs(op.a[1]) % NSCENES); int n = (int)std::min<int64_t>(std::max<int64_t>(op.a[2], 1), MAXN);
	int64_t flags = op.a[3];
	bool tri = flags & 2, u16 = flags & 4; int stride = (int)((flags >> 3) & 3);
	int rootMode = (int)(std::llabs(op.a[4]) % NROOTS), centMode = (int)(std::llabs(op.a[5]) % NCENTROIDS);
	s->tri = tri; s->exact = kind == S_LATTICE || kind == S_CLUSTERS || kind == S_POINTS || kind == S_SAME; s->finite = kind != S_HUGE;
	float scale = kind == S_ULP || kind == S_TINYRANGE ? (float)(r.chance(0.5) ? r.real(0.1, 2000) : ldexp(1.0, (int)r.range(-60, 60))) : 1.0f;
	int hot = (int)r.below(3); // axis that varies in one-ulp scenes
	const float unit = ldexpf(1.0f, -(int)((flags >> 6) & 31)); // scenes of other units
	auto coord = [&](int i, int axis) {
		int k = kind == S_MIXED ? (int)(i % 5) : kind;
		if (k == S_ULP && axis != hot && (op.seed & 1)) return scale;
		if (k == S_ROW) return (axis == hot ? (float)i * ((op.seed & 4) ? 4.0f : 1.5f) + ((op.seed & 8) ? (float)(i / 7) * 300.0f : 0.0f) : 0.0f) + (float)r.real(0, 1); // small objects along one axis
		if (k == S_SCATTER) { Rng c(op.seed * 31 + (uint64_t)((op.seed & 4) ? i : i % 9) * 1000003); float x = 0; for (int q = 0; q <= axis; q++) x = (float)c.real(-1, 1); return x * ((op.seed & 8) ? 1000.0f : 60.0f) + (float)r.real(-1, 1) * ((op.seed & 4) ? 0.5f : 8.0f); }
		if (k == S_SKEW) { float x = (float)r.real(0, 1); return 100.0f * x * x * x * ((op.seed & 4) ? x * x : 1.0f); } // denser and denser to one corner
		return coordOf(k, r, i, axis, scale); };
	// Changes a few elements only, as between two frames of an animated scene.
	auto mutate = [&](int count, const std::function<void(int, int)>& copy, const std::function<void(int, float)>& move) {
		if (!op.a[7] || count < 2) return;
		Rng m((uint64_t)op.a[7]); int mode = (int)m.below(4);
		float d = (op.a[7] >> 3) & 1 ? (float)m.range(-30, 30) : (float)m.real(-5, 5); // whole steps keep lattice scenes exact
		if (mode == 0) move((int)m.below((uint64_t)count), d);
		else if (mode == 1) { for (int i = 1; i + 1 < count; i++) if (m.chance(0.7)) move(i, m.chance(0.3) ? d : d * (float)m.range(-3, 3)); }
		else if (mode == 2) { int k = 1 + (int)m.below(3); for (int i = 0; i < k; i++) copy((int)m.below((uint64_t)count), (int)m.below((uint64_t)count)); }
		else for (int i = 0; i < count; i++) move(i, d); };
	if (op.a[7] && !((op.a[7] >> 3) & 1)) s->exact = false;
	if (tri)
	{
		int nv = r.chance(0.3) ? (int)r.range(1, std::max(1, n)) : 3 * n; // shared or separate vertices
		if (u16 && nv > 65535) nv = 65535;
		uint32_t base = 0; // number of unused vertices in front of the mesh
		if (flags & 32) base = u16 ? (uint32_t)r.range(30000, 65536 - nv) : (uint32_t)r.range(60000, 80000);
		b->vertexSize = 12 + 4 * (uint32_t)(stride == 3 ? 5 : stride); b->indexSize = u16 ? 2 : 4; b->indexCount = (uint32_t)n * 3;
		std::vector<V3> v((size_t)nv);
		for (int i = 0; i < nv; i++) for (int a = 0; a < 3; a++) v[i].v[a] = (coord(i / 3, a) + (kind == S_UNIFORM ? (float)r.real(-3, 3) : 0.0f)) * unit;
		mutate(nv, [&](int i, int j) { v[i] = v[j]; }, [&](int i, float d) { for (int a = 0; a < 3; a++) { float x = v[i].v[a] + d * unit; if (std::isfinite(x)) v[i].v[a] = x; } });
		b->vertexBytes = (size_t)(base + nv - 1) * b->vertexSize + 12;
		b->vertices = (uint8_t*)rt::bufAlloc(b->vertexBytes, 16, r.chance(0.3) ? 4 : 0);
		std::memset(b->vertices, 0x5A, b->vertexBytes);
		for (int i = 0; i < nv; i++) std::memcpy(b->vertices + (size_t)(base + i) * b->vertexSize, v[i].v, 12);
		b->indices = (uint8_t*)rt::bufAlloc((size_t)b->indexCount * b->indexSize, 16, u16 && r.chance(0.3) ? 2 : 0);
		for (int i = 0; i < n; i++)
		{
			V3 mn, mx; double mid[3] = {}; for (int a = 0; a < 3; a++) { mn.v[a] = FLT_MAX; mx.v[a] = -FLT_MAX; }
			for (int k = 0; k < 3; k++)
			{
				uint32_t id = nv == 3 * n ? (uint32_t)(i * 3 + k) : (uint32_t)r.below((uint64_t)nv);
				uint32_t id4 = base + id; uint16_t id2 = (uint16_t)id4;
				if (u16) std::memcpy(b->indices + ((size_t)i * 3 + k) * 2, &id2, 2);
				else std::memcpy(b->indices + ((size_t)i * 3 + k) * 4, &id4, 4);
				for (int a = 0; a < 3; a++) { mn.v[a] = std::min(mn.v[a], v[id].v[a]); mx.v[a] = std::max(mx.v[a], v[id].v[a]); mid[a] += (double)v[id].v[a] / 3; }
			}
			s->mid.push_back({(float)mid[0], (float)mid[1], (float)mid[2]});
			s->mn.push_back(mn); s->mx.push_back(mx);
		}
	}
	else
	{
		b->aabbs = (Aabb*)rt::bufAlloc(sizeof(Aabb) * (size_t)n, 32);
		for (int i = 0; i < n; i++)
		{
			V3 mn, mx;
			for (int a = 0; a < 3; a++)
			{
				float c = coord(i, a), e = 0;
				switch (kind)
				{
				case S_UNIFORM: e = (float)r.real(0, 5); break;
				case S_LATTICE: case S_CLUSTERS: e = (float)r.below(5); break;
				case S_SAME: e = 1; break;
				case S_ULP: case S_DENORMAL: case S_POINTS: case S_TINYRANGE: e = 0; break;
				case S_HUGE: e = (float)r.real(0, 1e38); break;
				case S_CHAIN: e = std::fabs(c) * 0.1f; break;
				case S_FLAT: e = a == 1 ? 0.0f : (float)r.real(0, 2); break;
				case S_SKEW: e = 0.02f * c + 0.001f; break;
				case S_ROW: case S_SCATTER: e = (float)r.real(0, 0.6); break;
				default: e = (float)r.below(3); break;
				}
				c *= unit; e *= unit; mn.v[a] = std::max(c - e, -FLT_MAX); mx.v[a] = std::min(c + e, FLT_MAX);
			}
			s->mn.push_back(mn); s->mx.push_back(mx);
		}
		mutate(n, [&](int i, int j) { s->mn[i] = s->mn[j]; s->mx[i] = s->mx[j]; },
			[&](int i, float d) { for (int a = 0; a < 3; a++) { float x = s->mn[i].v[a] + d * unit, y = s->mx[i].v[a] + d * unit; if (std::isfinite(x) && std::isfinite(y)) { s->mn[i].v[a] = x; s->mx[i].v[a] = y; } } });
		for (int i = 0; i < n; i++)
		{
			V3 mn = s->mn[i], mx = s->mx[i];
			uint32_t w0 = (uint32_t)r.next() & 0x3FFFFFFF, w1 = (uint32_t)r.next() & 0x3FFFFFFF; // the unused lanes hold anything
			f32x4 a(mn.v[0], mn.v[1], mn.v[2], 0.0f), c(mx.v[0], mx.v[1], mx.v[2], 0.0f);
			if (op.seed & 2) { std::memcpy((char*)&a + 12, &w0, 4); std::memcpy((char*)&c + 12, &w1, 4); }
			new (&b->aabbs[i]) Aabb(a, c);
		}
	}
	V3 lo = s->mn[0], hi = s->mx[0];
	for (int i = 0; i < n; i++) for (int a = 0; a < 3; a++) { lo.v[a] = std::min(lo.v[a], s->mn[i].v[a]); hi.v[a] = std::max(hi.v[a], s->mx[i].v[a]); }
	for (int a = 0; a < 3; a++)
	{
		switch (rootMode)
		{
		case R_LOOSE: lo.v[a] = std::max(lo.v[a] - (float)r.below(20), -FLT_MAX); hi.v[a] = std::min(hi.v[a] + (float)r.below(20), FLT_MAX); break;
		case R_INF: lo.v[a] = -INFINITY; hi.v[a] = INFINITY; break;
		case R_FULL: lo.v[a] = -FLT_MAX; hi.v[a] = FLT_MAX; s->finite = false; break;
		case R_ZERO: lo.v[a] = hi.v[a] = 0; s->encloses = false; break;
		case R_PARTIAL: if (a == (int)(op.seed % 3)) hi.v[a] = lo.v[a]; s->encloses = false; break;
		}
	}
	s->rmn = lo; s->rmx = hi;
	b->root = Aabb(f32x4(lo.v[0], lo.v[1], lo.v[2], 0.0f), f32x4(hi.v[0], hi.v[1], hi.v[2], 0.0f));
	if (centMode != C_NONE)
	{
		s->centroidsGiven = true;
		b->centroids = (f32x4*)rt::bufAlloc(sizeof(f32x4) * (size_t)n, 16);
		for (int i = 0; i < n; i++)
		{
			float c[3];
			for (int a = 0; a < 3; a++)
				switch (centMode)
				{
				case C_EXACT: c[a] = s->mn[i].v[a] * 0.5f + s->mx[i].v[a] * 0.5f; break;
				case C_RANDOM: c[a] = (float)r.real(-1000, 1000); break;
				case C_CHAIN: c[a] = a == hot ? ldexpf(1.0f, (int)(i * 250 / std::max(n, 1)) - 120) : 0.0f; break;
				case C_SAME: c[a] = 1.0f; break;
				default: c[a] = ulpStep(a == hot ? 1.5f : 1.0f, a == hot ? (int)r.below(3) : 0); break;
				}
			b->centroids[i] = f32x4(c[0], c[1], c[2], 0.0f);
		}
	}
	return b;
}

//---------------------------------------------------------------------------------------------------------------------
enum State { EMPTY, VALID, UNKNOWN };
struct Slot
{
	Bvh* obj = nullptr; State state = EMPTY; std::shared_ptr<Scene> scene;
	std::vector<uint8_t> nodes; std::vector<uint32_t> prims; bool failed = false, aborted = false, moved = false; int depth = 0, leaves = 0;
	std::shared_ptr<int> family; // copies share it
};
struct World
{
	const Plan* plan; char prop[8]; Slot slots[NSLOTS];
	NodeStack* lane[rt::MAX_THREADS + 1] = {}; bool laneAborted[rt::MAX_THREADS + 1] = {};
	bool tree, fresh, failure, query, traverse, par, mem, quality, pinInputs = false;
	std::shared_ptr<Buffers> pinned;
};
static World* W;

static std::vector<uint8_t> nodeBytes(const Bvh& b)
{
	auto& v = b.getNodes(); std::vector<uint8_t> o(v.size() * sizeof(Bvh::Node));
	if (!v.empty()) std::memcpy((void*)o.data(), (const void*)v.data(), o.size());
	return o;
}
static std::vector<uint32_t> primVec(const Bvh& b) { auto& p = b.getPrimitives(); return std::vector<uint32_t>(p.begin(), p.end()); }
// what the getters show; centroids only where the build computed them itself
static std::vector<uint8_t> contents(const Slot& s)
{
	auto o = nodeBytes(*s.obj); if (!s.scene || s.scene->centroidsGiven) return o;
	for (auto& c : s.obj->getCentroids()) { const uint8_t* p = (const uint8_t*)&c; o.insert(o.end(), p, p + 12); }
	return o;
}
static bool holds(const Slot& s) // object still has exactly the recorded contents
{
	return contents(s) == s.nodes && primVec(*s.obj) == s.prims;
}
static void snapshot(Slot& s) { s.nodes = contents(s); s.prims = primVec(*s.obj); }
static void box(const Bvh::Node& n, V3& lo, V3& hi)
{
	std::memcpy(lo.v, (const char*)&n.aabb, 12); std::memcpy(hi.v, (const char*)&n.aabb + sizeof(f32x4), 12);
}

// C01: complete, tight, single tree
static void verifyTree(Slot& s, int slotId, bool deciding)
{
	auto& nodes = s.obj->getNodes(); auto& prims = s.obj->getPrimitives(); const Scene& sc = *s.scene;
	size_t nn = nodes.size(); std::vector<uint8_t> seen(nn); std::vector<uint8_t> slotSeen(prims.size()); std::vector<uint8_t> got((size_t)sc.n());
	rt::count(rt::M_CHECKS);
	auto bad = [&](const char* cls, const char* fmt, long a, long b, long c) {
		char m[300]; snprintf(m, sizeof m, fmt, a, b, c);
		if (deciding) rt::violate(cls, "bvh %d (%d primitives, %zu nodes): %s", slotId, sc.n(), nn, m);
		rt::violate("broken-tree", "bvh %d is not a usable tree: %s", slotId, m); };
	if (!nn) bad("tree-empty", "no nodes after a successful build", 0, 0, 0);
	struct Frame { uint32_t id; int depth; int phase; };
	std::vector<Frame> st{{0, 1, 0}}; std::vector<V3> lo(nn), hi(nn); int maxDepth = 0, leaves = 0;
	seen[0] = 1;
	while (!st.empty())
	{
		Frame f = st.back(); st.pop_back(); const auto& nd = nodes[f.id];
		maxDepth = std::max(maxDepth, f.depth);
		if (nd.isLeaf())
		{
			leaves++;
			uint32_t first = nd.getFirstPrimitive(), cnt = nd.getPrimitiveCount();
			if ((uint64_t)first + cnt > prims.size()) bad("leaf-range", "leaf %ld lists primitives %ld + %ld beyond the primitive array", f.id, first, cnt);
			V3 l, h; for (int a = 0; a < 3; a++) { l.v[a] = INFINITY; h.v[a] = -INFINITY; }
			for (uint32_t i = first; i < first + cnt; i++)
			{
				uint32_t p = prims[i];
				if (slotSeen[i]++) bad("leaf-overlap", "primitive position %ld belongs to two leaves (second: leaf %ld)", i, f.id, 0);
				if (p >= (uint32_t)sc.n()) bad("primitive-id", "leaf %ld lists unknown primitive %ld", f.id, p, 0);
				if (got[p]++) bad("primitive-twice", "primitive %ld listed twice (leaf %ld)", p, f.id, 0);
				for (int a = 0; a < 3; a++) { l.v[a] = std::min(l.v[a], sc.mn[p].v[a]); h.v[a] = std::max(h.v[a], sc.mx[p].v[a]); }
			}
			if (cnt > 8) rt::count(PR_BIG_LEAF);
			lo[f.id] = l; hi[f.id] = h;
		}
		else
		{
			uint32_t left = nd.getLeftNode();
			if (f.phase == 0)
			{
				if (left < 1 || (uint64_t)left + 1 >= nn) bad("child-range", "node %ld has children %ld.. outside the %ld nodes", f.id, left, (long)nn);
				if (seen[left] || seen[left + 1]) bad("not-a-tree", "node %ld reaches node %ld a second time", f.id, seen[left] ? left : left + 1, 0);
				seen[left] = seen[left + 1] = 1;
				st.push_back({f.id, f.depth, 1}); st.push_back({left, f.depth + 1, 0}); st.push_back({left + 1, f.depth + 1, 0});
				continue;
			}
			for (int a = 0; a < 3; a++) { lo[f.id].v[a] = std::min(lo[left].v[a], lo[left + 1].v[a]); hi[f.id].v[a] = std::max(hi[left].v[a], hi[left + 1].v[a]); }
		}
		V3 bl, bh; box(nd, bl, bh);
		for (int a = 0; a < 3; a++)
		{
			float el = f.id ? lo[f.id].v[a] : sc.rmn.v[a], eh = f.id ? hi[f.id].v[a] : sc.rmx.v[a];
			if (!(bl.v[a] == el) || !(bh.v[a] == eh))
			{
				char m[200]; snprintf(m, sizeof m, "%s box axis %d is [%.9g, %.9g], expected [%.9g, %.9g] (node %u)", f.id ? "node" : "root", a, bl.v[a], bh.v[a], el, eh, f.id);
				if (deciding) rt::violate(f.id ? "box-not-tight" : "root-box", "bvh %d (%d primitives): %s", slotId, sc.n(), m);
			}
		}
	}
	if (deciding && !sc.centroidsGiven)
	{
		auto& cent = s.obj->getCentroids();
		if (cent.size() != (size_t)sc.n()) rt::violate("centroids", "bvh %d has %zu centroids of %d primitives it computed them for", slotId, cent.size(), sc.n());
		for (int i = 0; i < sc.n(); i++) for (int a = 0; a < 3; a++)
		{
			double l = sc.mn[i].v[a], h = sc.mx[i].v[a], want = sc.tri ? (double)sc.mid[i].v[a] : l * 0.5 + h * 0.5, big = std::max(std::fabs(l), std::fabs(h)); float c; std::memcpy(&c, (const char*)&cent[i] + 4 * a, 4);
			if (big < 1e38 && !(std::fabs(c - want) <= 1e-6 * big + 1e-37)) rt::violate("centroids", "bvh %d (%d primitives): the centroid of primitive %d is %.9g on axis %d instead of %.9g", slotId, sc.n(), i, c, a, want);
		}
	}
	for (int i = 0; i < sc.n(); i++) if (!got[i]) bad("primitive-missing", "primitive %ld is in no leaf", i, 0, 0);
	for (size_t i = 0; i < nn; i++) if (!seen[i]) bad("unreachable-node", "node %ld cannot be reached from the root", (long)i, 0, 0);
	s.depth = maxDepth; s.leaves = leaves;
	if (maxDepth > 60) rt::count(PR_DEEP);
	if (nn == 1) rt::count(PR_ROOT_LEAF);
}

// C27: the tree divides the scene. Cost of a query: expected number of boxes a small query looks at, by surface area.
static double areaOf(const double* lo, const double* hi) { double x = hi[0] - lo[0], y = hi[1] - lo[1], z = hi[2] - lo[2]; return x * y + x * z + y * z; }
static double halvedCost(const Scene& sc, std::vector<int>& ids, size_t from, size_t to, double* lo, double* hi) // reference: halves along the longest axis
{
	double cl[3], ch[3]; for (int a = 0; a < 3; a++) { lo[a] = cl[a] = INFINITY; hi[a] = ch[a] = -INFINITY; }
	auto mid = [&](int i, int a) { return ((double)sc.mn[i].v[a] + sc.mx[i].v[a]) / 2; };
	for (size_t k = from; k < to; k++) for (int a = 0; a < 3; a++) { int i = ids[k]; lo[a] = std::min(lo[a], (double)sc.mn[i].v[a]); hi[a] = std::max(hi[a], (double)sc.mx[i].v[a]); cl[a] = std::min(cl[a], mid(i, a)); ch[a] = std::max(ch[a], mid(i, a)); }
	int ax = 0; for (int a = 1; a < 3; a++) if (ch[a] - cl[a] > ch[ax] - cl[ax]) ax = a;
	if (to - from <= 2 || ch[ax] == cl[ax]) return areaOf(lo, hi) * (double)(to - from);
	size_t m = (from + to) / 2; std::nth_element(ids.begin() + from, ids.begin() + m, ids.begin() + to, [&](int x, int y) { double p = mid(x, ax), q = mid(y, ax); return p < q || (p == q && x < y); });
	double l1[3], h1[3], l2[3], h2[3]; return areaOf(lo, hi) + halvedCost(sc, ids, from, m, l1, h1) + halvedCost(sc, ids, m, to, l2, h2);
}
static const double LEAF_SLACK = 3;
static void verifyQuality(Slot& s, int id, int kind)
{
	const Scene& sc = *s.scene; if (!sc.encloses || !sc.finite || sc.centroidsGiven || sc.n() < 4) return;
	if (kind == S_SAME || kind == S_ULP || kind == S_DENORMAL || kind == S_TINYRANGE) return; // objects that single precision hardly tells apart
	double lo[3], hi[3]; std::vector<int> ids((size_t)sc.n()); for (int i = 0; i < sc.n(); i++) ids[(size_t)i] = i;
	double ref = halvedCost(sc, ids, 0, ids.size(), lo, hi), root = areaOf(lo, hi), cost = root; if (!(root > 1e-30) || !(root < 1e30)) return;
	auto& nodes = s.obj->getNodes(); if (nodes[0].isLeaf()) cost = root * sc.n();
	for (size_t i = 1; i < nodes.size(); i++) { V3 a, b; box(nodes[i], a, b); double l[3] = {a.v[0], a.v[1], a.v[2]}, h[3] = {b.v[0], b.v[1], b.v[2]}; cost += areaOf(l, h) * (nodes[i].isLeaf() ? nodes[i].getPrimitiveCount() : 1); }
	double q = cost / ref; rt::count(rt::M_CHECKS); rt::count(PR_QUALITY); if (q > 1) rt::count(PR_BEHIND_HALVED);
	static const bool dbg = getenv("SIM_QUAL"); if (dbg) { static double worst[NSCENES][2]; if (q > worst[kind][sc.tri]) { worst[kind][sc.tri] = q; fprintf(stderr, "QUAL kind %d tri %d n %d ratio %.3f cost %.3f nodes %zu\n", kind, sc.tri, sc.n(), q, cost / root, nodes.size()); } }
	if (!(cost <= 1.5 * ref + root)) rt::violate("poor-tree", "bvh %d (%d primitives, %zu nodes): a small query is expected to look at %.4g boxes, in a tree that halves the scene at %.4g", id, sc.n(), nodes.size(), cost / root, ref / root);
	for (size_t i = 0; i < nodes.size(); i++) // no part of the scene is left as one big leaf
	{
		if (!nodes[i].isLeaf() || nodes[i].getPrimitiveCount() < 8) continue;
		size_t m = nodes[i].getPrimitiveCount(); std::vector<int> part(m); for (size_t k = 0; k < m; k++) part[k] = (int)s.obj->getPrimitives()[nodes[i].getFirstPrimitive() + k];
		double best = halvedCost(sc, part, 0, m, lo, hi), area = areaOf(lo, hi), leaf = area * (double)m; rt::count(PR_UNDIVIDED);
		if (dbg && area > 1e-30) { static double worst[NSCENES][2]; if (leaf / best > worst[kind][sc.tri]) { worst[kind][sc.tri] = leaf / best; fprintf(stderr, "LEAF kind %d tri %d n %d leaf %zu ratio %.3f\n", kind, sc.tri, sc.n(), m, leaf / best); } }
		if (area > 1e-30 && !(leaf <= LEAF_SLACK * best)) rt::violate("undivided", "bvh %d (%d primitives, %zu nodes): a leaf of %zu primitives is not divided: a small query looks at %.4g boxes there, and at %.4g when it is halved", id, sc.n(), nodes.size(), m, leaf / area, best / area);
	}
}

static int slotOf(int64_t v) { return (int)(std::llabs(v) % NSLOTS); }
static void destroy(Slot& s)
{
	if (!s.obj) return;
	Bvh* o = s.obj; s.obj = nullptr;
	callSut(nullptr, [&] { o->~Bvh(); });
	rt::bufFree(o); s = Slot();
}
static Bvh* rawBvh() { return (Bvh*)rt::bufAlloc(sizeof(Bvh), 16); }
static void ensure(Slot& s)
{
	if (s.obj) return;
	Bvh* o = rawBvh();
	callSut(nullptr, [&] { new (o) Bvh(); });
	s = Slot(); s.obj = o; s.state = EMPTY;
}
// ownRoot, ownCentroids: the arguments are those that the rebuilt object itself stores
static void build(Bvh* o, Buffers& b, bool ctor, bool ownRoot = false, bool ownCentroids = false)
{
	if (ownRoot || ownCentroids)
	{
		const Aabb& root = ownRoot ? o->getNodes()[0].aabb : b.root; const f32x4* cents = ownCentroids ? o->getCentroids().data() : b.centroids;
		if (b.aabbs) o->recreate(b.aabbs, root, (uint32_t)b.scene->n(), cents); else o->recreate(b.vertices, b.indices, root, b.indexCount, b.vertexSize, b.indexSize, cents);
		return;
	}
	auto& s = b;
	if (ctor)
	{
		if (s.aabbs) { if (s.centroids) new (o) Bvh(s.aabbs, s.root, (uint32_t)s.scene->n(), s.centroids); else new (o) Bvh(s.aabbs, s.root, (uint32_t)s.scene->n()); }
		else if (s.centroids) new (o) Bvh(s.vertices, s.indices, s.root, s.indexCount, s.vertexSize, s.indexSize, s.centroids);
		else new (o) Bvh(s.vertices, s.indices, s.root, s.indexCount, s.vertexSize, s.indexSize);
	}
	else if (s.aabbs) { if (s.centroids) o->recreate(s.aabbs, s.root, (uint32_t)s.scene->n(), s.centroids); else o->recreate(s.aabbs, s.root, (uint32_t)s.scene->n()); }
	else if (s.centroids) o->recreate(s.vertices, s.indices, s.root, s.indexCount, s.vertexSize, s.indexSize, s.centroids);
	else o->recreate(s.vertices, s.indices, s.root, s.indexCount, s.vertexSize, s.indexSize);
}

//---------------------------------------------------------------------------------------------------------------------
// After a failed operation the object must hold its old contents or be empty.
static void settleAfterFailure(Slot& s, int id, const char* what)
{
	s.failed = true;
	if (s.obj->getNodes().empty()) { s.state = EMPTY; s.scene.reset(); s.nodes.clear(); s.prims.clear(); rt::count(PR_BECAME_EMPTY); return; }
	if (s.state == VALID && holds(s)) { rt::count(PR_KEEP_OLD); return; }
	if (s.state == UNKNOWN) return; // a moved-from object: its contents were unspecified before
	if (W->failure || W->tree)
		rt::violate("half-built", "bvh %d holds neither its old contents nor nothing after a failed %s (%zu nodes, %zu primitives)", id, what,
			s.obj->getNodes().size(), s.obj->getPrimitives().size());
	s.state = UNKNOWN;
}

struct Status { double eps; int v; }; // v: -1 behind for certain, +1 not behind for certain, 0 undecided
static int planeBox(const float* n, float d, const V3& lo, const V3& hi, bool exact)
{
	double best = d, mag = std::fabs(d); bool inf = false, undefined = false;
	for (int a = 0; a < 3; a++)
	{
		if (n[a] == 0) { if (std::isinf(lo.v[a]) || std::isinf(hi.v[a])) undefined = true; continue; } // 0 * infinity
		double c = n[a] > 0 ? hi.v[a] : lo.v[a], o = n[a] > 0 ? lo.v[a] : hi.v[a];
		if (std::isinf(c)) inf = true;
		double t = n[a] * c; best += t; mag += std::max(std::fabs(t), std::isinf(o) ? 0.0 : std::fabs(n[a] * o));
	}
	if (inf) return 1;
	if (undefined && best < 0) return 0;
	if (mag > 1e37) return 0;
	if (exact) return best < 0 ? -1 : 1;
	double eps = mag * 2e-6 + 1e-37;
	return best < -eps ? -1 : best > eps ? 1 : 0;
}
struct PlaneSet { std::vector<Plane> p; std::vector<std::vector<float>> n; bool exact; };
static PlaneSet makePlanes(const Op& op, const Scene* sc)
{
	PlaneSet s; Rng r(op.seed ^ 0xABCDEF); int mode = (int)(std::llabs(op.a[1]) % 7); int count = (int)std::min<int64_t>(std::max<int64_t>(op.a[2], 1), 16);
	s.exact = true;
	for (int i = 0; i < count; i++)
	{
		float n[3] = {}, d = 0;
		V3 c{{0, 0, 0}};
		if (sc && r.chance(0.6)) { int k = (int)r.below((uint64_t)sc->n()); c = r.chance(0.5) ? sc->mn[k] : sc->mx[k]; }
		switch (mode)
		{
		case 0: for (auto& x : n) x = (float)r.range(-3, 3); d = (float)r.range(-100, 100); if (r.chance(0.5)) d = -(n[0] * c.v[0] + n[1] * c.v[1] + n[2] * c.v[2]); break;
		case 1: { double l = 0; for (auto& x : n) { x = (float)r.real(-1, 1); l += x * x; } l = std::sqrt(l) + 1e-9; for (auto& x : n) x = (float)(x / l); d = -(n[0] * c.v[0] + n[1] * c.v[1] + n[2] * c.v[2]) + (float)r.real(-20, 20); s.exact = false; break; }
		case 2: n[i % 3] = i & 1 ? -1.0f : 1.0f; d = (float)r.range(-5, 60); break; // slabs around the origin
		case 3: n[r.below(3)] = r.chance(0.5) ? 1.0f : -1.0f; d = -(n[0] * c.v[0] + n[1] * c.v[1] + n[2] * c.v[2]); break; // touching a box
		case 4: n[i % 3] = 1.0f; d = 3.0e38f; s.exact = false; break; // everything visible
		case 5: n[i % 3] = 1.0f; d = i == count - 1 ? -3.3e38f : 10.0f; s.exact = false; break; // (almost) everything culled
		default: d = (float)r.range(-1, 3); if (r.chance(0.5)) n[0] = 1.0f, d = 50.0f; break; // degenerate normals
		}
		if (!std::isfinite(d)) d = 0;
		s.p.push_back(Plane(f32x4(n[0], n[1], n[2], 0.0f), d, false)); s.n.push_back({n[0], n[1], n[2], d});
	}
	for (auto& p : s.n) for (float x : p) if (x != std::floor(x) || std::fabs(x) > 1e6) s.exact = false;
	return s;
}
static int boxStatus(const PlaneSet& ps, const V3& lo, const V3& hi, bool exact)
{
	int v = 1;
	for (auto& p : ps.n)
	{
		int k = planeBox(p.data(), p[3], lo, hi, exact);
		if (k < 0) return -1;
		if (!k) v = 0;
	}
	return v;
}
// C04: the result must be exactly the primitives of the leaves that are not behind
static void verifyQuery(Slot& s, int id, const PlaneSet& ps, const uint32_t* out, uint32_t count)
{
	rt::count(rt::M_CHECKS);
	auto& nodes = s.obj->getNodes(); auto& prims = s.obj->getPrimitives(); const Scene& sc = *s.scene;
	std::vector<uint8_t> got((size_t)sc.n());
	for (uint32_t i = 0; i < count; i++)
	{
		if (out[i] >= (uint32_t)sc.n()) rt::violate("query-unknown-primitive", "query on bvh %d returned unknown primitive %u", id, out[i]);
		if (got[out[i]]++) rt::violate("query-duplicate", "query on bvh %d returned primitive %u twice", id, out[i]);
	}
	bool exact = ps.exact && sc.exact; uint32_t definite = 0;
	struct F { uint32_t id; int v; }; std::vector<F> st{{0, 1}};
	while (!st.empty())
	{
		F f = st.back(); st.pop_back(); const auto& nd = nodes[f.id];
		V3 lo, hi; box(nd, lo, hi);
		int v = f.v < 0 ? -1 : std::min(f.v, boxStatus(ps, lo, hi, exact && std::isfinite(lo.v[0])));
		if (!nd.isLeaf()) { st.push_back({nd.getLeftNode(), v}); st.push_back({nd.getLeftNode() + 1, v}); continue; }
		if (!v) rt::count(PR_AMBIGUOUS);
		uint32_t first = nd.getFirstPrimitive(), cnt = nd.getPrimitiveCount(), in = 0;
		for (uint32_t i = first; i < first + cnt; i++) in += got[prims[i]];
		if (v > 0 && in != cnt)
			rt::violate("query-missing", "query on bvh %d (%d primitives) returned %u of %u primitives of leaf node %u although no box on its path is behind a plane", id, sc.n(), in, cnt, f.id);
		if (v < 0 && in)
			rt::violate("query-extra", "query on bvh %d (%d primitives) returned %u primitives of leaf node %u although a box on its path is behind a plane", id, sc.n(), in, f.id);
		if (in && in != cnt) rt::violate("query-partial-leaf", "query on bvh %d returned %u of %u primitives of leaf node %u", id, in, cnt, f.id);
		if (v > 0) definite += cnt;
	}
	if (sc.encloses)
		for (int i = 0; i < sc.n(); i++)
			if (!got[i] && boxStatus(ps, sc.mn[i], sc.mx[i], exact) > 0)
				rt::violate("query-dropped", "query on bvh %d (%d primitives) dropped primitive %d whose box is behind no plane", id, sc.n(), i);
	if (definite && definite < (uint32_t)sc.n()) rt::count(PR_PARTIAL_RESULT);
}

static NodeStack* makeStack(int cursor)
{
	NodeStack* s = (NodeStack*)rt::bufAlloc(sizeof(NodeStack), 16);
	callSut(nullptr, [&] {
		std::deque<Bvh::Node*> d;
		for (int i = 0; i < cursor; i++) d.push_back(nullptr);
		for (int i = 0; i < cursor; i++) d.pop_front();
		new (s) NodeStack(std::move(d)); });
	return s;
}
static void freeStack(NodeStack*& s)
{
	if (!s) return;
	callSut(nullptr, [&] { s->~NodeStack(); });
	rt::bufFree(s); s = nullptr;
}

static Outcome runQuery(Slot& s, int id, const Op* op, const PlaneSet& ps, NodeStack* stack, bool judge)
{
	size_t room = s.state == VALID ? s.prims.size() : s.obj->getPrimitives().size();
	uint32_t* out = (uint32_t*)rt::bufAlloc(room * 4, 16);
	Plane* planes = (Plane*)rt::bufAlloc(sizeof(Plane) * ps.p.size(), 16);
	for (size_t i = 0; i < ps.p.size(); i++) new (&planes[i]) Plane(ps.p[i]);
	rt::protectConst(planes, true);
	uint32_t n = 0;
	Outcome r = callSut(op, [&] {
		n = stack ? s.obj->collectInFrustum(planes, (uint8_t)ps.p.size(), out, stack) : s.obj->collectInFrustum(planes, (uint8_t)ps.p.size(), out); });
	rt::protectConst(planes, false);
	if (r == OK)
	{
		if (n > room) rt::violate("query-count", "query on bvh %d returned %u primitives out of %zu", id, n, room);
		rt::record(n); rt::recordBytes(out, n * 4);
		if (judge && s.state == VALID) verifyQuery(s, id, ps, out, n);
		if (judge && s.state == EMPTY && n) rt::violate("query-empty", "query on an empty bvh returned %u primitives", n);
	}
	else { s.aborted = true; rt::count(PR_QUERY_OOM); }
	rt::bufFree(out); rt::bufFree(planes);
	return r;
}

struct TraverseLog { std::vector<uint8_t> asked, accepted; std::vector<std::pair<uint32_t, uint32_t>> leaves; };
static bool decide(uint64_t seed, int pattern, uint32_t id)
{
	switch (pattern)
	{
	case 0: return true;
	case 1: return false;
	case 2: return id % 2 == 0;
	case 3: return id == 0 || (seed >> (id % 61)) & 1;
	default: { Rng r(seed + id * 77); return r.chance(pattern == 4 ? 0.5 : 0.85); }
	}
}
static Outcome runTraverse(Slot& s, int id, const Op* op, uint64_t seed, int pattern, int64_t throwAt, int64_t nestEvery, bool judge, bool stdFunctionFromRef = false)
{
	(void)stdFunctionFromRef;
	auto nodeCount = s.obj->getNodes().size(); const Bvh::Node* base = s.obj->getNodes().data();
	TraverseLog log; log.asked.resize(nodeCount); log.accepted.resize(nodeCount);
	std::vector<int64_t> parent(nodeCount, -1);
	bool ok = s.state == VALID;
	if (ok) for (size_t i = 0; i < nodeCount; i++)
	{
		auto& nd = s.obj->getNodes()[i];
		if (!nd.isLeaf() && (size_t)nd.getLeftNode() + 1 < nodeCount) { parent[nd.getLeftNode()] = (int64_t)i; parent[nd.getLeftNode() + 1] = (int64_t)i; }
	}
	int64_t calls = 0; uint64_t nestSeed = seed;
	NodeStack* nested = nestEvery > 0 ? makeStack((int)(seed % 64)) : nullptr;
	uint32_t* nestOut = nestEvery > 0 ? (uint32_t*)rt::bufAlloc(s.obj->getPrimitives().size() * 4, 16) : nullptr;
	Plane* nestPlane = nestEvery > 0 ? (Plane*)rt::bufAlloc(sizeof(Plane), 16) : nullptr;
	PlaneSet nestSet; nestSet.exact = true; nestSet.p.push_back(Plane(f32x4(1.0f, 0.0f, 0.0f, 0.0f), 5.0f, false)); nestSet.n.push_back({1, 0, 0, 5});
	if (nestPlane) new (nestPlane) Plane(nestSet.p[0]);
	uint32_t nestWant = UINT32_MAX; (void)nestSeed;
	auto tick = [&] {
		if (throwAt >= 0 && calls == throwAt) { rt::count(rt::F_CALLBACK_THROW); calls++; throw Abort{seed}; }
		calls++;
		if (nestEvery > 0 && calls % nestEvery == 0)
		{
			uint32_t n; { rt::Inside in; n = s.obj->collectInFrustum(nestPlane, 1, nestOut, nested); }
			rt::count(PR_NESTED);
			if (judge && ok) verifyQuery(s, id, nestSet, nestOut, n);
			if (nestWant == UINT32_MAX) nestWant = n;
			if (judge && n != nestWant) rt::violate("nested-query", "a query issued inside a traversal callback returned %u, then %u primitives", nestWant, n);
		} };
	Outcome r = callSut(op, [&] {
		s.obj->traverse(
			[&](const Bvh::Node& node) -> bool
			{
				rt::Outside o;
				size_t i = (size_t)(&node - base);
				if (judge && ok)
				{
					if (&node < base || i >= nodeCount) rt::violate("traverse-foreign-node", "traversal of bvh %d asked about something that is not one of its nodes", id);
					if (log.asked[i]) rt::violate("traverse-asked-twice", "traversal of bvh %d asked about node %zu twice", id, i);
					if (i && !(parent[i] >= 0 && log.accepted[parent[i]])) rt::violate("traverse-order", "traversal of bvh %d asked about node %zu before its parent was accepted", id, i);
				}
				if (i < nodeCount) log.asked[i] = 1;
				tick();
				bool d = decide(seed, pattern, (uint32_t)i);
				if (i < nodeCount) log.accepted[i] = d;
				return d;
			},
			[&](uint32_t first, uint32_t count)
			{
				rt::Outside o;
				tick();
				log.leaves.push_back({first, count});
			}); });
	freeStack(nested); rt::bufFree(nestOut); rt::bufFree(nestPlane);
	for (auto& l : log.leaves) { rt::record(l.first); rt::record(l.second); }
	if (r == OK)
	{
		if (throwAt >= 0 && calls > throwAt && judge) rt::violate("traverse-swallowed", "an exception thrown by a callback did not reach the caller");
		if (judge && s.state == VALID)
		{
			rt::count(rt::M_CHECKS);
			std::vector<std::pair<uint32_t, uint32_t>> want;
			struct F { uint32_t id; }; std::vector<uint32_t> st{0};
			while (!st.empty())
			{
				uint32_t i = st.back(); st.pop_back(); auto& nd = s.obj->getNodes()[i];
				if (!decide(seed, pattern, i)) { continue; }
				if (nd.isLeaf()) want.push_back({nd.getFirstPrimitive(), nd.getPrimitiveCount()});
				else { st.push_back(nd.getLeftNode()); st.push_back(nd.getLeftNode() + 1); }
			}
			auto got = log.leaves; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
			if (got != want) rt::violate("traverse-leaves", "traversal of bvh %d (%zu nodes) reported %zu leaves, %zu were accepted together with all their ancestors", id, nodeCount, got.size(), want.size());
		}
		if (judge && s.state == EMPTY && calls) rt::violate("traverse-empty", "traversal of an empty bvh called back %lld times", (long long)calls);
	}
	else { s.aborted = true; if (r == OOM) rt::count(PR_TRAVERSE_OOM); }
	return r;
}

static void compareFresh(Slot& s, int id, Buffers& b, const Op& op, const char* why)
{
	rt::count(rt::M_CHECKS);
	Bvh* o = rawBvh(); Op clean; clean.fpu = op.fpu;
	b.protect(true);
	callSut(&clean, [&] { build(o, b, true); });
	b.protect(false);
	bool sameNodes = nodeBytes(*o) == nodeBytes(*s.obj), samePrims = primVec(*o) == primVec(*s.obj);
	if (!sameNodes || !samePrims)
		rt::violate("differs-from-fresh", "bvh %d %s: %s differ from those of a new bvh built from the same %d primitives (%zu/%zu nodes)", id, why,
			sameNodes ? "primitives" : samePrims ? "nodes" : "nodes and primitives", b.scene->n(), s.obj->getNodes().size(), o->getNodes().size());
	callSut(nullptr, [&] { o->~Bvh(); });
	rt::bufFree(o);
}

// Probes a settled object: queries and traversals must terminate and agree with its state.
static void probeState(Slot& s, int id)
{
	if (!s.obj || s.state == UNKNOWN) return;
	Op q; q.a[1] = 2; q.a[2] = 3; q.seed = 99;
	auto ps = makePlanes(q, s.scene.get());
	runQuery(s, id, nullptr, ps, nullptr, true);
	runTraverse(s, id, nullptr, 5, 0, -1, 0, true);
	NodeStack* st = makeStack(0); runQuery(s, id, nullptr, ps, st, true); freeStack(st);
}

static void installed(Slot& s, int id, std::shared_ptr<Scene> sc, bool contentChanged)
{
	s.state = VALID; s.scene = sc; snapshot(s); s.moved = false;
	if (contentChanged) verifyTree(s, id, W->tree);
}

static void execOp(const Op& op, int index)
{
	int k = op.kind % NKINDS; if (k < 0) k = 0;
	int lane = rt::threadId();
	rt::setOpIndex(index);
	int a = slotOf(op.a[0]); Slot& s = W->slots[a];
	if (lane > 0 && k != QUERY && k != TRAVERSE) return; // only queries run concurrently
	Outcome r = OK;
	switch (k)
	{
	case BUILD:
	{
		bool ctor = op.a[3] & 1;
		auto b = makeBuffers(op); bool ownRoot = false, ownCentroids = false;
		if (!ctor && s.obj && s.state == VALID && s.scene && !s.obj->getNodes().empty()) // an animated mesh whose bounds or centroids are taken from the bvh itself
		{
			Scene &to = *b->scene, &from = *s.scene;
			if (op.a[6] & 2)
			{
				ownRoot = true; to.rmn = from.rmn; to.rmx = from.rmx; to.exact &= from.exact; to.finite &= from.finite; to.encloses = true; rt::count(PR_OWN_ROOT);
				for (int i = 0; i < to.n(); i++) for (int x = 0; x < 3; x++) to.encloses &= to.rmn.v[x] <= to.mn[i].v[x] && to.mx[i].v[x] <= to.rmx.v[x];
				b->root = Aabb(f32x4(to.rmn.v[0], to.rmn.v[1], to.rmn.v[2], 0.0f), f32x4(to.rmx.v[0], to.rmx.v[1], to.rmx.v[2], 0.0f));
			}
			if ((op.a[6] & 4) && from.finite && (int)s.obj->getCentroids().size() >= to.n())
			{
				ownCentroids = to.centroidsGiven = true; rt::count(PR_OWN_CENTROIDS); rt::bufFree(b->centroids); size_t bytes = sizeof(f32x4) * (size_t)to.n();
				b->centroids = (f32x4*)rt::bufAlloc(bytes, 16); std::memcpy((void*)b->centroids, (const void*)s.obj->getCentroids().data(), bytes);
			}
		}
		if (W->pinInputs) { if (W->pinned) b->reuse(*W->pinned); W->pinned = b; }
		if (op.a[7]) rt::count(PR_MUTATED);
		if (b->vertexBytes > 300000) rt::count(PR_BIG_INDEX);
		if (b->scene->tri) rt::count(PR_TRIANGLES);
		if (b->indexSize == 2) rt::count(PR_U16);
		if (b->centroids) rt::count(PR_SUPPLIED_CENTROIDS);
		Op o = op;
		int kind = (int)(std::llabs(op.a[1]) % NSCENES);
		if (kind == S_DENORMAL || kind == S_CHAIN || kind == S_MIXED || kind == S_ULP) { if (o.fpu == rt::FPU_FTZ_DAZ || o.fpu == rt::FPU_FTZ) o.fpu = 0; }
		if (ctor) destroy(s); else ensure(s);
		if (ctor)
		{
			Bvh* n = rawBvh(); b->protect(true);
			r = callSut(&o, [&] { build(n, *b, true); });
			b->protect(false);
			if (r == OK) { s = Slot(); s.obj = n; } else rt::bufFree(n);
		}
		else
		{
			if (s.state == VALID) rt::count(s.scene->n() > b->scene->n() ? PR_SHRINK : PR_GROW);
			if (s.failed) rt::count(PR_REBUILD_AFTER_FAIL);
			if (s.aborted) rt::count(PR_USE_AFTER_ABORT);
			if (s.moved) rt::count(PR_MOVED_FROM_REUSED);
			b->protect(true);
			r = callSut(&o, [&] { build(s.obj, *b, false, ownRoot, ownCentroids); });
			b->protect(false);
		}
		bool refused = rt::opFaultFired();
		if (r == OK)
		{
			s.failed = s.aborted = false;
			auto fam = s.family; if (fam && fam.use_count() > 2) rt::count(PR_COPY_DIVERGED);
			s.family.reset();
			installed(s, a, b->scene, true);
			if (W->quality)
			{
				verifyQuality(s, a, kind);
				if (b->aabbs && !ownRoot && !ownCentroids) // the same boxes, with something else in the fourth components that nothing uses
				{
					float w[2]; Rng q(op.seed ^ 77); for (float& x : w) x = q.chance(0.3) ? 0 : q.chance(0.5) ? 1 : q.chance(0.5) ? NAN : (float)q.real(-1e6, 1e6);
					for (int i = 0; i < b->scene->n(); i++) { std::memcpy((char*)&b->aabbs[i] + 12, &w[0], 4); std::memcpy((char*)&b->aabbs[i] + sizeof(f32x4) + 12, &w[1], 4); }
					rt::count(PR_UNUSED_LANES); compareFresh(s, a, *b, o, "of boxes with other unused components");
				}
			}
			if (W->fresh || (W->failure && refused)) compareFresh(s, a, *b, o, refused ? "after a build that was refused memory but reported success" : "after this build");
		}
		else
		{
			rt::count(PR_BUILD_OOM);
			if (s.obj)
			{
				settleAfterFailure(s, a, "rebuild");
				if (W->failure)
				{
					probeState(s, a);
					if (op.a[6] & 1) // retry now that memory is available
					{
						Op clean = o; clean.fmode = 0; clean.fn = 0;
						b->protect(true); callSut(&clean, [&] { build(s.obj, *b, false); }); b->protect(false);
						s.failed = s.aborted = false; s.family.reset();
						installed(s, a, b->scene, true);
						compareFresh(s, a, *b, o, "after the retried build");
						probeState(s, a);
					}
				}
			}
		}
		break;
	}
	case COPY_CTOR: case COPY_ASSIGN: case MOVE_CTOR: case MOVE_ASSIGN: case SWAP:
	{
		int b = slotOf(op.a[1]); Slot& src = W->slots[b];
		ensure(src);
		if (a == b)
		{
			if (k != COPY_ASSIGN) break;
			rt::count(PR_SELF_ASSIGN);
			r = callSut(&op, [&] { Bvh& x = *s.obj; Bvh& y = *src.obj; x = y; });
			if (r == OOM) settleAfterFailure(s, a, "self-assignment");
			else if (s.state == VALID && (W->fresh || W->tree) && !holds(s)) rt::violate("self-assign", "assigning bvh %d to itself changed it", a);
			break;
		}
		State st = src.state; auto sc = src.scene; auto nb = src.nodes; auto pv = src.prims;
		bool sm = src.moved;
		if (k == COPY_CTOR || k == MOVE_CTOR)
		{
			destroy(s); Bvh* n = rawBvh();
			r = callSut(&op, [&] { if (k == COPY_CTOR) new (n) Bvh(*(const Bvh*)src.obj); else new (n) Bvh(std::move(*src.obj)); });
			if (r == OK) { s = Slot(); s.obj = n; } else rt::bufFree(n);
		}
		else
		{
			ensure(s);
			if (k == SWAP)
			{
				State st1 = s.state; auto sc1 = s.scene; auto nb1 = s.nodes; auto pv1 = s.prims; bool sm1 = s.moved;
				r = callSut(&op, [&] { std::swap(*s.obj, *src.obj); });
				if (r == OK) { src.state = st1; src.scene = sc1; src.nodes = nb1; src.prims = pv1; src.moved = sm1; std::swap(s.failed, src.failed); std::swap(s.aborted, src.aborted); std::swap(s.family, src.family); }
			}
			else r = callSut(&op, [&] { if (k == COPY_ASSIGN) *s.obj = *(const Bvh*)src.obj; else *s.obj = std::move(*src.obj); });
		}
		if (r == OK)
		{
			s.state = st; s.scene = sc; s.nodes = nb; s.prims = pv; s.moved = sm;
			if (st == VALID && !holds(s))
			{
				if (W->fresh || W->tree || W->failure) rt::violate("copy-differs", "%s: bvh %d is not equal to what bvh %d held", opName(k), a, b);
				rt::violate("broken-tree", "%s: bvh %d is not equal to what bvh %d held", opName(k), a, b);
			}
			if (st == EMPTY && !s.obj->getNodes().empty() && (W->fresh || W->tree)) rt::violate("copy-differs", "%s of an empty bvh is not empty", opName(k));
			if (k == MOVE_CTOR || k == MOVE_ASSIGN) { src.state = UNKNOWN; src.moved = true; src.scene.reset(); src.aborted = src.failed = false; }
			if (k == COPY_CTOR || k == COPY_ASSIGN)
			{
				if (!src.family) src.family = std::make_shared<int>(0);
				s.family = src.family; s.failed = s.aborted = false;
				if (st == VALID && !holds(src)) rt::violate((W->fresh || W->tree) ? "copy-changed-source" : "broken-tree", "copying bvh %d changed it", b);
			}
		}
		else
		{
			rt::count(k == COPY_CTOR || k == COPY_ASSIGN ? PR_COPY_OOM : PR_MOVE_OOM);
			if (s.obj) settleAfterFailure(s, a, opName(k));
			if (src.obj)
			{
				if (k == COPY_CTOR || k == COPY_ASSIGN)
				{
					if (src.state == VALID && !holds(src)) rt::violate(W->failure || W->tree || W->fresh ? "copy-changed-source" : "broken-tree", "a failed copy changed its source bvh %d", b);
				}
				else settleAfterFailure(src, b, opName(k));
			}
			if (W->failure) { probeState(s, a); probeState(src, b); }
			if (W->failure && (op.a[6] & 1) && (k == COPY_ASSIGN) && s.obj && src.state == VALID)
			{
				callSut(nullptr, [&] { *s.obj = *(const Bvh*)src.obj; });
				s.state = src.state; s.scene = src.scene; s.nodes = src.nodes; s.prims = src.prims; s.moved = false; s.failed = false; s.aborted = false;
				if (!holds(s)) rt::violate("copy-differs", "a retried copy-assign gives a different bvh");
			}
		}
		break;
	}
	case QUERY:
	{
		if (!s.obj) { if (lane) return; ensure(s); }
		if (s.state == UNKNOWN) return;
		auto ps = makePlanes(op, s.scene.get());
		int mode = (int)(std::llabs(op.a[3]) % 3);
		if (lane > 1 && mode == 0) mode = 1; // the built-in stack has one user at a time
		if (lane) rt::count(PR_CONCURRENT_OPS);
		NodeStack* st = nullptr; bool own = false;
		if (mode == 1) { if (!W->lane[lane]) W->lane[lane] = makeStack((int)(std::llabs(op.a[4]) % 64)); st = W->lane[lane]; if (W->laneAborted[lane]) rt::count(PR_USE_AFTER_ABORT); }
		else if (mode == 2) { st = makeStack((int)(std::llabs(op.a[4]) % 64)); own = true; }
		else if (s.aborted) rt::count(PR_USE_AFTER_ABORT);
		bool before = s.aborted;
		Op o = op; if (!(ps.exact && s.scene && s.scene->exact)) o.fpu = 0;
		r = runQuery(s, a, &o, ps, st, W->query);
		if (mode == 1 && r != OK) W->laneAborted[lane] = true;
		if (mode != 0) s.aborted = before;
		if (own) freeStack(st);
		break;
	}
	case TRAVERSE:
		if (!s.obj) { if (lane) return; ensure(s); }
		if (s.state == UNKNOWN || lane > 1) return;
		if (s.aborted) rt::count(PR_USE_AFTER_ABORT);
		if (lane) rt::count(PR_CONCURRENT_OPS);
		{ Op o = op; o.fpu = 0; r = runTraverse(s, a, &o, op.seed, (int)(std::llabs(op.a[1]) % 6), op.a[2] - 1, op.a[3], W->traverse); }
		break;
	case DESTROY: destroy(s); break;
	case CURSOR:
		ensure(s);
		rt::count(rt::F_STACK_CURSOR);
		{
			int c = (int)(std::llabs(op.a[1]) % 64);
			bool aborted = s.aborted;
			if (!aborted) // replacing an aborted stack would hide what the abort left behind
				callSut(nullptr, [&] {
					std::deque<Bvh::Node*> d;
					for (int i = 0; i < c; i++) d.push_back(nullptr);
					for (int i = 0; i < c; i++) d.pop_front();
					s.obj->getNodeStack() = NodeStack(std::move(d)); });
		}
		break;
	}
	if (!lane)
	{
		for (int i = 0; i < NSLOTS; i++)
			if (W->slots[i].obj && W->slots[i].state == VALID && !holds(W->slots[i]))
				rt::violate(W->tree || W->fresh ? "content-changed" : "broken-tree", "%s on bvh %d changed the contents of bvh %d", opName(k), a, i);
		uint64_t h = (uint64_t)k * 31 + (uint64_t)r; h = h * 1000003 + (s.obj ? s.state : 9); h = h * 1000003 + (uint64_t)s.depth; h = h * 1000003 + (uint64_t)s.leaves; h = h * 31 + (s.failed * 4 + s.aborted * 2 + s.moved);
		rt::recordState(h);
		rt::record(h);
	}
}

struct Par { const Plan* p; size_t from, to; };
static void laneBody(void* ctx, int lane)
{
	Par* g = (Par*)ctx;
	for (size_t i = g->from; i < g->to; i++)
		if (g->p->ops[i].lane - 1 == lane) execOp(g->p->ops[i], (int)i);
}
static void cleanup()
{
	for (auto& s : W->slots) destroy(s);
	W->pinned.reset();
	for (auto& l : W->lane) freeStack(l);
	for (auto& l : W->laneAborted) l = false;
}
static void runOps(const Plan& p)
{
	for (size_t i = 0; i < p.ops.size();)
	{
		if (p.ops[i].lane <= 0) { execOp(p.ops[i], (int)i); i++; continue; }
		Par g{&p, i, i}; int lanes = 0;
		while (g.to < p.ops.size() && p.ops[g.to].lane > 0) { lanes = std::max(lanes, p.ops[g.to].lane); g.to++; }
		rt::runParallel(std::min<int>(lanes, rt::MAX_THREADS), laneBody, &g);
		i = g.to;
	}
}
static void exec(const Plan& p)
{
	World w; W = &w; w.plan = &p; std::memset(w.prop, 0, sizeof w.prop); std::strncpy(w.prop, p.property.c_str(), 7);
	auto is = [&](const char* s) { return p.property == s; };
	w.tree = is("C01"); w.fresh = is("C02"); w.failure = is("C03"); w.query = is("C04") || is("C06") || is("C03"); w.traverse = is("C05") || is("C06") || is("C03"); w.par = is("C06"); w.mem = is("C10"); w.quality = is("C27");
	w.pinInputs = p.knob("pin_inputs");
	rt::nontrivial();
	runOps(p);
	rt::setOpIndex((int)p.ops.size());
	cleanup();
	if (w.mem)
	{
		// Anything still allocated after the second pass that was not after the first grows without bound.
		uint64_t l1 = rt::liveBytes(), b1 = rt::liveBlocks();
		runOps(p); rt::setOpIndex((int)p.ops.size()); cleanup();
		uint64_t l2 = rt::liveBytes(), b2 = rt::liveBlocks();
		rt::count(rt::M_CHECKS);
		if (l2 > l1 || b2 > b1)
			rt::violate("leak", "repeating this history leaves %llu more bytes in %llu more blocks allocated after everything was destroyed", (unsigned long long)(l2 - l1), (unsigned long long)(b2 - b1));
	}
}

//---------------------------------------------------------------------------------------------------------------------
static void genFault(Op& o, Rng& r, double p, bool build)
{
	if (!r.chance(p)) return;
	switch (r.below(6))
	{
	case 0: case 1: o.fmode = rt::FM_NTH; o.fn = 1 + (int64_t)r.below(build ? 6 : 4); break;
	case 2: o.fmode = rt::FM_NTH; o.fn = 1 + (int64_t)r.logUniform(40); break;
	case 3: o.fmode = rt::FM_FROM; o.fn = 1 + (int64_t)r.below(6); break;
	case 4: o.fmode = rt::FM_SIZE; o.fn = (int64_t)(16ull << r.below(12)); break;
	default: o.fmode = rt::FM_TWO; o.fn = 1 + (int64_t)r.below(6); break;
	}
}
static void genBuild(Op& o, Rng& r, int maxN, bool degenerate, double faultP, double fpuP, int slots, bool quality = false)
{
	static const int weights[NSCENES] = { 10, 12, 2, 5, 4, 2, 2, 4, 3, 5, 3, 3, 3, 4, 2 };
	static const int plain[NSCENES] = { 10, 16, 1, 4, 0, 0, 0, 2, 3, 5, 3, 1, 3, 4, 2 };
	o.kind = BUILD; o.a[0] = (int64_t)r.below((uint64_t)slots); o.a[1] = degenerate ? r.pick(weights) : r.pick(plain); if (quality && r.chance(0.5)) o.a[1] = r.chance(0.4) ? S_ROW : r.chance(0.7) ? S_SCATTER : S_SKEW;
	o.a[2] = r.chance(0.15) ? r.range(1, 4) : 1 + (int64_t)r.logUniform((uint64_t)maxN - 1);
	o.a[3] = (r.chance(0.2) ? 1 : 0) | (r.chance(0.45) ? 2 : 0) | (r.chance(0.5) ? 4 : 0) | ((int64_t)r.below(4) << 3);
	static const int roots[NROOTS] = { 10, 4, 3, 1, 1, 1 }; o.a[4] = r.pick(roots);
	static const int cents[NCENTROIDS] = { 12, 2, 2, 4, 1, 2 }; o.a[5] = r.pick(cents);
	o.a[6] = (r.chance(0.6) ? 1 : 0) | (r.chance(0.08) ? 2 : 0) | (r.chance(0.08) ? 4 : 0); o.seed = r.next() >> 1;
	if (o.a[2] < 60 && r.chance(0.06)) o.a[3] |= 32;
	if (quality && r.chance(0.3)) o.a[3] |= (int64_t)r.below(32) << 6;
	genFault(o, r, faultP, true);
	if (r.chance(fpuP)) o.fpu = 1 + (int)r.below(5);
}
static void genQuery(Op& o, Rng& r, double faultP, int slots)
{
	o.kind = QUERY; o.a[0] = (int64_t)r.below((uint64_t)slots); static const int modes[7] = { 8, 5, 6, 5, 2, 1, 2 };
	o.a[1] = r.pick(modes); o.a[2] = r.chance(0.6) ? 6 : 1 + (int64_t)r.below(12); o.a[3] = (int64_t)r.below(3); o.a[4] = r.chance(0.6) ? 56 + (int64_t)r.below(8) : (int64_t)r.below(64); o.seed = r.next() >> 1;
	genFault(o, r, faultP, false);
	if (o.fmode) { o.a[4] = 59 + (int64_t)r.below(5); if (r.chance(0.7)) { o.fmode = rt::FM_NTH; o.fn = 1 + (int64_t)r.below(2); } }
}
static void genTraverse(Op& o, Rng& r, double faultP, double throwP, int slots)
{
	o.kind = TRAVERSE; o.a[0] = (int64_t)r.below((uint64_t)slots); static const int pat[6] = { 5, 1, 2, 3, 4, 6 }; o.a[1] = r.pick(pat);
	o.a[2] = r.chance(throwP) ? 1 + (int64_t)r.logUniform(40) : 0; o.a[3] = r.chance(0.25) ? 1 + (int64_t)r.below(6) : 0; o.seed = r.next() >> 1;
	genFault(o, r, faultP, false);
	if (o.fmode && r.chance(0.7)) { o.fmode = rt::FM_NTH; o.fn = 1 + (int64_t)r.below(2); }
}
static void genMove(Op& o, Rng& r, double faultP, int slots)
{
	static const int kinds[5] = { 4, 5, 3, 3, 2 }; o.kind = COPY_CTOR + r.pick(kinds); o.a[0] = (int64_t)r.below((uint64_t)slots); o.a[1] = (int64_t)r.below((uint64_t)slots); o.a[6] = r.chance(0.5);
	genFault(o, r, faultP, false);
}
static void gen(Plan& p, Rng& r)
{
	const std::string& prop = p.property;
	p.knobs["heap_reuse"] = r.chance(0.5); p.knobs["heap_skew"] = r.chance(0.5); p.knobs["pin_inputs"] = r.chance(0.35); p.knobs["heap_garbage"] = (int64_t)(r.next() >> 2);
	bool big = r.chance(0.08); int maxN = big ? 600 : r.chance(0.4) ? 12 : 60;
	int slots = r.chance(0.4) ? 1 : NSLOTS;
	bool faulty = r.chance(0.7); // the rest of the runs is fault-free
	double fr = faulty ? r.real(0.05, 0.6) : 0, thr = faulty ? r.real(0.1, 0.6) : 0, fpu = r.chance(0.3) ? 0.4 : 0;
	bool degenerate = prop == "C06" ? r.chance(0.15) : r.chance(0.6);
	int n = 2 + (int)r.below(big ? 4 : 11);
	auto cursor = [&](int slot) { Op o; o.kind = CURSOR; o.a[0] = slot; o.a[1] = r.chance(0.7) ? 58 + (int64_t)r.below(6) : (int64_t)r.below(64); p.ops.push_back(o); };
	if (prop == "C06")
	{
		int phases = 1 + (int)r.below(2);
		for (int ph = 0; ph < phases; ph++)
		{
			int ns = 1 + (int)r.below(2);
			for (int s = 0; s < ns; s++) { Op o; genBuild(o, r, std::min(maxN, 120), degenerate, 0, 0, 1); o.a[0] = s; p.ops.push_back(o); if (r.chance(0.4)) cursor(s); }
			int lanes = 2 + (int)r.below(r.chance(0.2) ? 6 : 3); int each = 1 + (int)r.below(3);
			for (int l = 1; l <= lanes; l++)
				for (int e = 0; e < each; e++)
				{
					Op o;
					if (l == 1 && r.chance(0.4)) { genTraverse(o, r, fr, thr, ns); o.a[3] = 0; } else genQuery(o, r, fr, ns);
					o.lane = l;
					int np = (int)r.below(r.chance(0.3) ? 12 : 5);
					for (int i = 0; i < np; i++) o.pre.push_back({(uint32_t)r.logUniform(2500), (uint8_t)r.below(8), (uint8_t)r.chance(0.15)});
					std::sort(o.pre.begin(), o.pre.end(), [](const rt::Pre& x, const rt::Pre& y) { return x.step < y.step; });
					p.ops.push_back(o);
				}
		}
		return;
	}
	// weights: build, move/copy, query, traverse, destroy, cursor
	int w[6] = { 5, 2, 2, 2, 1, 1 };
	if (prop == "C01" || prop == "C27") { int x[6] = { 8, 2, 1, 1, 1, 1 }; std::memcpy(w, x, sizeof w); }
	else if (prop == "C02") { int x[6] = { 7, 4, 1, 2, 1, 1 }; std::memcpy(w, x, sizeof w); }
	else if (prop == "C03") { int x[6] = { 8, 4, 1, 1, 1, 2 }; std::memcpy(w, x, sizeof w); fr = r.real(0.3, 0.9); }
	else if (prop == "C04") { int x[6] = { 3, 1, 9, 1, 0, 2 }; std::memcpy(w, x, sizeof w); }
	else if (prop == "C05") { int x[6] = { 3, 1, 2, 9, 0, 2 }; std::memcpy(w, x, sizeof w); }
	bool aborting = false; int last = 0;
	{ Op o; genBuild(o, r, maxN, degenerate, fr * 0.3, fpu, slots, prop == "C27"); p.ops.push_back(o); last = (int)o.a[0]; }
	for (int i = 1; i < n; i++)
	{
		Op o; int k = r.pick(w);
		if (aborting && r.chance(0.6)) { static const int nx[4] = { 3, 0, 4, 4 }; int c = r.pick(nx); k = c == 0 ? 0 : c; }
		switch (k)
		{
		case 0:
			genBuild(o, r, maxN, degenerate, fr, fpu, slots, prop == "C27");
			if (r.chance(0.35)) // the scene of an earlier build, slightly changed
				for (size_t j = p.ops.size(); j-- > 0;)
					if (p.ops[j].kind == BUILD)
					{
						for (int k = 0; k < 6; k++) if (k != 3 || r.chance(0.7)) o.a[k] = p.ops[j].a[k];
						o.seed = p.ops[j].seed; o.a[7] = r.chance(0.85) ? (int64_t)(r.next() >> 2) | 1 : 0; o.a[3] &= ~(int64_t)1;
						if (r.chance(0.25)) o.a[2] = std::max<int64_t>(1, o.a[2] + r.range(-3, 3));
						break;
					}
			break;
		case 1: genMove(o, r, fr, slots); break;
		case 2: genQuery(o, r, fr, slots); if (r.chance(fpu)) o.fpu = 1 + (int)r.below(5); break;
		case 3: genTraverse(o, r, fr, thr, slots); break;
		case 4: o.kind = DESTROY; o.a[0] = (int64_t)r.below((uint64_t)slots); break;
		default: cursor((int)r.below((uint64_t)slots)); continue;
		}
		if (aborting && r.chance(0.7)) o.a[0] = last;
		if (k == 2 && aborting && r.chance(0.5)) o.a[3] = 0;
		aborting = (k == 2 || k == 3) && (o.fmode || (k == 3 && o.a[2]));
		last = (int)o.a[0];
		if (aborting && o.fmode && r.chance(0.8)) { cursor(last); p.ops.back().a[1] = 59 + (int64_t)r.below(5); }
		p.ops.push_back(o);
	}
}

const Scenario sim::scenario = { "bvh", gen, exec, opName,
	{ "deep_tree_over_60", "root_is_leaf", "leaf_over_8", "rebuild_after_failure", "use_after_abort", "query_out_of_memory", "build_out_of_memory", "copy_out_of_memory",
	"move_out_of_memory", "nested_query", "failure_kept_old", "failure_left_empty", "rebuild_smaller", "rebuild_larger_or_equal", "exact_touch", "partial_query_result", "ambiguous_leaf", "supplied_centroids",
	"indices_16bit", "triangle_build", "self_assignment", "moved_from_rebuilt", "concurrent_operations", "copy_then_diverge", "traverse_out_of_memory", "rebuild_of_changed_scene", "large_vertex_index", "own_root_box", "own_centroids", "quality_judged", "costlier_than_halved", "unused_lanes_differ", "big_leaf_judged" }, 20, {} };
