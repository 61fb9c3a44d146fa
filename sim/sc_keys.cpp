// Scenario "keys" (C26): an application keeps catalogs (std::map, sorted arrays) keyed by the library's value types in their binary order, through
// insertions, removals, look-ups, copies, refused allocations, crashes after which a catalog is rebuilt from its journal in another order, and threads
// that search one catalog. Every catalog is compared with a model that knows keys only by their bytes.
#include "common.h"
#include "math/vector.hpp"
#include "math/matrix.hpp"
#include "math/quaternion.hpp"
#include "math/aabb.hpp"
#include "math/color.hpp"
#include "math/version.hpp"
#include <map>

using namespace math;
using sim::Op; using sim::Plan; using sim::Rng;

namespace
{
enum Kind { INSERT, ERASE, FIND, WALK, COPY, REBUILD, SORT, RANGE, MERGE, ORDER, NKINDS };
const char* kindNames[] = {"insert", "erase", "find", "walk", "copy", "rebuild-after-crash", "sort", "range", "merge", "order"};
const char* opName(int k) { return k >= 0 && k < NKINDS ? kindNames[k] : "?"; }
enum { P_OOM = rt::P_FIRST, P_PRESENT, P_ABSENT, P_DUPLICATE, P_NEIGHBOUR, P_LAST_LANE, P_SIGN, P_NAN, P_CRASH, P_TWIN, P_PARALLEL, P_BIG };
enum { MAXW = 16, POOL = 40, CATS = 2 };
struct Less
{
	template<class K> bool operator()(const K& a, const K& b) const { return isBinaryLess(a, b); }
	bool operator()(Version a, Version b) const { return a < b; }
};
struct Raw { uint32_t w[MAXW]; };
float fl(uint32_t v);
bool sameNumber(uint32_t a, uint32_t b) { return fl(a) == fl(b); }
float fl(uint32_t v) { float f; memcpy(&f, &v, 4); return f; }

enum Same { BITS, NUMBERS, UNSPECIFIED }; // when two keys are ==
template<class K, int WORDS, Same EQ = BITS> struct Plain
{
	typedef K Key; enum { W = WORDS, eq = EQ };
	static K make(const Raw& r) { K k; memcpy((void*)&k, r.w, 4 * WORDS); return k; }
	static void canon(Raw&) {}
};
struct BoxTr
{
	typedef Aabb Key; enum { W = 6, eq = BITS };
	static Aabb make(const Raw& r) { return Aabb(f32x4(fl(r.w[0]), fl(r.w[1]), fl(r.w[2]), 0.0f), f32x4(fl(r.w[3]), fl(r.w[4]), fl(r.w[5]), 0.0f)); }
	static void canon(Raw& r) { for (int k = 0; k < 3; k++) { for (int j = k; j < 6; j += 3) if (!std::isfinite(fl(r.w[j]))) r.w[j] = 0x3F800000u + (r.w[j] & 0xFFFF); if (fl(r.w[k]) > fl(r.w[k + 3])) std::swap(r.w[k], r.w[k + 3]); } }
};
struct ColorTr { typedef Color Key; enum { W = 1, eq = BITS }; static Color make(const Raw& r) { return Color((uint8)r.w[0], (uint8)(r.w[0] >> 8), (uint8)(r.w[0] >> 16), (uint8)(r.w[0] >> 24)); } static void canon(Raw&) {} };
struct VersionTr { typedef Version Key; enum { W = 1, eq = BITS }; static Version make(const Raw& r) { return Version((uint8)r.w[0], (uint8)(r.w[0] >> 8), (uint8)(r.w[0] >> 16), (uint8)(r.w[0] >> 24)); } static void canon(Raw&) {} };

// the pool of keys: mostly neighbours of each other, which differ in one word, one byte or one bit
void makePool(const Plan& plan, int words, void (*canon)(Raw&), std::vector<Raw>& pool)
{
	Rng r((uint64_t)plan.knob("pool_seed")); int n = 2 + (int)r.below(POOL - 2); static const uint32_t special[] = {0, 0x80000000u, 1, 0xFFFFFFFFu, 0x7FFFFFFFu, 0x3F800000u, 0xBF800000u, 0x7F800000u, 0xFF800000u, 0x7FC00000u, 0xFFC00001u, 0x100, 0x10000, 0x1000000, 0xFF, 0x80, 0x00800000u, 0x807FFFFFu};
	auto word = [&]() -> uint32_t { return r.chance(0.6) ? special[r.below(18)] : r.chance(0.5) ? (uint32_t)r.next() : (uint32_t)r.below(4); };
	for (int tries = 0; (int)pool.size() < n && tries < 400; tries++)
	{
		Raw k; memset(&k, 0, sizeof k);
		if (pool.empty() || r.chance(0.15)) for (int j = 0; j < words; j++) k.w[j] = word();
		else
		{
			k = pool[r.below(pool.size())]; int j = r.chance(0.4) ? words - 1 : (int)r.below((uint64_t)words); if (j == words - 1) rt::count(P_LAST_LANE);
			switch (r.below(6))
			{
			case 0: k.w[j] ^= 1u << r.below(32); break;
			case 1: k.w[j] ^= 0x80000000u; rt::count(P_SIGN); break;
			case 2: k.w[j] += 1; break;
			case 3: k.w[j] = word(); break;
			case 4: { int i = (int)r.below((uint64_t)words); std::swap(k.w[i], k.w[j]); break; }
			default: ((uint8_t*)k.w)[r.below(4 * (uint64_t)words)] = (uint8_t)(r.chance(0.5) ? 0x80 : r.below(256)); break;
			}
			rt::count(P_NEIGHBOUR);
		}
		canon(k); bool old = false; for (const Raw& q : pool) old |= !memcmp(q.w, k.w, 4 * (size_t)words);
		if (old) { rt::count(P_DUPLICATE); continue; } if (std::isnan(fl(k.w[0]))) rt::count(P_NAN);
		pool.push_back(k);
	}
}

template<class Tr, class Tw = void> struct World
{
	typedef typename Tr::Key K; typedef std::map<K, int, Less> Map;
	const Plan& plan; const char* type; std::vector<Raw> pool; Map* cat[CATS] = {}; std::vector<int> mod[CATS]; int stamp = 0; // mod: value per key of the pool, -1: not in the catalog
	alignas(16) unsigned char keyMem[POOL * sizeof(K)]; K* keys = (K*)keyMem;

	World(const Plan& p, const char* type) : plan(p), type(type)
	{
		makePool(p, Tr::W, Tr::canon, pool); for (auto& m : mod) m.assign(pool.size(), -1);
		for (auto& c : cat) { c = (Map*)rt::bufAlloc(sizeof(Map), alignof(Map)); callSut(nullptr, [&] { new (c) Map(); }); }
		callSut(nullptr, [&] { for (size_t i = 0; i < pool.size(); i++) new (keys + i) K(Tr::make(pool[i])); });
	}
	size_t sizeOf(int c) const { size_t n = 0; for (int v : mod[c]) n += v >= 0; return n; }
	int idOf(const K& k) const { for (size_t i = 0; i < pool.size(); i++) if (!memcmp((const void*)&k, (const void*)(keys + i), sizeof(K))) return (int)i; return -1; }
	void audit(int c, const char* after)
	{
		int ids[POOL], values[POOL]; size_t n = 0, size = 0;
		callSut(nullptr, [&] { const Map& m = *cat[c]; size = m.size(); for (auto i = m.begin(); i != m.end() && n < POOL; ++i) { ids[n] = idOf(i->first); values[n++] = i->second; } });
		rt::count(rt::M_CHECKS); rt::nontrivial(); if (size != sizeOf(c)) rt::violate("key-lost", "after %s a catalog keyed by %s holds %zu keys instead of %zu", after, type, size, sizeOf(c));
		bool seen[POOL] = {};
		for (size_t i = 0; i < n; i++) { if (ids[i] < 0) rt::violate("key-lost", "after %s a catalog keyed by %s holds a key nobody stored", after, type); if (seen[ids[i]]) rt::violate("key-lost", "after %s a catalog keyed by %s lists a key twice", after, type); seen[ids[i]] = true; if (mod[c][ids[i]] != values[i]) rt::violate("key-lost", "after %s a catalog keyed by %s gives %d for key %d instead of %d", after, type, values[i], ids[i], mod[c][ids[i]]); }
		rt::record(n);
	}
	void find(int c, const Op* op, int k, const char* after)
	{
		int got = -1; bool in = false; size_t many = 0;
		callSut(op, [&] { const Map& m = *cat[c]; auto i = m.find(keys[k]); if (i != m.end()) { in = true; got = i->second; } many = m.count(keys[k]); });
		rt::count(rt::M_CHECKS); rt::nontrivial(); rt::count(mod[c][k] >= 0 ? P_PRESENT : P_ABSENT); if (in != (mod[c][k] >= 0) || (in && got != mod[c][k]) || many != (in ? 1u : 0u)) rt::violate("key-lost", "%s: looking key %d up in a catalog keyed by %s gives %d instead of %d", after, k, type, got, mod[c][k]);
		rt::record((uint64_t)(got + 2));
	}
	// the order itself, over all pairs, in an array sorted by it
	void order(const Op& op, int index)
	{
		int n = (int)pool.size(), at[POOL * 2], m = 0; Rng r(op.seed); for (int i = 0; i < n; i++) { at[m++] = i; if (r.chance(0.3)) at[m++] = i; } for (int i = m - 1; i > 0; i--) std::swap(at[i], at[r.below((uint64_t)i + 1)]);
		alignas(16) static unsigned char mem[MAX_LANES][POOL * 2 * sizeof(K)]; K* v = (K*)mem[rt::threadId() % MAX_LANES]; static uint8_t less[MAX_LANES][POOL][POOL]; auto& L = less[rt::threadId() % MAX_LANES]; int sorted[POOL * 2]; Less lt;
		callSut(&op, [&] { for (int i = 0; i < m; i++) new (v + i) K(keys[at[i]]); std::sort(v, v + m, lt); for (int i = 0; i < m; i++) sorted[i] = idOf(v[i]); });
		callSut(nullptr, [&] { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) L[i][j] = lt(keys[i], keys[j]) | (bool)(keys[i] == keys[j]) << 1 | (bool)(keys[i] != keys[j]) << 2; });
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
		{
			bool same = i == j; if (Tr::eq == NUMBERS) { same = true; for (int k = 0; k < Tr::W; k++) same &= sameNumber(pool[i].w[k], pool[j].w[k]); }
			if (Tr::eq != UNSPECIFIED && (L[i][j] >> 1) != (same ? 1 : 2)) rt::violate("order", "%s: == and != of %s keys %d and %d give %d and %d", type, same ? "equal" : "different", i, j, L[i][j] >> 1 & 1, L[i][j] >> 2); L[i][j] &= 1;
		}
		rt::count(rt::M_CHECKS, (uint64_t)n * (uint64_t)n); rt::nontrivial(); if (n > 25) rt::count(P_BIG);
		int rank[POOL] = {}; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j ? L[i][j] : L[i][j] == L[j][i]) rt::violate("order", "%s: two %s keys are %s each other (keys %d and %d)", type, i == j ? "equal" : "different", L[i][j] ? "less than" : "not ordered with", i, j); rank[i] += L[j][i]; }
		bool taken[POOL] = {}; for (int i = 0; i < n; i++) { if (taken[rank[i]]) rt::violate("order", "%s: the binary order goes round in a circle", type); taken[rank[i]] = true; }
		int k = 0; for (int i = 0; i < m; i++) { if (sorted[i] < 0) rt::violate("order", "%s: sorting lost a key", type); if (i && rank[sorted[i]] < rank[sorted[i - 1]]) rt::violate("order", "%s: a sorted array is out of order at %d", type, i); k += !i || sorted[i] != sorted[i - 1]; }
		if (k != n) rt::violate("order", "%s: sorting keeps %d of %d different keys", type, k, n); (void)index;
		uint64_t h = 7; for (int i = 0; i < n; i++) h = h * 1000003 + (uint64_t)rank[i]; rt::record(h); rt::recordState(h % 4096 * 64 + (uint64_t)n);
		if constexpr (!std::is_void<Tw>::value)
		{
			typedef typename Tw::Key Q; alignas(16) static unsigned char tm[MAX_LANES][POOL * sizeof(Q)]; Q* q = (Q*)tm[rt::threadId() % MAX_LANES]; static uint8_t other[MAX_LANES][POOL][POOL]; auto& O = other[rt::threadId() % MAX_LANES];
			callSut(nullptr, [&] { for (int i = 0; i < n; i++) new (q + i) Q(Tw::make(pool[i])); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) O[i][j] = lt(q[i], q[j]); });
			rt::count(P_TWIN); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (O[i][j] != L[i][j]) rt::violate("order", "%s: the SIMD and the plain type order keys %d and %d differently", type, i, j);
		}
	}
	enum { MAX_LANES = 8 };
	void exec(const Op& op, int index)
	{
		rt::setOpIndex(index); int k = op.kind, c = (int)(op.a[0] % CATS), d = 1 - c, n = (int)pool.size(); Rng r(op.seed); Outcome out = OK; bool par = op.lane > 0;
		if (par) { rt::count(P_PARALLEL); if (k != FIND && k != RANGE && k != ORDER) k = FIND; }
		switch (k)
		{
		case INSERT:
		{
			int key = (int)((uint64_t)op.a[1] % (uint64_t)n), value = ++stamp; bool assign = op.a[3] & 1, fresh = mod[c][key] < 0, added = false;
			out = callSut(&op, [&] { if (assign) (*cat[c])[keys[key]] = value; else added = cat[c]->insert(std::make_pair(keys[key], value)).second; });
			if (out == OK) { if (!assign && added != fresh) rt::violate("key-lost", "inserting %s key %d of %d says it was %s", type, key, n, added ? "new" : "known"); if (fresh || assign) mod[c][key] = value; }
			break;
		}
		case ERASE: { int key = (int)((uint64_t)op.a[1] % (uint64_t)n); size_t gone = 0; callSut(&op, [&] { gone = cat[c]->erase(keys[key]); }); if (gone != (mod[c][key] >= 0 ? 1u : 0u)) rt::violate("key-lost", "erasing %s key %d removes %zu keys", type, key, gone); mod[c][key] = -1; break; }
		case FIND: for (int j = 0; j < 3; j++) find(c, &op, (int)r.below((uint64_t)n), par ? "parallel look-up" : "look-up"); break;
		case WALK: audit(c, "everything before"); break;
		case COPY: { bool same = false; out = callSut(&op, [&] { Map t(*cat[c]); same = t.size() == cat[c]->size(); cat[d]->swap(t); }); if (out == OK) { mod[d] = mod[c]; if (!same) rt::violate("key-lost", "a copied catalog of %s keys has another size", type); } break; }
		case REBUILD: // the process died: what is left is the journal, replayed in any order, some entries twice
		{
			rt::count(P_CRASH); int at[POOL * 2], m = 0; for (int i = 0; i < n; i++) if (mod[c][i] >= 0) { at[m++] = i; if (r.chance(0.3)) at[m++] = i; } for (int i = m - 1; i > 0; i--) std::swap(at[i], at[r.below((uint64_t)i + 1)]);
			const int* values = mod[c].data(); out = callSut(&op, [&] { Map t; for (int i = 0; i < m; i++) t.emplace(keys[at[i]], values[at[i]]); cat[c]->swap(t); }); break;
		}
		case MERGE: // one catalog takes in the other; known keys keep their value
			out = callSut(&op, [&] { Map t(*cat[c]); t.insert(cat[d]->begin(), cat[d]->end()); cat[c]->swap(t); }); if (out == OK) for (int i = 0; i < n; i++) if (mod[c][i] < 0) mod[c][i] = mod[d][i]; break;
		case RANGE: // everything up to, from and after a key together is everything
		{
			int key = (int)((uint64_t)op.a[1] % (uint64_t)n); size_t before = 0, after = 0, equal = 0, size = 0; callSut(&op, [&] { const Map& m = *cat[c]; auto lo = m.lower_bound(keys[key]), hi = m.upper_bound(keys[key]); before = (size_t)std::distance(m.begin(), lo); equal = (size_t)std::distance(lo, hi); after = (size_t)std::distance(hi, m.end()); size = m.size(); });
			rt::count(rt::M_CHECKS); if (before + equal + after != size || equal != (mod[c][key] >= 0 ? 1u : 0u)) rt::violate("key-lost", "%s: %zu keys before, %zu at and %zu after key %d of %zu", type, before, equal, after, key, size);
			rt::record(before); break;
		}
		default: order(op, index); break;
		}
		if (out == OOM) rt::count(P_OOM); if (!par) for (int j = 0; j < CATS; j++) audit(j, kindNames[k]);
	}
	struct Par { World* w; size_t from, to; };
	static void laneBody(void* ctx, int lane) { Par* g = (Par*)ctx; for (size_t i = g->from; i < g->to; i++) if (g->w->plan.ops[i].lane - 1 == lane) g->w->exec(g->w->plan.ops[i], (int)i); }
	void run()
	{
		for (size_t i = 0; i < plan.ops.size();)
		{
			if (plan.ops[i].lane <= 0) { exec(plan.ops[i], (int)i); i++; continue; }
			Par g{this, i, i}; int lanes = 0; while (g.to < plan.ops.size() && plan.ops[g.to].lane > 0) { lanes = std::max(lanes, plan.ops[g.to].lane); g.to++; }
			rt::runParallel(lanes, laneBody, &g); i = g.to;
		}
		rt::setOpIndex((int)plan.ops.size()); for (int j = 0; j < CATS; j++) { for (size_t k = 0; k < pool.size(); k++) find(j, nullptr, (int)k, "at the end"); callSut(nullptr, [&] { cat[j]->~Map(); }); rt::bufFree(cat[j]); }
	}
};
template<class Tr, class Tw = void> void go(const Plan& p, const char* n) { static World<Tr, Tw>* w; w = new World<Tr, Tw>(p, n); w->run(); delete w; }
void exec(const Plan& p)
{
	switch (p.knob("type") % 16)
	{
	case 0: go<Plain<float2, 2, NUMBERS>>(p, "float2"); break; case 1: go<Plain<float3, 3, NUMBERS>>(p, "float3"); break; case 2: go<Plain<float4, 4, NUMBERS>>(p, "float4"); break;
	case 3: go<Plain<int2, 2>>(p, "int2"); break; case 4: go<Plain<int3, 3>>(p, "int3"); break; case 5: go<Plain<int4, 4>>(p, "int4"); break;
	case 6: go<Plain<uint2, 2>>(p, "uint2"); break; case 7: go<Plain<uint3, 3>>(p, "uint3"); break; case 8: go<Plain<uint4, 4>>(p, "uint4"); break;
	case 9: go<Plain<f32x4, 4, NUMBERS>, Plain<float4, 4, NUMBERS>>(p, "f32x4"); break; case 10: go<Plain<i32x4, 4>, Plain<int4, 4>>(p, "i32x4"); break; case 11: go<Plain<u32x4, 4>, Plain<uint4, 4>>(p, "u32x4"); break;
	case 12: go<Plain<f32x4x4, 16, UNSPECIFIED>>(p, "f32x4x4"); break; case 13: go<BoxTr>(p, "Aabb"); break; case 14: go<ColorTr>(p, "Color"); break; default: go<VersionTr>(p, "Version"); break;
	}
}
void fault(Op& o, Rng& r, double p)
{
	if (!r.chance(p)) return;
	if (r.chance(0.7)) { o.fmode = rt::FM_NTH; o.fn = 1 + (int64_t)r.below(o.kind == INSERT ? 1 : 20); } else { o.fmode = rt::FM_FROM; o.fn = 1 + (int64_t)r.below(8); }
}
void gen(Plan& p, Rng& r)
{
	p.knobs["heap_reuse"] = r.chance(0.5); p.knobs["heap_skew"] = r.chance(0.5); p.knobs["heap_garbage"] = (int64_t)(r.next() >> 2); p.knobs["type"] = (int64_t)r.below(16); p.knobs["pool_seed"] = (int64_t)(r.next() >> 2);
	double fr = r.chance(0.6) ? r.real(0.05, 0.5) : 0; int n = 4 + (int)r.below(36); static const int w[NKINDS] = {24, 6, 6, 2, 3, 3, 3, 4, 2, 5};
	for (int i = 0; i < n; i++)
	{
		if (i > 3 && r.chance(0.06))
		{
			int lanes = 2 + (int)r.below(3), each = 1 + (int)r.below(3); for (int l = 1; l <= lanes; l++) for (int e = 0; e < each; e++)
			{
				Op o; static const int lw[NKINDS] = {0, 0, 6, 0, 0, 0, 0, 3, 0, 1}; o.lane = l; o.kind = r.pick(lw); o.a[0] = (int64_t)r.below(CATS); o.a[1] = (int64_t)r.below(POOL); o.seed = r.next() >> 1; int np = (int)r.below(5);
				for (int j = 0; j < np; j++) o.pre.push_back({(uint32_t)r.logUniform(300), (uint8_t)r.below(8), (uint8_t)r.chance(0.15)});
				std::sort(o.pre.begin(), o.pre.end(), [](const rt::Pre& x, const rt::Pre& y) { return x.step < y.step; }); p.ops.push_back(o);
			}
			continue;
		}
		Op o; o.kind = r.pick(w); o.a[0] = (int64_t)r.below(CATS); o.a[1] = (int64_t)r.below(POOL); o.a[3] = (int64_t)r.below(2); o.seed = r.next() >> 1; if (o.kind != FIND && o.kind != ERASE && o.kind != RANGE && o.kind != SORT && o.kind != ORDER) fault(o, r, fr); if (r.chance(0.08)) o.fpu = 1 + (int)r.below(5); p.ops.push_back(o);
	}
}
}

const sim::Scenario sim::scenario = {"keys", gen, exec, opName, {"out_of_memory", "key_present", "key_absent", "key_drawn_twice", "neighbouring_key", "differs_in_last_lane", "differs_in_sign", "not_a_number_key", "crash_and_rebuild", "simd_and_plain_compared", "parallel_operations", "large_catalog"}, 20, {"catalog", "key", "", "variant"}};
