// Scenario "packed" (C09, C10): histories of operations on packed vectors of 1-, 2- and 4-bit elements, with refused allocations, heap reuse
// and threads that work on their own vectors while they read a shared one. Every vector is compared with an array model after every operation.
#include "common.h"
#include "math/packed-vector.hpp"

using math::PackedVector; using math::uint8;
using sim::Op; using sim::Plan; using sim::Rng;

namespace
{
enum Kind { CONSTRUCT, RESIZE, SET, GET, FILL, COPY_CTOR, COPY_ASSIGN, MOVE_CTOR, MOVE_ASSIGN, SWAP, CLEAR, RESERVE, SHRINK, DESTROY, APPEND, HUGE_RESIZE, NKINDS };
const char* kindNames[] = {"construct", "resize", "set", "get", "fill", "copy-construct", "copy-assign", "move-construct", "move-assign", "swap", "clear", "reserve",
	"shrink-to-fit", "destroy", "append-byte", "resize-huge"};
const char* opName(int k) { return k >= 0 && k < NKINDS ? kindNames[k] : "?"; }
enum { P_ODD = rt::P_FIRST, P_SHRINK_GROW, P_COPY_DIVERGED, P_OOM, P_OOM_COPY, P_LENGTH, P_MOVED_REUSED, P_SELF, P_REALLOC, P_PARALLEL, P_WIDE, P_AFTER_OOM, P_EDGE };
enum { NSLOTS = 4 };
typedef std::vector<uint8> Bytes;

struct Model { std::vector<int16_t> e; bool moved = false, failed = false, copied = false; }; // -1: unspecified

template<int B> struct World
{
	typedef PackedVector<B> PV;
	enum { PER = 8 / B, MASK = (1 << B) - 1 };
	const Plan& plan;
	PV* obj[NSLOTS] = {};
	Model mod[NSLOTS];

	explicit World(const Plan& p) : plan(p) {}
	static size_t bytesFor(size_t n) { return n / PER + (n % PER != 0); }

	void destroy(int s)
	{
		if (!obj[s]) return;
		callSut(nullptr, [&] { obj[s]->~PV(); });
		rt::bufFree(obj[s]); obj[s] = nullptr; mod[s] = Model();
	}
	// every element of one vector through the library
	void audit(int s, const char* after, bool unsafe = false)
	{
		if (!obj[s] || mod[s].moved) return;
		Model& m = mod[s];
		int16_t got[8]; size_t n = m.e.size(), size = 0;
		callSut(nullptr, [&] { size = ((const Bytes*)obj[s])->size(); });
		if (size < bytesFor(n)) rt::violate("size", "after %s vector %d of %d-bit elements holds %zu bytes, %zu elements need %zu", after, s, B, size, n, bytesFor(n));
		for (size_t i = 0; i < n; i += 8)
		{
			size_t k = std::min<size_t>(8, n - i);
			callSut(nullptr, [&] { for (size_t j = 0; j < k; j++) got[j] = unsafe ? ((const PV*)obj[s])->unsafeGet(i + j) : ((const PV*)obj[s])->get(i + j); });
			for (size_t j = 0; j < k; j++)
			{
				if (got[j] < 0 || got[j] > MASK) rt::violate("element", "after %s get(%zu) of vector %d gives %d, not a %d-bit value", after, i + j, s, got[j], B);
				if (m.e[i + j] < 0) { m.e[i + j] = got[j]; continue; } // unspecified until first seen, then it must stay
				if (got[j] != m.e[i + j])
					rt::violate("element", "after %s get(%zu) of vector %d (%zu %d-bit elements) gives %d instead of %d", after, i + j, s, n, B, got[j], m.e[i + j]);
			}
			rt::count(rt::M_CHECKS);
		}
		rt::nontrivial();
	}
	void modelResize(Model& m, size_t n)
	{
		size_t old = m.e.size(), oldBytes = bytesFor(old);
		if (n < old) { rt::count(P_SHRINK_GROW); m.e.resize(n); shrunkTail[&m - mod] = true; }
		else
		{
			// the rest of a byte that was shrunk into is whatever it was; whole new bytes are zero
			for (size_t i = old; i < n; i++) m.e.push_back(i / PER < oldBytes && shrunkTail[&m - mod] ? -1 : 0);
			if (bytesFor(n) > oldBytes || n == 0) shrunkTail[&m - mod] = false;
		}
		if (n % PER) rt::count(P_ODD);
	}
	bool shrunkTail[NSLOTS] = {};

	void copyModel(int d, int s) { mod[d].e = mod[s].e; mod[d].moved = mod[s].moved; mod[d].failed = false; mod[d].copied = true; shrunkTail[d] = shrunkTail[s]; }
	void ensure(int s, size_t n = 0)
	{
		if (obj[s]) return;
		obj[s] = (PV*)rt::bufAlloc(sizeof(PV), alignof(PV));
		callSut(nullptr, [&] { new (obj[s]) PV(n); });
		mod[s] = Model(); mod[s].e.assign(n, 0); shrunkTail[s] = false;
	}
	// a moved-from vector may only be given new contents
	void settle(int s)
	{
		if (!obj[s] || !mod[s].moved) return;
		rt::count(P_MOVED_REUSED);
		callSut(nullptr, [&] { obj[s]->clear(); });
		mod[s] = Model(); shrunkTail[s] = false;
	}
	void failedOp(int s) { rt::count(P_OOM); mod[s].failed = true; }

	void exec(const Op& op, int index)
	{
		rt::setOpIndex(index);
		int lane = op.lane, s = (int)(op.a[0] & 3), b = (int)(op.a[1] & 3);
		int k = op.kind;
		if (lane)
		{
			// slot 0 is shared and only read; every thread changes the slot of its own lane
			rt::count(P_PARALLEL);
			if (k == GET) { if (!obj[0] || mod[0].moved) return; s = op.a[3] & 1 ? 0 : lane; }
			else s = lane;
			if (k == COPY_CTOR || k == COPY_ASSIGN) b = 0; else b = lane;
			if (k == SWAP || k == MOVE_CTOR || k == MOVE_ASSIGN) return;
			if (s >= NSLOTS) return;
			if (k == GET && s == 0 && mod[0].e.empty()) return;
			if (b == 0 && (!obj[0] || mod[0].moved)) return;
		}
		Outcome r = OK;
		size_t n = (size_t)op.a[2];
		if (obj[s] && mod[s].failed) { rt::count(P_AFTER_OOM); mod[s].failed = false; }
		switch (k)
		{
		case CONSTRUCT:
		{
			destroy(s);
			PV* p = (PV*)rt::bufAlloc(sizeof(PV), alignof(PV));
			r = callSut(&op, [&] { if (n == 0 && (op.a[3] & 1)) new (p) PV(); else new (p) PV(n); });
			if (r == OK) { obj[s] = p; mod[s] = Model(); mod[s].e.assign(n, 0); shrunkTail[s] = false; if (n % PER) rt::count(P_ODD); }
			else { rt::count(P_OOM); rt::bufFree(p); }
			break;
		}
		case RESIZE:
		{
			ensure(s); settle(s);
			const void* before = nullptr; const void* after = nullptr;
			r = callSut(&op, [&] { before = obj[s]->data(); obj[s]->resize(n); after = obj[s]->data(); });
			if (before != after && r == OK) rt::count(P_REALLOC);
			if (r == OK) modelResize(mod[s], n); else failedOp(s);
			break;
		}
		case HUGE_RESIZE:
		{
			ensure(s); settle(s);
			size_t want = (size_t)-1 - (size_t)(op.a[2] & 63); if (op.a[3] & 1) want = ((size_t)1 << 40) + (size_t)op.a[2];
			Op o = op; o.fmode = rt::FM_SIZE; o.fn = 1 << 26;
			bool ctor = (op.a[3] & 6) == 6;
			r = callSut(&o, [&] { if (ctor) { PV t(want); } else obj[s]->resize(want); }, true);
			if (r == OK) rt::violate("size", "a vector of %zu %d-bit elements was created without memory for it", want, B);
			rt::count(P_LENGTH); if (!ctor) mod[s].failed = true;
			break;
		}
		case SET: case FILL:
		{
			if (!obj[s] && lane) return;
			ensure(s, 1 + (size_t)(op.seed % 50)); settle(s);
			Model& m = mod[s]; if (m.e.empty()) return;
			sim::Rng q(op.seed);
			int count = k == SET ? 1 : 1 + (int)q.below(24);
			if (m.copied) rt::count(P_COPY_DIVERGED);
			std::vector<size_t> at(count); std::vector<uint8> val(count);
			for (int i = 0; i < count; i++)
			{
				at[i] = q.chance(0.2) ? m.e.size() - 1 : (size_t)q.below(m.e.size()); val[i] = (uint8)q.below(MASK + 1);
				if (at[i] == m.e.size() - 1) rt::count(P_EDGE);
				if (q.chance(0.15)) { val[i] = (uint8)q.next(); if (val[i] > MASK) rt::count(P_WIDE); }
				if (q.chance(0.3)) { val[i] |= MASK; val[i] &= MASK; }
			}
			bool unsafe = op.a[3] & 2;
			r = callSut(&op, [&] { for (int i = 0; i < count; i++) { if (unsafe) obj[s]->unsafeSet(at[i], val[i]); else obj[s]->set(at[i], val[i]); } });
			if (r != OK) rt::violate("unexpected-exception", "set failed");
			for (int i = 0; i < count; i++) m.e[at[i]] = val[i] & MASK;
			break;
		}
		case GET:
		{
			if (!obj[s]) return;
			if (mod[s].moved) return;
			Model& m = mod[s]; if (m.e.empty()) return;
			sim::Rng q(op.seed);
			for (int i = 0; i < 4; i++)
			{
				size_t at = (size_t)q.below(m.e.size()); int got = 0;
				callSut(&op, [&] { got = op.a[3] & 2 ? ((const PV*)obj[s])->unsafeGet(at) : ((const PV*)obj[s])->get(at); });
				rt::count(rt::M_CHECKS); rt::nontrivial();
				if (m.e[at] >= 0 && got != m.e[at]) rt::violate("element", "get(%zu) of vector %d (%zu %d-bit elements) gives %d instead of %d", at, s, m.e.size(), B, got, m.e[at]);
			}
			break;
		}
		case COPY_CTOR:
		{
			if (s == b) return;
			if (!obj[b]) return;
			if (mod[b].moved) return;
			destroy(s);
			PV* p = (PV*)rt::bufAlloc(sizeof(PV), alignof(PV));
			r = callSut(&op, [&] { new (p) PV(*(const PV*)obj[b]); });
			if (r == OK) { obj[s] = p; copyModel(s, b); }
			else { rt::count(P_OOM_COPY); rt::bufFree(p); }
			break;
		}
		case COPY_ASSIGN:
			if (!obj[b] || mod[b].moved) return;
			ensure(s);
			if (s == b) rt::count(P_SELF);
			r = callSut(&op, [&] { *obj[s] = *(const PV*)obj[b]; });
			if (r == OK) { if (s != b) copyModel(s, b); } else { rt::count(P_OOM_COPY); failedOp(s); }
			break;
		case MOVE_CTOR:
		{
			if (s == b || !obj[b] || mod[b].moved) return;
			destroy(s);
			PV* p = (PV*)rt::bufAlloc(sizeof(PV), alignof(PV));
			r = callSut(&op, [&] { new (p) PV(std::move(*obj[b])); });
			if (r == OK) { obj[s] = p; copyModel(s, b); mod[b] = Model(); mod[b].moved = true; } else rt::bufFree(p);
			break;
		}
		case MOVE_ASSIGN:
			if (s == b || !obj[b] || mod[b].moved) return;
			ensure(s);
			r = callSut(&op, [&] { *obj[s] = std::move(*obj[b]); });
			if (r == OK) { copyModel(s, b); mod[b] = Model(); mod[b].moved = true; } else failedOp(s);
			break;
		case SWAP:
			if (!obj[b] || !obj[s]) return;
			if (mod[s].moved || mod[b].moved) return;
			if (s == b) rt::count(P_SELF);
			r = callSut(&op, [&] { using std::swap; if ((op.a[3] & 1) && s != b) swap(*obj[s], *obj[b]); else obj[s]->swap(*obj[b]); });
			if (r == OK && s != b) { std::swap(mod[s], mod[b]); std::swap(shrunkTail[s], shrunkTail[b]); }
			break;
		case CLEAR:
			if (!obj[s]) return;
			callSut(&op, [&] { obj[s]->clear(); });
			mod[s].e.clear(); mod[s].moved = false; shrunkTail[s] = false;
			break;
		case RESERVE:
			ensure(s); settle(s);
			r = callSut(&op, [&] { obj[s]->reserve(n); });
			if (r != OK) failedOp(s);
			break;
		case SHRINK:
			ensure(s); settle(s);
			r = callSut(&op, [&] { obj[s]->shrink_to_fit(); });
			break;
		case APPEND: // through the byte vector it publicly is
			ensure(s); settle(s);
			r = callSut(&op, [&] { obj[s]->push_back((uint8)op.a[2]); });
			if (r == OK)
			{
				Model& m = mod[s]; size_t full = bytesFor(m.e.size()) * PER; bool st = shrunkTail[s];
				while (m.e.size() < full) m.e.push_back(st ? -1 : 0);
				for (int i = 0; i < PER; i++) m.e.push_back((((uint8)op.a[2]) >> (i * B)) & MASK);
				shrunkTail[s] = false;
			}
			else failedOp(s);
			break;
		case DESTROY: destroy(s); break;
		}
		if (!lane)
		{
			for (int i = 0; i < NSLOTS; i++) audit(i, kindNames[k], (op.a[3] & 4) != 0);
			rt::recordState((((uint64_t)k * 4 + (uint64_t)r) * 8 + B) * 1024 + (obj[s] ? std::min<size_t>(mod[s].e.size(), 255) * 2 + mod[s].moved : 1000));
		}
		else if (obj[s] && s) audit(s, kindNames[k]);
		uint64_t h = (uint64_t)k * 31 + (uint64_t)r; if (obj[s]) for (auto e : mod[s].e) h = h * 1000003 + (uint64_t)e;
		rt::record(h);
	}

	struct Par { World* w; size_t from, to; };
	static void laneBody(void* ctx, int lane)
	{
		Par* g = (Par*)ctx;
		for (size_t i = g->from; i < g->to; i++)
			if (g->w->plan.ops[i].lane - 1 == lane) g->w->exec(g->w->plan.ops[i], (int)i);
	}
	void run()
	{
		for (size_t i = 0; i < plan.ops.size();)
		{
			if (plan.ops[i].lane <= 0) { exec(plan.ops[i], (int)i); i++; continue; }
			Par g{this, i, i}; int lanes = 0;
			while (g.to < plan.ops.size() && plan.ops[g.to].lane > 0) { lanes = std::max(lanes, plan.ops[g.to].lane); g.to++; }
			rt::runParallel(std::min(lanes, NSLOTS - 1), laneBody, &g);
			for (int s = 0; s < NSLOTS; s++) audit(s, "parallel work");
			i = g.to;
		}
		rt::setOpIndex((int)plan.ops.size());
		for (int i = 0; i < NSLOTS; i++) audit(i, "everything");
		for (int i = 0; i < NSLOTS; i++) destroy(i);
	}
};
template<int B> void runBits(const Plan& plan)
{
	{ World<B> w(plan); w.run(); }
	if (plan.property == "C10")
	{
		uint64_t l1 = rt::liveBytes(), b1 = rt::liveBlocks();
		{ World<B> w(plan); w.run(); }
		rt::count(rt::M_CHECKS);
		if (rt::liveBytes() > l1 || rt::liveBlocks() > b1)
			rt::violate("leak", "repeating this history leaves %llu more bytes in %llu more blocks allocated after everything was destroyed",
				(unsigned long long)(rt::liveBytes() - l1), (unsigned long long)(rt::liveBlocks() - b1));
	}
}
void exec(const Plan& plan)
{
	switch (plan.knob("bits", 1)) { case 1: runBits<1>(plan); break; case 2: runBits<2>(plan); break; default: runBits<4>(plan); break; }
}

void fault(Op& o, Rng& r, double p)
{
	if (!r.chance(p)) return;
	if (r.chance(0.7)) { o.fmode = rt::FM_NTH; o.fn = 1 + (int64_t)r.below(2); }
	else if (r.chance(0.5)) { o.fmode = rt::FM_FROM; o.fn = 1; }
	else { o.fmode = rt::FM_SIZE; o.fn = (int64_t)r.logUniform(64); }
}
int64_t countOf(Rng& r, bool big)
{
	switch (r.below(6))
	{
	case 0: return (int64_t)r.below(9);
	case 1: return 8 * (int64_t)r.below(12) + (int64_t)r.range(-1, 1) < 0 ? 0 : std::max<int64_t>(0, 8 * (int64_t)r.below(12) + r.range(-1, 1));
	case 2: return (int64_t)r.logUniform(big ? 1500 : 200);
	default: return (int64_t)r.below(70);
	}
}
void gen(Plan& p, Rng& r)
{
	p.knobs["heap_reuse"] = r.chance(0.5); p.knobs["heap_skew"] = r.chance(0.5); p.knobs["heap_garbage"] = (int64_t)(r.next() >> 2);
	static const int bits[3] = {1, 2, 4}; p.knobs["bits"] = bits[r.below(3)];
	bool faulty = r.chance(0.7), big = r.chance(0.1), wide = r.chance(0.3);
	double fr = faulty ? r.real(0.05, 0.5) : 0;
	int n = 3 + (int)r.below(28), slots = wide ? NSLOTS : 2;
	static const int w[NKINDS] = {3, 9, 8, 2, 5, 3, 4, 2, 3, 3, 1, 1, 2, 1, 2, 1};
	for (int i = 0; i < n; i++)
	{
		if (i > 2 && r.chance(0.06))
		{
			int lanes = 2 + (int)r.below(2), each = 1 + (int)r.below(4);
			for (int l = 1; l <= lanes; l++) for (int e = 0; e < each; e++)
			{
				Op o; static const int lw[NKINDS] = {1, 4, 4, 6, 3, 4, 5, 0, 0, 0, 1, 1, 1, 1, 1, 0};
				o.lane = l; o.kind = r.pick(lw); o.a[2] = countOf(r, false); o.a[3] = (int64_t)r.below(8); o.seed = r.next() >> 1; fault(o, r, fr);
				int np = (int)r.below(6);
				for (int j = 0; j < np; j++) o.pre.push_back({(uint32_t)r.logUniform(120), (uint8_t)r.below(8), (uint8_t)r.chance(0.15)});
				std::sort(o.pre.begin(), o.pre.end(), [](const rt::Pre& x, const rt::Pre& y) { return x.step < y.step; });
				p.ops.push_back(o);
			}
			continue;
		}
		Op o; o.kind = r.pick(w); o.a[0] = (int64_t)r.below((uint64_t)slots); o.a[1] = r.chance(0.8) ? (int64_t)r.below((uint64_t)slots) : o.a[0];
		if (o.kind >= COPY_CTOR && o.kind <= SWAP && o.a[0] == o.a[1] && r.chance(0.8)) o.a[1] = (o.a[0] + 1) % slots;
		o.a[2] = o.kind == APPEND ? (int64_t)r.below(256) : countOf(r, big); o.a[3] = (int64_t)r.below(8); o.seed = r.next() >> 1;
		if (o.kind != GET && o.kind != SET && o.kind != FILL && o.kind != CLEAR && o.kind != DESTROY) fault(o, r, fr);
		if (r.chance(0.05)) o.fpu = 1 + (int)r.below(5);
		p.ops.push_back(o);
		if (o.fmode && r.chance(0.3)) { Op again = o; again.fmode = 0; p.ops.push_back(again); }
	}
}
}

const sim::Scenario sim::scenario = {"packed", gen, exec, opName, {"partly_used_byte", "shrunk", "copy_changed_later", "out_of_memory", "copy_out_of_memory", "impossible_size",
	"moved_from_reused", "self_assignment", "reallocated", "parallel_operations", "value_wider_than_element", "used_after_failure", "last_element"}, 20, {"vector", "other", "count", "variant"}};
