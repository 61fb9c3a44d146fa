// Scenario "text" (C11): a settings store. Values are printed with the library, the text goes to simulated storage (where it can be damaged,
// torn or lost) and is read back with the library. Allocations can be refused in both directions, and several threads may convert at once.
#include "common.h"
#include <cstdarg>
#include "math/hex.hpp"
#include "math/color.hpp"
#include "math/version.hpp"
#include "math/vector.hpp"

using namespace math;
using sim::Op; using sim::Plan; using sim::Rng;

namespace
{
enum Kind { HEX_U8, HEX_U16, HEX_U32, HEX_U64, HEX_S8, HEX_S16, HEX_S32, HEX_S64, TEXT32, TEXT64, COLOR8, COLOR6, COLOR_TEXT, VERSION, INTS, UINTS, FLOATS, SIMDS, NKINDS };
const char* kindNames[] = {"hex-uint8", "hex-uint16", "hex-uint32", "hex-uint64", "hex-int8", "hex-int16", "hex-int32", "hex-int64", "parse-32bit-text", "parse-64bit-text",
	"color-rgba-hex", "color-rgb-hex", "color-text", "version-text", "int-vector-text", "uint-vector-text", "float-vector-text", "simd-vector-text"};
const char* opName(int k) { return k >= 0 && k < NKINDS ? kindNames[k] : "?"; }
enum Damage { NONE, FLIP, REPLACE, TRUNCATE, TORN, LOST, ZERO_BYTE, INSERT, NDAMAGE };
enum { P_OOM_PRINT = rt::P_FIRST, P_OOM_PARSE, P_RETRY, P_REJECTED, P_DAMAGED_ACCEPTED, P_TOO_BIG, P_LONG, P_CUT, P_HEAP_TEXT, P_PARALLEL, P_OLD_VALUE, P_NEGATIVE };

std::string hexOf(uint64_t v, size_t len, bool lower = false)
{
	std::string s(len, '0');
	for (size_t i = 0; i < len; i++) { size_t sh = (len - 1 - i) * 4; if (sh < 64) s[i] = (lower ? "0123456789abcdef" : "0123456789ABCDEF")[(v >> sh) & 15]; }
	return s;
}
bool digit(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
// 0: not well formed, 1: value, 2: well formed but larger than 64 bits
int parse(const std::string& s, uint64_t& v)
{
	v = 0; bool big = false; if (s.empty()) return 0;
	for (char c : s)
	{
		if (!digit(c)) return 0;
		if (v >> 60) big = true;
		v = v * 16 + (uint64_t)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
	}
	return big ? 2 : 1;
}
bool anyDigit(const std::string& s) { for (char c : s) if (digit(c)) return true; return false; }
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::string show(const std::string& s) { std::string o; for (unsigned char c : s) { if (c >= 32 && c < 127) o += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }

// strings owned by library code live in the simulated heap
struct LibString
{
	std::string* s = nullptr;
	LibString() {}
	explicit LibString(const std::string& v) { s = (std::string*)rt::bufAlloc(sizeof(std::string), alignof(std::string)); const char* d = v.data(); size_t n = v.size(); callSut(nullptr, [&] { new (s) std::string(d, n); }); }
	~LibString() { clear(); }
	void clear() { if (s) { callSut(nullptr, [&] { s->~basic_string(); }); rt::bufFree(s); s = nullptr; } }
};
// prints into out; the library's own string is gone afterwards
template<class F> Outcome print(const Op* op, std::string& out, F&& f)
{
	std::string* p = (std::string*)rt::bufAlloc(sizeof(std::string), alignof(std::string));
	Outcome r = callSut(op, [&] { new (p) std::string(f()); });
	if (r == OK)
	{
		out.assign(p->data(), p->size());
		if (out.size() > 15) rt::count(P_HEAP_TEXT);
		if (p->data()[p->size()] != 0) rt::violate("wrong-text", "printed text is not terminated");
		callSut(nullptr, [&] { p->~basic_string(); });
	}
	rt::bufFree(p);
	return r;
}
float floatOf(Rng& r)
{
	switch (r.below(8))
	{
	case 0: return 0.0f;
	case 1: return -0.0f;
	case 2: return (float)r.range(-1000, 1000);
	case 3: return (float)(r.real(-1, 1) * 3e38);
	case 4: return (float)(r.real(-1, 1) * 1e-5);
	case 5: return FLT_MAX;
	default: return (float)r.real(-1000, 1000);
	}
}
int32_t intOf(Rng& r) { switch (r.below(5)) { case 0: return INT32_MIN; case 1: return INT32_MAX; case 2: return (int32_t)r.range(-9, 9); default: return (int32_t)r.next(); } }

std::string stored[NKINDS][rt::MAX_THREADS + 1]; // simulated storage: what is there before the write

template<class T> Outcome printHex(const Op* op, std::string& out, T v, size_t len) { return print(op, out, [&] { return len ? toHex(v, len) : toHex(v); }); }

// the library prints value(s) described by the operation
Outcome printOp(const Op& op, const Op* ctl, std::string& out, std::string& expect, bool& exact)
{
	uint64_t v = (uint64_t)op.a[0]; size_t len = (size_t)op.a[1]; Rng q(op.seed); exact = true;
	auto expectHex = [&](int bits, bool sgn) {
		uint64_t m = bits == 64 ? v : v & ((1ull << bits) - 1); size_t l = len ? len : (size_t)bits / 4;
		if (len > (size_t)bits / 4) { rt::count(P_LONG); if (sgn) { if (m >> (bits - 1)) exact = false; } }
		if (len && len < (size_t)bits / 4) rt::count(P_CUT);
		if (sgn && (m >> (bits - 1))) rt::count(P_NEGATIVE);
		expect = hexOf(m, l);
	};
	switch (op.kind)
	{
	case HEX_U8: expectHex(8, false); return printHex(ctl, out, (uint8)v, len);
	case HEX_U16: expectHex(16, false); return printHex(ctl, out, (uint16)v, len);
	case HEX_U32: expectHex(32, false); return printHex(ctl, out, (uint32)v, len);
	case HEX_U64: expectHex(64, false); return printHex(ctl, out, (uint64)v, len);
	case HEX_S8: expectHex(8, true); return printHex(ctl, out, (int8)v, len);
	case HEX_S16: expectHex(16, true); return printHex(ctl, out, (int16)v, len);
	case HEX_S32: expectHex(32, true); return printHex(ctl, out, (int32)v, len);
	case HEX_S64: expectHex(64, true); return printHex(ctl, out, (int64)v, len);
	case TEXT32: case TEXT64: // text the application wrote itself
	{
		int d = op.kind == TEXT32 ? 8 : 16; bool lower = q.chance(0.5);
		out = hexOf(v, len ? len : (size_t)d, lower); if (q.chance(0.2)) for (char& c : out) if (q.chance(0.5)) c = (char)toupper(c);
		if (q.chance(0.1)) out = hexOf(1 + q.below(15), 1, lower) + hexOf(v, (size_t)d, lower);
		expect = out; return OK;
	}
	case COLOR8: case COLOR6:
	{
		Color c((uint8)v, (uint8)(v >> 8), (uint8)(v >> 16), (uint8)(v >> 24));
		expect = fmt("%02X%02X%02X", c.r, c.g, c.b); if (op.kind == COLOR8) expect += fmt("%02X", c.a);
		return op.kind == COLOR8 ? print(ctl, out, [&] { return c.toHex4(); }) : print(ctl, out, [&] { return c.toHex3(); });
	}
	case COLOR_TEXT:
	{
		Color c((uint8)v, (uint8)(v >> 8), (uint8)(v >> 16), (uint8)(v >> 24));
		switch (len & 3)
		{
		case 0: expect = fmt("%d %d %d %d", c.r, c.g, c.b, c.a); return print(ctl, out, [&] { return c.toString4(); });
		case 1: expect = fmt("%d %d %d", c.r, c.g, c.b); return print(ctl, out, [&] { return c.toString3(); });
		case 2: expect = fmt("%d %d", c.r, c.g); return print(ctl, out, [&] { return c.toString2(); });
		default: expect = fmt("%d", c.r); return print(ctl, out, [&] { return c.toString1(); });
		}
	}
	case VERSION:
	{
		unsigned p[4] = {(unsigned)(v & 255), (unsigned)(v >> 8) & 255, (unsigned)(v >> 16) & 255, (unsigned)(v >> 24) & 255};
		Version ver((uint8)p[0], (uint8)p[1], (uint8)p[2], (uint8)p[3]);
		if (len & 4) ver = Version((uint32)(((uint32)p[0] << 24) | (p[1] << 16) | (p[2] << 8) | p[3])); // from the encoded number
		if (len & 8) ver = Version((uint32)ver);
		switch (len & 3)
		{
		case 0: expect = fmt("%u.%u.%u.%u", p[0], p[1], p[2], p[3]); return print(ctl, out, [&] { return ver.toString4(); });
		case 1: expect = fmt("%u.%u.%u", p[0], p[1], p[2]); return print(ctl, out, [&] { return ver.toString3(); });
		case 2: expect = fmt("%u.%u", p[0], p[1]); return print(ctl, out, [&] { return ver.toString2(); });
		default: expect = fmt("%u", p[0]); return print(ctl, out, [&] { return ver.toString1(); });
		}
	}
	case INTS:
	{
		int32_t a[4]; for (auto& x : a) x = intOf(q);
		expect = fmt("%d %d", a[0], a[1]); if (len % 3 > 0) expect += fmt(" %d", a[2]); if (len % 3 > 1) expect += fmt(" %d", a[3]);
		switch (len % 3)
		{
		case 0: return print(ctl, out, [&] { return toString(int2(a[0], a[1])); });
		case 1: return print(ctl, out, [&] { return toString(int3(a[0], a[1], a[2])); });
		default: return print(ctl, out, [&] { return toString(int4(a[0], a[1], a[2], a[3])); });
		}
	}
	case UINTS:
	{
		uint32_t a[4]; for (auto& x : a) x = (uint32_t)intOf(q);
		expect = fmt("%u %u", a[0], a[1]); if (len % 3 > 0) expect += fmt(" %u", a[2]); if (len % 3 > 1) expect += fmt(" %u", a[3]);
		switch (len % 3)
		{
		case 0: return print(ctl, out, [&] { return toString(uint2(a[0], a[1])); });
		case 1: return print(ctl, out, [&] { return toString(uint3(a[0], a[1], a[2])); });
		default: return print(ctl, out, [&] { return toString(uint4(a[0], a[1], a[2], a[3])); });
		}
	}
	case FLOATS:
	{
		float a[4]; for (auto& x : a) x = floatOf(q);
		expect = fmt("%f %f", a[0], a[1]); if (len % 3 > 0) expect += fmt(" %f", a[2]); if (len % 3 > 1) expect += fmt(" %f", a[3]);
		switch (len % 3)
		{
		case 0: return print(ctl, out, [&] { return toString(float2(a[0], a[1])); });
		case 1: return print(ctl, out, [&] { return toString(float3(a[0], a[1], a[2])); });
		default: return print(ctl, out, [&] { return toString(float4(a[0], a[1], a[2], a[3])); });
		}
	}
	default:
		switch (len % 3)
		{
		case 0: { int32_t a[4]; for (auto& x : a) x = intOf(q); expect = fmt("%d %d %d %d", a[0], a[1], a[2], a[3]); i32x4 s(a[0], a[1], a[2], a[3]); return print(ctl, out, [&] { return toString(s); }); }
		case 1: { uint32_t a[4]; for (auto& x : a) x = (uint32_t)intOf(q); expect = fmt("%u %u %u %u", a[0], a[1], a[2], a[3]); u32x4 s(a[0], a[1], a[2], a[3]); return print(ctl, out, [&] { return toString(s); }); }
		default: { float a[4]; for (auto& x : a) x = floatOf(q); expect = fmt("%f %f %f %f", a[0], a[1], a[2], a[3]); f32x4 s(a[0], a[1], a[2], a[3]); return print(ctl, out, [&] { return toString(s); }); }
		}
	}
}

// the library reads text back; returns false when it reported an error
Outcome readOp(int kind, const Op* ctl, const std::string& text, uint64_t& v)
{
	LibString in(text); Outcome r = OK; v = 0;
	if (kind == COLOR8 || kind == COLOR6)
	{
		Color* c = (Color*)rt::bufAlloc(sizeof(Color), alignof(Color));
		r = callSut(ctl, [&] { new (c) Color(*(const std::string*)in.s); }, true);
		if (r == OK) v = (uint64_t)c->r | (uint64_t)c->g << 8 | (uint64_t)c->b << 16 | (uint64_t)c->a << 24;
		rt::bufFree(c);
	}
	else if (kind == HEX_U64 || kind == HEX_S64 || kind == TEXT64) r = callSut(ctl, [&] { v = toInt64(*(const std::string*)in.s); }, true);
	else r = callSut(ctl, [&] { v = toInt32(*(const std::string*)in.s); }, true);
	if (in.s->size() != text.size() || memcmp(in.s->data(), text.data(), text.size())) rt::violate("text-changed", "reading changed the text \"%s\"", show(text).c_str());
	return r;
}
void checkRead(int kind, Outcome r, const std::string& text, uint64_t v)
{
	rt::count(rt::M_CHECKS); rt::nontrivial();
	if (kind == COLOR8 || kind == COLOR6)
	{
		for (size_t i = 0; i * 2 < text.size(); i++)
		{
			uint64_t w; std::string f = text.substr(i * 2, 2); int ok = parse(f, w);
			if (!anyDigit(f) && r == OK) rt::violate("accepted-garbage", "reading the color \"%s\" succeeds", show(text).c_str());
			if (ok == 1 && r == OK && ((v >> (8 * i)) & 255) != w) rt::violate("wrong-value", "reading the color \"%s\" gives %llu for channel %zu instead of %llu", show(text).c_str(), (unsigned long long)((v >> (8 * i)) & 255), i, (unsigned long long)w);
		}
		uint64_t w; if (parse(text, w) == 1 && r == ERROR) rt::violate("rejected", "reading the color \"%s\" fails", show(text).c_str());
		if (text.size() == 6 && r == OK && (v >> 24)) rt::violate("wrong-value", "reading the color \"%s\" gives alpha %llu instead of 0", show(text).c_str(), (unsigned long long)(v >> 24));
		return;
	}
	bool wide = kind == HEX_U64 || kind == HEX_S64 || kind == TEXT64; uint64_t w; int ok = parse(text, w);
	if (ok == 1 && !wide && (w >> 32)) ok = 2;
	if (ok == 1)
	{
		if (r == ERROR) rt::violate("rejected", "reading \"%s\" as a %d bit number fails", show(text).c_str(), wide ? 64 : 32);
		if (r == OK && v != w) rt::violate("wrong-value", "reading \"%s\" as a %d bit number gives %llu instead of %llu", show(text).c_str(), wide ? 64 : 32, (unsigned long long)v, (unsigned long long)w);
	}
	else if (ok == 2)
	{
		rt::count(P_TOO_BIG);
		if (r == OK) rt::violate("wrong-value", "reading \"%s\" as a %d bit number gives %llu although it does not fit", show(text).c_str(), wide ? 64 : 32, (unsigned long long)v);
	}
	else if (r == OK && !anyDigit(text)) rt::violate("accepted-garbage", "reading \"%s\" as a number succeeds", show(text).c_str());
	if (ok == 0) rt::count(r == ERROR ? P_REJECTED : P_DAMAGED_ACCEPTED);
}
std::string damage(const std::string& was, const std::string& now, int how, uint64_t seed, bool fixedLength)
{
	Rng q(seed); std::string s = now; if (how == NONE || s.empty()) return s;
	int n = 1 + (q.chance(0.3) ? (int)q.below(s.size()) : 0); size_t at = (size_t)q.below(s.size());
	switch (how)
	{
	case FLIP: for (int i = 0; i < n; i++) { s[at] ^= (char)(1 << q.below(8)); at = (size_t)q.below(s.size()); } break;
	case REPLACE: for (int i = 0; i < n; i++) { s[at] = q.chance(0.3) ? " \t-+xXgG.0\x7f"[q.below(11)] : (char)q.next(); at = (size_t)q.below(s.size()); } break;
	case TRUNCATE: if (fixedLength) for (size_t i = at; i < s.size(); i++) s[i] = 0; else s.resize(at); break;
	case TORN: { std::string o = was; o.resize(s.size(), ' '); s = s.substr(0, at) + o.substr(at); break; }
	case LOST: if (!was.empty() && (!fixedLength || was.size() == s.size())) { s = was; rt::count(P_OLD_VALUE); } break;
	case ZERO_BYTE: s[at] = 0; break;
	case INSERT: if (fixedLength) { s.insert(at, 1, (char)q.next()); s.pop_back(); } else s.insert(at, 1 + (size_t)q.below(3), "0 -fz"[q.below(5)]); break;
	}
	rt::count(rt::F_TEXT_CORRUPT);
	return s;
}

void execOp(const Op& op, int index)
{
	rt::setOpIndex(index);
	if (op.lane) rt::count(P_PARALLEL);
	std::string text, expect; bool exact; uint64_t live = rt::liveBytes(); bool faultOnRead = op.a[3] & 1;
	Op quiet = op; quiet.fmode = 0;
	if (op.kind == FLOATS || op.kind == SIMDS) quiet.fpu = 0;
	Op first = quiet; if (!faultOnRead) { first.fmode = op.fmode; first.fn = op.fn; }
	bool lib = op.kind != TEXT32 && op.kind != TEXT64;
	Outcome r = printOp(op, &first, text, expect, exact);
	if (r == OOM)
	{
		rt::count(P_OOM_PRINT); rt::count(P_RETRY);
		if (!op.lane && rt::liveBytes() != live) rt::violate("leak", "%s: printing ran out of memory and left %lld bytes allocated", opName(op.kind), (long long)(rt::liveBytes() - live));
		r = printOp(op, &quiet, text, expect, exact);
	}
	if (lib)
	{
		rt::count(rt::M_CHECKS); rt::nontrivial();
		if (exact && text != expect) rt::violate("wrong-text", "%s printed \"%s\" instead of \"%s\"", opName(op.kind), show(text).c_str(), show(expect).c_str());
		if (!exact && text.size() != expect.size()) rt::violate("wrong-text", "%s printed \"%s\", which is not %zu digits long", opName(op.kind), show(text).c_str(), expect.size());
	}
	rt::recordBytes(text.data(), text.size());
	if (op.kind <= COLOR6)
	{
		bool fixedLength = op.kind == COLOR8 || op.kind == COLOR6;
		std::string& slot = stored[op.kind][op.lane];
		std::string now = damage(slot, text, (int)op.a[2], op.seed ^ 77, fixedLength); slot = now;
		if (!now.empty() || !fixedLength)
		{
			uint64_t v = 0; Op second = quiet; if (faultOnRead) { second.fmode = op.fmode; second.fn = op.fn; }
			r = readOp(op.kind, &second, now, v);
			if (r == OOM) { rt::count(P_OOM_PARSE); rt::count(P_RETRY); r = readOp(op.kind, &quiet, now, v); }
			checkRead(op.kind, r, now, v);
			if (now == text && r == OK && op.kind <= HEX_U64)
			{
				static const int bits[4] = {8, 16, 32, 64}; int b = bits[op.kind]; uint64_t m = b == 64 ? ~0ull : (1ull << b) - 1, want = (uint64_t)op.a[0] & m;
				if (op.a[1] && op.a[1] < b / 4) want &= (1ull << (op.a[1] * 4)) - 1;
				if (v != want) rt::violate("round-trip", "%s: %llu printed as \"%s\" reads back as %llu", opName(op.kind), (unsigned long long)want, show(text).c_str(), (unsigned long long)v);
			}
			rt::record(v);
		}
	}
	if (!op.lane && rt::liveBytes() != live) rt::violate("leak", "%s left %lld bytes allocated", opName(op.kind), (long long)(rt::liveBytes() - live));
	rt::recordState(((uint64_t)op.kind * 8 + (uint64_t)r) * 4096 + (uint64_t)op.a[2] * 256 + std::min<size_t>(text.size(), 255));
}

struct Par { const Plan* p; size_t from, to; };
void laneBody(void* ctx, int lane)
{
	Par* g = (Par*)ctx;
	for (size_t i = g->from; i < g->to; i++) if (g->p->ops[i].lane - 1 == lane) execOp(g->p->ops[i], (int)i);
}
void exec(const Plan& plan)
{
	for (auto& k : stored) for (auto& s : k) s.clear();
	uint64_t live = rt::liveBytes();
	for (size_t i = 0; i < plan.ops.size();)
	{
		if (plan.ops[i].lane <= 0) { execOp(plan.ops[i], (int)i); i++; continue; }
		Par g{&plan, i, i}; int lanes = 0;
		while (g.to < plan.ops.size() && plan.ops[g.to].lane > 0) { lanes = std::max(lanes, plan.ops[g.to].lane); g.to++; }
		rt::runParallel(std::min<int>(lanes, rt::MAX_THREADS), laneBody, &g);
		if (rt::liveBytes() != live) rt::violate("leak", "parallel conversions left %lld bytes allocated", (long long)(rt::liveBytes() - live));
		i = g.to;
	}
}
void genOp(Op& o, Rng& r, double fr, double dr)
{
	static const int w[NKINDS] = {4, 3, 5, 6, 2, 2, 2, 2, 5, 5, 6, 4, 2, 3, 2, 2, 4, 3};
	o.kind = r.pick(w); o.seed = r.next() >> 1;
	switch (r.below(5)) { case 0: o.a[0] = (int64_t)r.logUniform(~0ull >> 1); break; case 1: o.a[0] = -1; break; case 2: o.a[0] = (int64_t)(1ull << r.below(64)); break; default: o.a[0] = (int64_t)r.next(); }
	if (o.kind <= HEX_S64) o.a[1] = r.chance(0.6) ? 0 : 1 + (int64_t)r.below(r.chance(0.3) ? 40 : 18);
	else if (o.kind <= TEXT64) o.a[1] = r.chance(0.5) ? 0 : 1 + (int64_t)r.below(o.kind == TEXT32 ? 10 : 20);
	else o.a[1] = (int64_t)r.below(12);
	o.a[2] = r.chance(dr) ? 1 + (int64_t)r.below(NDAMAGE - 1) : 0; o.a[3] = (int64_t)r.below(2);
	if (r.chance(fr)) { static const int m[4] = {rt::FM_NTH, rt::FM_NTH, rt::FM_FROM, rt::FM_TWO}; o.fmode = m[r.below(4)]; o.fn = 1 + (int64_t)r.logUniform(6); }
	if (r.chance(0.05)) o.fpu = 1 + (int)r.below(5);
}
void gen(Plan& p, Rng& r)
{
	p.knobs["heap_reuse"] = r.chance(0.5); p.knobs["heap_skew"] = r.chance(0.5); p.knobs["heap_garbage"] = (int64_t)(r.next() >> 2);
	double fr = r.chance(0.7) ? r.real(0.1, 0.7) : 0, dr = r.chance(0.7) ? r.real(0.1, 0.8) : 0; int n = 2 + (int)r.below(20);
	for (int i = 0; i < n; i++)
	{
		if (r.chance(0.08))
		{
			int lanes = 2 + (int)r.below(3), each = 1 + (int)r.below(3);
			for (int l = 1; l <= lanes; l++) for (int e = 0; e < each; e++)
			{
				Op o; genOp(o, r, fr, dr); o.lane = l; int np = (int)r.below(6);
				for (int j = 0; j < np; j++) o.pre.push_back({(uint32_t)r.logUniform(150), (uint8_t)r.below(8), (uint8_t)r.chance(0.15)});
				std::sort(o.pre.begin(), o.pre.end(), [](const rt::Pre& x, const rt::Pre& y) { return x.step < y.step; });
				p.ops.push_back(o);
			}
			continue;
		}
		Op o; genOp(o, r, fr, dr); p.ops.push_back(o);
		if (r.chance(0.2)) { Op again = o; again.a[0] ^= (int64_t)r.next(); again.a[2] = TORN; if (r.chance(0.5)) again.a[2] = LOST; p.ops.push_back(again); }
	}
}
}

const sim::Scenario sim::scenario = {"text", gen, exec, opName, {"print_out_of_memory", "parse_out_of_memory", "retried", "damaged_text_rejected", "damaged_text_accepted", "number_too_big",
	"longer_than_the_value", "shorter_than_the_value", "text_on_the_heap", "parallel_conversions", "old_value_read", "negative"}, 20, {"value", "variant", "damage", "fault_on_read"}};
