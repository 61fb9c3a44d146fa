// Plans, seeded search, minimisation and replay. Uninstrumented.
#pragma once
#include "rt.h"
#include <string>
#include <vector>
#include <map>

namespace sim
{
	struct Rng
	{
		uint64_t s;
		explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
		uint64_t next()
		{
			s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
		}
		uint64_t below(uint64_t n) { return n ? next() % n : 0; }
		int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
		bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
		double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
		double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
		uint64_t logUniform(uint64_t max) // 0..max, small values more likely
		{
			int bits = 0; while (bits < 63 && (1ull << bits) <= max) bits++;
			uint64_t v = below(1ull << below(bits + 1)); return v > max ? max : v;
		}
		template<size_t N> int pick(const int (&w)[N])
		{
			int t = 0; for (int x : w) t += x;
			int r = (int)below((uint64_t)t); for (size_t i = 0; i < N; i++) { if (r < w[i]) return (int)i; r -= w[i]; }
			return 0;
		}
	};

	enum { NARGS = 8 };
	struct Op
	{
		int lane = 0, kind = 0;
		int64_t a[NARGS] = {};
		uint64_t seed = 0;
		int fmode = 0; int64_t fn = 0; int fpu = 0;
		std::vector<rt::Pre> pre;
	};
	struct Plan
	{
		std::string scenario, property;
		uint64_t seed = 0;
		std::map<std::string, int64_t> knobs;
		std::vector<Op> ops;
		int64_t knob(const char* n, int64_t def = 0) const { auto i = knobs.find(n); return i == knobs.end() ? def : i->second; }
	};

	struct Scenario
	{
		const char* name;
		void (*gen)(Plan& plan, Rng& rng);   // worker process: must not call library code
		void (*exec)(const Plan& plan);      // child process, after rt::childInit; returns on success
		const char* (*opName)(int kind);
		std::vector<const char*> probes;     // names of counters from rt::P_FIRST on
		unsigned cpuSeconds;
		std::vector<const char*> argNames;   // for printing
	};
	extern const Scenario scenario; // defined by each scenario translation unit

	uint64_t hashStr(const char* s);
}
