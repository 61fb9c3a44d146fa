// Simulator runtime: the seams (memory, allocator, scheduler, FPU environment, process termination) through which
// the real library code runs. rt.cpp is compiled WITHOUT instrumentation; every other translation unit (harness and
// the repository's sources) is compiled with -fsanitize=thread and linked against the __tsan_* entry points in rt.cpp,
// so every memory access of library code is an event the simulator sees, checks and may preempt.
#pragma once
#include <cstdint>
#include <cstddef>
#include <new>

namespace rt
{
	enum { MAX_THREADS = 8, MAX_PRE = 64, NCOUNTERS = 96, MAX_STATES = 96 };

	enum Counter
	{
		// fault kinds (fired, not configured)
		F_ALLOC_NTH, F_ALLOC_SUSTAINED, F_ALLOC_SIZE, F_ALLOC_LATE, F_CALLBACK_THROW, F_PREEMPT, F_STALL, F_FPU_MODE,
		F_CLOCK_JITTER, F_CLOCK_STALL, F_CLOCK_BURST, F_CLOCK_ZERO, F_TEXT_CORRUPT, F_REUSE_HEAP, F_GUARD_BLOCK,
		F_STACK_CURSOR, F_END,
		// measures
		M_OPS = F_END, M_ALLOCS, M_STEPS, M_SWITCHES, M_PARALLEL, M_CHECKS,
		P_FIRST // scenario probes start here
	};

	struct Pre { uint32_t step; uint8_t target; uint8_t stall; };

	// Shared with the worker process; survives the child whatever kills it.
	struct Result
	{
		volatile int status;      // 0 running/died, 1 ok, 2 violation, 3 harness error
		char cls[80];
		char msg[1600];
		int opIndex;
		int nontrivial;
		uint64_t hash;            // event hash of the run
		uint64_t interleaving;    // hash of the context switches
		uint64_t simTimeNs;
		uint64_t counters[NCOUNTERS];
		uint32_t stateCount;
		uint64_t states[MAX_STATES];
	};

	enum FaultMode { FM_NONE = 0, FM_NTH = 1, FM_FROM = 2, FM_SIZE = 3, FM_TWO = 4 };
	enum FpuMode { FPU_DEFAULT = 0, FPU_FTZ_DAZ = 1, FPU_UP = 2, FPU_DOWN = 3, FPU_ZERO = 4, FPU_FTZ = 5 };

	struct OpCtl
	{
		int faultMode = 0; int64_t faultN = 0; int fpu = 0;
		const Pre* pre = nullptr; int preCount = 0;
		uint64_t budget = 0; // memory accesses before the operation counts as hung
	};

	struct HeapCfg { int reuse; int skew; uint64_t garbageSeed; };

	// Process set-up
	void childInit(Result* res, const HeapCfg& heap, unsigned cpuSeconds);
	[[noreturn]] void finishOk();
	[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	void setOpIndex(int i);

	// Operations on the system under test
	void opBegin(const OpCtl& c);
	void opEnd();
	struct Outside { int saved; Outside() noexcept; ~Outside(); };
	struct Inside { int saved; Inside() noexcept; ~Inside(); }; // nested library call from a callback
	uint64_t opSteps();          // accesses made by this thread's current/last operation
	uint64_t opAllocs();         // allocation requests of the current/last operation
	bool opFaultFired();         // an allocation was refused during the current/last operation
	int threadId();

	// Simulated heap for buffers handed to the library (exact size, redzones on both sides)
	void* bufAlloc(size_t size, size_t align, size_t misalign = 0);
	void bufFree(void* p);
	uint64_t liveBytes();
	uint64_t liveBlocks();
	bool inArena(const void* p);
	// true when all bytes lie inside one live simulated block
	bool addressable(const void* p, size_t n);
	void protectConst(const void* p, bool on); // writes by library code into this block are violations

	// Parallel phase: body(lane) runs on lane threads under the simulated scheduler
	void runParallel(int lanes, void (*body)(void* ctx, int lane), void* ctx);

	// Runs f in a forked process that shares this one's state so far; shared memory is the only way results come back.
	void isolate(void (*f)(void*), void* ctx);

	// Recording
	void record(uint64_t v);
	void recordBytes(const void* p, size_t n);
	void recordState(uint64_t v);
	void count(int counter, uint64_t n = 1);
	void simTime(uint64_t ns);
	void nontrivial();
	extern Result* res;
}
