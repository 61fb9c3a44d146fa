// Simulator runtime (compiled without instrumentation).
#include "rt.h"
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <linux/futex.h>
#include <exception>
#include <initializer_list>
#include <xmmintrin.h>
#include <dlfcn.h>

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" int __real_memcmp(const void*, const void*, size_t);

namespace rt
{
Result* res = nullptr;

//---------------------------------------------------------------------------------------------------------------------
// Arena
static const uintptr_t ARENA = 0x600000000000ull;
static const size_t ARENA_SIZE = 1ull << 30;
static uint8_t* shadow = nullptr;  // per 8 bytes: 0 = nothing addressable, 1..7 = first k bytes, 8 = all
static uint32_t* blkAt = nullptr;  // per 16 bytes: block id + 1
struct Blk { uintptr_t p; size_t size; size_t room; uint8_t live; uint8_t ro; uint8_t lib; uint32_t next; };
static Blk* blks = nullptr;
static uint32_t blkCount = 0;
static const uint32_t MAX_BLK = 1u << 22;
static uintptr_t bump = ARENA;
static uint64_t live_ = 0, liveBlocks_ = 0;
static uint64_t heapRng = 1;
static HeapCfg heapCfg;
static uint32_t freeList[64]; // per size class, id + 1 (LIFO reuse mode)
static bool ready = false;
static int anyReadOnly = 0;

static inline uint64_t rnd(uint64_t& s)
{
	s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}

//---------------------------------------------------------------------------------------------------------------------
// Threads
struct Thr
{
	int id;
	int opIndex;
	uintptr_t stackLo, stackHi;
	// current operation
	uint64_t steps, nextStop, budget, allocs, nonStack;
	int faultMode; int64_t faultN; bool faultFired;
	Pre pre[MAX_PRE]; int preCount, preAt;
	int fpu; unsigned savedCsr;
	// scheduling
	int state; // 0 idle/finished, 1 runnable, 2 blocked
	int stalled;
	const void* waitOn;
	volatile int go;
	pthread_t handle;
	uint32_t vc[MAX_THREADS];
};
static Thr thr[MAX_THREADS + 1]; // 0 = main, 1.. = lanes
static __thread Thr* self_ = nullptr;
static __thread int inSut_ = 0;
static volatile int parallel = 0; // inside a parallel phase
static int laneCount = 0;
static int current = 0;

static inline Thr* self() { return self_ ? self_ : &thr[0]; }

static void futexWait(volatile int* w)
{
	while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, (int*)w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	__atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void futexWake(volatile int* w)
{
	__atomic_store_n(w, 1, __ATOMIC_RELEASE);
	syscall(SYS_futex, (int*)w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

//---------------------------------------------------------------------------------------------------------------------
// Outcome
static void appendClass(const char* cls) { snprintf(res->cls, sizeof res->cls, "%s", cls); res->opIndex = self()->opIndex; }

[[noreturn]] void violate(const char* cls, const char* fmt, ...)
{
	inSut_ = 0;
	if (res)
	{
		appendClass(cls);
		va_list ap; va_start(ap, fmt); vsnprintf(res->msg, sizeof res->msg, fmt, ap); va_end(ap);
		res->status = 2;
	}
	_exit(42);
}
[[noreturn]] void harnessError(const char* fmt, ...)
{
	inSut_ = 0;
	if (res)
	{
		appendClass("harness-error");
		va_list ap; va_start(ap, fmt); vsnprintf(res->msg, sizeof res->msg, fmt, ap); va_end(ap);
		res->status = 3;
	}
	_exit(43);
}
[[noreturn]] void finishOk() { inSut_ = 0; res->status = 1; _exit(0); }
void setOpIndex(int i) { self()->opIndex = i; res->opIndex = i; }

static inline void mix(uint64_t& h, uint64_t v)
{
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
}
void record(uint64_t v) { mix(res->hash, v); }
void recordBytes(const void* p, size_t n)
{
	const uint8_t* b = (const uint8_t*)p; uint64_t h = 1469598103934665603ull ^ n;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	record(h);
}
void recordState(uint64_t v)
{
	mix(v, 77); if (res->stateCount < MAX_STATES) res->states[res->stateCount++] = v;
}
void count(int c, uint64_t n) { __atomic_fetch_add(&res->counters[c], n, __ATOMIC_RELAXED); }
void simTime(uint64_t ns) { res->simTimeNs += ns; }
void nontrivial() { res->nontrivial = 1; }
int threadId() { return self()->id; }
uint64_t opSteps() { return self()->nonStack; }
uint64_t opAllocs() { return self()->allocs; }
bool opFaultFired() { return self()->faultFired; }

//---------------------------------------------------------------------------------------------------------------------
// Race detector: per 8-byte cell, per thread last epoch and byte masks.
struct Cell { uintptr_t key; uint32_t gen; uint32_t pad; struct { uint32_t clk; uint8_t r, w; } t[MAX_THREADS]; };
static Cell* cells = nullptr;
static const size_t CELLS = 1u << 19;
static uint32_t raceGen = 1;
static size_t cellsUsed = 0;

static Cell* findCell(uintptr_t key, bool create)
{
	size_t h = (key * 0x9E3779B97F4A7C15ull) >> 45;
	for (size_t i = 0; i < CELLS; i++)
	{
		Cell* c = &cells[(h + i) & (CELLS - 1)];
		if (c->gen == raceGen && c->key == key) return c;
		if (c->gen != raceGen)
		{
			if (!create) return nullptr;
			if (++cellsUsed > CELLS * 3 / 4) harnessError("race table full");
			__real_memset(c, 0, sizeof *c); c->gen = raceGen; c->key = key;
			return c;
		}
	}
	harnessError("race table full");
}
static void describe(uintptr_t p, char* out, size_t n)
{
	if (p >= ARENA && p < ARENA + ARENA_SIZE)
	{
		for (uintptr_t q = p & ~15ull; q >= ARENA && q + 65536 > p; q -= 16)
		{
			uint32_t id = blkAt[(q - ARENA) >> 4];
			if (id)
			{
				Blk& b = blks[id - 1];
				snprintf(out, n, "%s block #%u of %zu bytes, offset %ld", b.live ? (b.lib ? "live library" : "caller") :
					"freed", id, b.size, (long)(p - b.p));
				return;
			}
			if (q == ARENA) break;
		}
		snprintf(out, n, "unallocated heap");
	}
	else
	{
		for (int i = 0; i <= MAX_THREADS; i++)
			if (p >= thr[i].stackLo && p < thr[i].stackHi) { snprintf(out, n, "stack of thread %d", i); return; }
		Dl_info di; // symbol name if it has one
		if (dladdr((void*)p, &di) && di.dli_sname) snprintf(out, n, "static data %s", di.dli_sname);
		else snprintf(out, n, "static or other memory");
	}
}
static void raceCheck(Thr* t, uintptr_t p, size_t n, bool write)
{
	int me = t->id - 1;
	while (n)
	{
		uintptr_t key = p >> 3; unsigned off = p & 7; size_t k = 8 - off; if (k > n) k = n;
		uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
		Cell* c = findCell(key, true);
		for (int u = 0; u < laneCount; u++)
		{
			if (u == me || !c->t[u].clk || c->t[u].clk <= t->vc[u]) continue;
			uint8_t other = write ? (uint8_t)(c->t[u].r | c->t[u].w) : c->t[u].w;
			if (other & mask)
			{
				char d[160]; describe(p, d, sizeof d);
				violate("data-race", "data race: %s of %s by thread %d conflicts with earlier unsynchronised %s by thread %d",
					write ? "write" : "read", d, t->id, (c->t[u].w & mask) ? "write" : "read", u + 1);
			}
		}
		if (c->t[me].clk != t->vc[me]) { c->t[me].clk = t->vc[me]; c->t[me].r = c->t[me].w = 0; }
		if (write) c->t[me].w |= mask; else c->t[me].r |= mask;
		p += k; n -= k;
	}
}
static void raceForget(uintptr_t p, size_t n)
{
	for (uintptr_t key = p >> 3; key <= (p + n) >> 3; key++)
		if (Cell* c = findCell(key, false)) __real_memset(c->t, 0, sizeof c->t);
}

// Synchronisation objects (guards, atomics, mutexes): vector clocks
struct SyncVar { uintptr_t key; uint32_t vc[MAX_THREADS]; int owner; };
static SyncVar syncs[1024];
static int syncCount = 0;
static SyncVar* syncOf(const void* p)
{
	for (int i = 0; i < syncCount; i++) if (syncs[i].key == (uintptr_t)p) return &syncs[i];
	if (syncCount == 1024) harnessError("too many synchronisation objects");
	SyncVar* s = &syncs[syncCount++]; __real_memset(s, 0, sizeof *s); s->key = (uintptr_t)p; s->owner = -1; return s;
}
static void acquire(Thr* t, SyncVar* s)
{
	if (!parallel || !t->id) return;
	for (int i = 0; i < MAX_THREADS; i++) if (s->vc[i] > t->vc[i]) t->vc[i] = s->vc[i];
}
static void release(Thr* t, SyncVar* s)
{
	if (!parallel || !t->id) return;
	for (int i = 0; i < MAX_THREADS; i++) if (t->vc[i] > s->vc[i]) s->vc[i] = t->vc[i];
	t->vc[t->id - 1]++;
}

//---------------------------------------------------------------------------------------------------------------------
// Scheduler
static void switchTo(Thr* me, int to)
{
	current = to;
	res->counters[M_SWITCHES]++;
	mix(res->interleaving, (uint64_t)me->id * 16 + to);
	mix(res->interleaving, me->steps);
	futexWake(&thr[to].go);
	futexWait(&me->go);
}
static int pickRunnable(int notThis)
{
	for (int pass = 0; pass < 2; pass++)
		for (int i = 1; i <= laneCount; i++)
			if (i != notThis && thr[i].state == 1 && (pass || !thr[i].stalled)) return i;
	return 0;
}
static void block(Thr* t, const void* on)
{
	t->state = 2; t->waitOn = on;
	int n = pickRunnable(t->id);
	if (!n) violate("deadlock", "deadlock: thread %d waits and no other thread can run", t->id);
	switchTo(t, n);
}
static void wakeWaiters(const void* on)
{
	for (int i = 1; i <= laneCount; i++)
		if (thr[i].state == 2 && thr[i].waitOn == on) { thr[i].state = 1; thr[i].waitOn = nullptr; }
}
static void preempt(Thr* t, const Pre& p)
{
	if (!parallel || !t->id) return;
	int others[MAX_THREADS], n = 0;
	for (int i = 1; i <= laneCount; i++) if (i != t->id && thr[i].state == 1) others[n++] = i;
	if (!n) return;
	res->counters[F_PREEMPT]++;
	if (p.stall) { t->stalled = 1; res->counters[F_STALL]++; }
	int saved = inSut_; inSut_ = 0;
	switchTo(t, others[p.target % n]);
	t->stalled = 0;
	inSut_ = saved;
}

static void setNextStop(Thr* t)
{
	uint64_t s = t->budget ? t->budget : UINT64_MAX;
	if (t->preAt < t->preCount && t->pre[t->preAt].step < s) s = t->pre[t->preAt].step;
	t->nextStop = s;
}
static void __attribute__((noinline)) stop(Thr* t)
{
	if (t->budget && t->steps >= t->budget)
		violate("hang", "operation %d does not terminate: %llu memory accesses and still running", t->opIndex,
			(unsigned long long)t->steps);
	while (t->preAt < t->preCount && t->pre[t->preAt].step <= t->steps)
	{
		Pre p = t->pre[t->preAt++];
		preempt(t, p);
	}
	setNextStop(t);
}
static inline void step(Thr* t) { if (UNLIKELY(++t->steps >= t->nextStop)) stop(t); }

//---------------------------------------------------------------------------------------------------------------------
// Memory access events
static void __attribute__((noinline)) memError(uintptr_t p, size_t n, bool write, const char* what)
{
	char d[160]; describe(p, d, sizeof d);
	char cls[40]; snprintf(cls, sizeof cls, "memory-%s", write ? "write" : "read");
	violate(cls, "%s: %s of %zu bytes, %s (operation %d)", what, write ? "write" : "read", n, d, self()->opIndex);
}
static inline bool shadowOk(uintptr_t p, size_t n)
{
	while (n)
	{
		uint8_t s = shadow[(p - ARENA) >> 3]; unsigned off = p & 7; size_t k = 8 - off; if (k > n) k = n;
		if (off + k > s) return false;
		p += k; n -= k;
	}
	return true;
}
static inline void access(void* ptr, size_t n, bool write)
{
	if (LIKELY(!inSut_)) return;
	Thr* t = self_;
	uintptr_t p = (uintptr_t)ptr;
	if (p - t->stackLo < t->stackHi - t->stackLo)
	{
		// own stack: not a shared event, but counts towards the hang budget
		if (UNLIKELY(++t->nonStack > 1000000000ull)) violate("hang", "operation does not terminate");
		return;
	}
	step(t);
	if (p - ARENA < ARENA_SIZE)
	{
		if (UNLIKELY(p + n > ARENA + ARENA_SIZE || !shadowOk(p, n)))
			memError(p, n, write, "access outside live memory");
		if (UNLIKELY(write && anyReadOnly))
		{
			for (uintptr_t q = p & ~15ull; q >= ARENA; q -= 16)
			{
				uint32_t id = blkAt[(q - ARENA) >> 4];
				if (id) { if (blks[id - 1].ro) memError(p, n, write, "library wrote into a caller's input buffer"); break; }
			}
		}
	}
	else if (UNLIKELY(p < 4096)) memError(p, n, write, "null pointer access");
	if (parallel && t->id) raceCheck(t, p, n, write);
}

//---------------------------------------------------------------------------------------------------------------------
// Heap
static int sizeClass(size_t n) { int c = 0; while (((size_t)16 << c) < n && c < 40) c++; return c; }

static void poison(uintptr_t p, size_t room) { unsigned lead = p & 7; p -= lead; room += lead; __real_memset(shadow + ((p - ARENA) >> 3), 0, (room + 7) >> 3); }
static void unpoison(uintptr_t p, size_t n)
{
	unsigned lead = p & 7; // a misaligned block: its first granule counts as addressable from the granule's start
	p -= lead; n += lead;
	uint8_t* s = shadow + ((p - ARENA) >> 3);
	size_t full = n >> 3; __real_memset(s, 8, full); if (n & 7) s[full] = (uint8_t)(n & 7);
}
static void garbage(uintptr_t p, size_t n)
{
	uint64_t mode = heapCfg.garbageSeed & 7;
	if (mode == 0) { __real_memset((void*)p, 0, n); return; }
	if (mode == 1) { __real_memset((void*)p, 0xFF, n); return; }
	if (mode == 2) { __real_memset((void*)p, 0x7F, n); return; }
	if (mode == 3) { uint32_t v = 1; for (size_t i = 0; i + 4 <= n; i += 4) { __real_memcpy((void*)(p + i), &v, 4); } return; }
	if (mode == 4) return; // leave whatever was there
	uint64_t s = heapRng; uint8_t* b = (uint8_t*)p; size_t i = 0;
	for (; i + 8 <= n; i += 8) { uint64_t v = rnd(s); __real_memcpy(b + i, &v, 8); }
	for (; i < n; i++) b[i] = (uint8_t)rnd(s);
	heapRng = s;
}
static void* arenaAlloc(size_t size, size_t align, size_t misalign, bool lib)
{
	if (align < 16) align = 16;
	size_t n = size ? size : 1;
	if (n > ARENA_SIZE / 4) return nullptr;
	uint32_t id = 0;
	if (heapCfg.reuse && align == 16 && !misalign)
	{
		int c = sizeClass(n);
		if (freeList[c])
		{
			id = freeList[c]; Blk& b = blks[id - 1];
			if (b.room >= n) { freeList[c] = b.next; res->counters[F_REUSE_HEAP]++; }
			else id = 0;
		}
	}
	if (!id)
	{
		if (blkCount >= MAX_BLK) harnessError("simulated heap: too many blocks");
		size_t room = heapCfg.reuse ? ((size_t)16 << sizeClass(n)) : ((n + 15) & ~(size_t)15);
		uintptr_t p = bump + 32;
		if (heapCfg.skew) p += 16 * (rnd(heapRng) & 3);
		p = (p + align - 1) / align * align + misalign;
		if (p + room + 64 > ARENA + ARENA_SIZE) harnessError("simulated heap exhausted");
		id = ++blkCount; Blk& b = blks[id - 1];
		b.p = p; b.room = room; bump = (p + room + 15) & ~(uintptr_t)15;
		blkAt[(p - ARENA) >> 4] = id;
	}
	Blk& b = blks[id - 1];
	b.size = size; b.live = 1; b.ro = 0; b.lib = lib; b.next = 0;
	unpoison(b.p, size);
	if (parallel) raceForget(b.p, b.room);
	garbage(b.p, size);
	live_ += size; liveBlocks_++;
	return (void*)b.p;
}
static void arenaFree(void* ptr, size_t size, bool sized)
{
	uintptr_t p = (uintptr_t)ptr;
	uint32_t id = blkAt[(p - ARENA) >> 4];
	if (!id || blks[id - 1].p != p) { char d[160]; describe(p, d, sizeof d); violate("memory-free", "free of a pointer that is not the start of a block: %s", d); }
	Blk& b = blks[id - 1];
	if (!b.live) violate("memory-free", "double free of block #%u (%zu bytes)", id, b.size);
	if (sized && size != b.size) violate("memory-free", "block #%u of %zu bytes freed as %zu bytes", id, b.size, size);
	if (parallel && inSut_ && self()->id) raceCheck(self(), p, b.size ? b.size : 1, true);
	b.live = 0; live_ -= b.size; liveBlocks_--;
	if (b.ro) { b.ro = 0; anyReadOnly--; }
	poison(b.p, b.room);
	if (heapCfg.garbageSeed & 8) garbage(b.p, b.size);
	if (heapCfg.reuse && !(b.p & 15))
	{
		int c = sizeClass(b.room);
		b.next = freeList[c]; freeList[c] = id;
	}
}
void* bufAlloc(size_t size, size_t align, size_t misalign)
{
	void* p = arenaAlloc(size, align, misalign, false);
	if (!p) harnessError("buffer too large");
	return p;
}
void bufFree(void* p) { if (p) arenaFree(p, 0, false); }
uint64_t liveBytes() { return live_; }
uint64_t liveBlocks() { return liveBlocks_; }
bool inArena(const void* p) { return (uintptr_t)p - ARENA < ARENA_SIZE; }
bool addressable(const void* p, size_t n)
{
	return inArena(p) && (uintptr_t)p + n <= ARENA + ARENA_SIZE && shadowOk((uintptr_t)p, n);
}
void protectConst(const void* ptr, bool on)
{
	uint32_t id = blkAt[((uintptr_t)ptr - ARENA) >> 4];
	if (!id || blks[id - 1].p != (uintptr_t)ptr) harnessError("protectConst: not a block");
	if (blks[id - 1].ro != (on ? 1 : 0)) { blks[id - 1].ro = on; anyReadOnly += on ? 1 : -1; }
}

static void* simNew(size_t n, size_t align, bool nothrow)
{
	if (!inSut_ || !ready) 
	{
		void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
		if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
		return p;
	}
	Thr* t = self();
	step(t);
	t->allocs++;
	res->counters[M_ALLOCS]++;
	bool refuse = false;
	switch (t->faultMode)
	{
	case FM_NTH: refuse = (int64_t)t->allocs == t->faultN; if (refuse) res->counters[t->faultN > 4 ? F_ALLOC_LATE : F_ALLOC_NTH]++; break;
	case FM_FROM: refuse = (int64_t)t->allocs >= t->faultN; if (refuse) res->counters[F_ALLOC_SUSTAINED]++; break;
	case FM_SIZE: refuse = (int64_t)n >= t->faultN; if (refuse) res->counters[F_ALLOC_SIZE]++; break;
	case FM_TWO: refuse = (int64_t)t->allocs == t->faultN || (int64_t)t->allocs == t->faultN + 1; if (refuse) res->counters[F_ALLOC_NTH]++; break;
	}
	void* p = nullptr;
	if (!refuse)
	{
		p = arenaAlloc(n, align, 0, true);
		if (!p) violate("huge-allocation", "operation %d asks for %zu bytes", t->opIndex, n);
	}
	else t->faultFired = true;
	mix(res->hash, n * 2 + refuse);
	if (!p)
	{
		if (nothrow) return nullptr;
		// the exception object is not the library's memory
		int saved = inSut_; inSut_ = 0;
		struct Restore { int s; ~Restore() { inSut_ = s; } } r{saved};
		throw std::bad_alloc();
	}
	return p;
}
static void simDelete(void* p, size_t size, bool sized)
{
	if (!p) return;
	if (inArena(p)) { if (inSut_) step(self()); arenaFree(p, size, sized); return; }
	free(p);
}

//---------------------------------------------------------------------------------------------------------------------
// Process set-up
static void onSignal(int sig)
{
	const char* n = sig == SIGSEGV ? "SEGV" : sig == SIGABRT ? "ABRT" : sig == SIGFPE ? "FPE" : sig == SIGILL ? "ILL" :
		sig == SIGBUS ? "BUS" : "?";
	if (sig == SIGVTALRM || sig == SIGPROF)
	{
		if (inSut_) violate("hang", "operation %d does not terminate (processor time limit)", self()->opIndex);
		harnessError("harness used up its processor time (operation %d)", self()->opIndex);
	}
	if (sig == SIGALRM) harnessError("wall clock limit (operation %d)", self()->opIndex);
	char cls[40]; snprintf(cls, sizeof cls, "crash-%s", n);
	if (inSut_ || sig == SIGABRT) violate(cls, "library code died with signal %s in operation %d", n, self()->opIndex);
	harnessError("harness died with signal %s (operation %d)", n, self()->opIndex);
}
static void onTerminate()
{
	const char* what = "no active exception";
	if (std::current_exception())
	{
		try { throw; }
		catch (const std::bad_alloc&) { what = "std::bad_alloc"; }
		catch (const std::exception& e) { what = e.what(); }
		catch (...) { what = "unknown exception"; }
	}
	violate("terminate", "std::terminate called in operation %d: %s", self()->opIndex, what);
}
static unsigned cpuLimit = 0;
static void armTimers()
{
	struct itimerval iv; __real_memset(&iv, 0, sizeof iv); iv.it_value.tv_sec = cpuLimit; setitimer(ITIMER_VIRTUAL, &iv, nullptr);
	iv.it_value.tv_sec = cpuLimit * 20; setitimer(ITIMER_REAL, &iv, nullptr);
}
void isolate(void (*f)(void*), void* ctx)
{
	uint64_t counters[NCOUNTERS]; __real_memcpy(counters, res->counters, sizeof counters);
	uint64_t hash = res->hash; int nt = res->nontrivial; int parent = getpid();
	pid_t pid = fork();
	if (pid < 0) harnessError("fork failed: %d", errno);
	if (!pid)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(44);
		armTimers();
		f(ctx);
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
	{
		if (res->status == 2) _exit(42);
		if (res->status == 3) _exit(43);
		violate("crash-exit", "a call ended the process (operation %d, wait status %x)", self()->opIndex, st);
	}
	__real_memcpy(res->counters, counters, sizeof counters); res->hash = hash; res->nontrivial = nt;
}
void childInit(Result* r, const HeapCfg& h, unsigned cpuSeconds)
{
	res = r; heapCfg = h; heapRng = h.garbageSeed | 1;
	auto map = [](uintptr_t at, size_t n) -> void* {
		void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
		if (p == MAP_FAILED) harnessError("mmap failed: %d", errno);
		return p; };
	map(ARENA, ARENA_SIZE);
	shadow = (uint8_t*)map(0x610000000000ull, ARENA_SIZE >> 3);
	blkAt = (uint32_t*)map(0x620000000000ull, (ARENA_SIZE >> 4) * 4);
	blks = (Blk*)map(0x630000000000ull, sizeof(Blk) * (size_t)MAX_BLK);
	cells = (Cell*)map(0x640000000000ull, sizeof(Cell) * CELLS);
	for (int i = 0; i <= MAX_THREADS; i++) thr[i].id = i;
	self_ = &thr[0];
	pthread_attr_t a; void* lo; size_t sz;
	pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a);
	thr[0].stackLo = (uintptr_t)lo; thr[0].stackHi = (uintptr_t)lo + sz;
	static char alt[65536];
	stack_t ss; __real_memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa; __real_memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK;
	for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGVTALRM, SIGALRM}) sigaction(s, &sa, nullptr);
	std::set_terminate(onTerminate);
	cpuLimit = cpuSeconds; armTimers();
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	ready = true;
}

//---------------------------------------------------------------------------------------------------------------------
// Operations
static unsigned csrFor(int fpu)
{
	unsigned c = 0x1F80;
	switch (fpu)
	{
	case FPU_FTZ_DAZ: return c | 0x8040;
	case FPU_FTZ: return c | 0x8000;
	case FPU_UP: return c | 0x4000;
	case FPU_DOWN: return c | 0x2000;
	case FPU_ZERO: return c | 0x6000;
	}
	return c;
}
void opBegin(const OpCtl& c)
{
	Thr* t = self();
	t->steps = t->allocs = t->nonStack = 0; t->faultFired = false;
	t->faultMode = c.faultMode; t->faultN = c.faultN; t->budget = c.budget;
	t->preCount = c.preCount > MAX_PRE ? MAX_PRE : c.preCount; t->preAt = 0;
	for (int i = 0; i < t->preCount; i++) t->pre[i] = c.pre[i];
	setNextStop(t);
	t->fpu = c.fpu;
	res->counters[M_OPS]++;
	if (c.fpu) res->counters[F_FPU_MODE]++;
	t->savedCsr = _mm_getcsr();
	_mm_setcsr(csrFor(c.fpu));
	inSut_ = 1;
}
void opEnd()
{
	inSut_ = 0;
	Thr* t = self();
	unsigned c = _mm_getcsr();
	if ((c & 0xFFC0) != (csrFor(t->fpu) & 0xFFC0))
		violate("fpu-state", "operation %d left the floating-point control state changed (%04x, was %04x)", self()->opIndex, c, csrFor(t->fpu));
	_mm_setcsr(t->savedCsr);
	t->faultMode = 0; t->preCount = t->preAt = 0; t->budget = 0; setNextStop(t);
	res->counters[M_STEPS] += t->steps;
	mix(res->hash, t->steps); mix(res->hash, t->allocs);
}
Outside::Outside() noexcept : saved(inSut_) { inSut_ = 0; }
Outside::~Outside() { inSut_ = saved; }
Inside::Inside() noexcept : saved(inSut_) { inSut_ = 1; }
Inside::~Inside() { inSut_ = saved; }

//---------------------------------------------------------------------------------------------------------------------
// Parallel phases
static void (*parBody)(void*, int);
static void* parCtx;
static volatile int mainGo = 0;
static void* laneMain(void* arg)
{
	Thr* t = (Thr*)arg; self_ = t; inSut_ = 0;
	static __thread char alt[32768];
	stack_t ss; __real_memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	futexWait(&t->go);
	parBody(parCtx, t->id - 1);
	t->state = 0;
	int n = pickRunnable(t->id);
	if (n) { current = n; futexWake(&thr[n].go); }
	else
	{
		for (int i = 1; i <= laneCount; i++)
			if (thr[i].state == 2) violate("deadlock", "deadlock: thread %d waits for ever", i);
		futexWake(&mainGo);
	}
	return nullptr;
}
void runParallel(int lanes, void (*body)(void*, int), void* ctx)
{
	if (lanes > MAX_THREADS) lanes = MAX_THREADS;
	if (lanes < 1) return;
	res->counters[M_PARALLEL]++;
	parBody = body; parCtx = ctx; laneCount = lanes;
	raceGen++; cellsUsed = 0; 
	for (int i = 0; i < syncCount; i++) __real_memset(syncs[i].vc, 0, sizeof syncs[i].vc);
	static const size_t STK = 1 << 20;
	for (int i = 1; i <= lanes; i++)
	{
		Thr* t = &thr[i];
		t->go = 0; t->state = 1; t->stalled = 0; t->waitOn = nullptr;
		__real_memset(t->vc, 0, sizeof t->vc);
		t->vc[i - 1] = 1;
		uintptr_t at = 0x650000000000ull + (uintptr_t)i * 0x1000000;
		if (!t->stackLo)
		{
			void* s = mmap((void*)at, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
			if (s == MAP_FAILED) harnessError("stack mmap failed");
			t->stackLo = at; t->stackHi = at + STK;
		}
		pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, (void*)t->stackLo, STK);
		if (pthread_create(&t->handle, &a, laneMain, t)) harnessError("pthread_create failed");
		pthread_attr_destroy(&a);
	}
	mainGo = 0;
	sigset_t ss, old; sigemptyset(&ss); sigaddset(&ss, SIGVTALRM); sigaddset(&ss, SIGALRM);
	pthread_sigmask(SIG_BLOCK, &ss, &old);
	parallel = 1;
	current = 1;
	futexWake(&thr[1].go);
	futexWait(&mainGo);
	parallel = 0;
	pthread_sigmask(SIG_SETMASK, &old, nullptr);
	for (int i = 1; i <= lanes; i++) pthread_join(thr[i].handle, nullptr);
	laneCount = 0;
}
} // namespace rt

using namespace rt;

//---------------------------------------------------------------------------------------------------------------------
// Instrumentation entry points
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
#define RW(n) \
	void __tsan_read##n(void* p) { access(p, n, false); } \
	void __tsan_write##n(void* p) { access(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
	void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
	void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } \
	void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { if (n) access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }

#define ATOMIC_ENTER(p) Thr* t = self(); if (inSut_) step(t); SyncVar* s = inSut_ ? syncOf((const void*)(p)) : nullptr
#define ATOMIC(n, T) \
	T __tsan_atomic##n##_load(const volatile T* p, int) { ATOMIC_ENTER(p); if (s) acquire(t, s); return *p; } \
	void __tsan_atomic##n##_store(volatile T* p, T v, int) { ATOMIC_ENTER(p); if (s) release(t, s); *p = v; } \
	T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { ATOMIC_ENTER(p); if (s) { acquire(t, s); release(t, s); } T o = *p; *p = v; return o; } \
	T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { ATOMIC_ENTER(p); if (s) { acquire(t, s); release(t, s); } T o = *p; *p = o + v; return o; } \
	T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { ATOMIC_ENTER(p); if (s) { acquire(t, s); release(t, s); } T o = *p; *p = o - v; return o; } \
	T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { ATOMIC_ENTER(p); if (s) { acquire(t, s); release(t, s); } T o = *p; *p = o & v; return o; } \
	T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { ATOMIC_ENTER(p); if (s) { acquire(t, s); release(t, s); } T o = *p; *p = o | v; return o; } \
	T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { ATOMIC_ENTER(p); if (s) { acquire(t, s); release(t, s); } T o = *p; *p = o ^ v; return o; } \
	T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int) { ATOMIC_ENTER(p); if (s) { acquire(t, s); release(t, s); } T o = *p; *p = ~(o & v); return o; } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { ATOMIC_ENTER(p); if (s) { acquire(t, s); release(t, s); } if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { ATOMIC_ENTER(p); if (s) { acquire(t, s); release(t, s); } if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) { ATOMIC_ENTER(p); if (s) { acquire(t, s); release(t, s); } T o = *p; if (o == e) *p = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) access(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (n) { access((void*)a, n, false); access((void*)b, n, false); } return __real_memcmp(a, b, n); }

// Function-local statics
int __cxa_guard_acquire(uint64_t* g)
{
	uint8_t* done = (uint8_t*)g;
	Thr* t = self();
	int saved = inSut_; inSut_ = 0;
	if (saved) step(t);
	if (!res) { inSut_ = saved; return !*done; }
	SyncVar* s = syncOf(g);
	while (!*done && s->owner >= 0)
	{
		if (s->owner == t->id) violate("crash-recursive-init", "recursive initialisation of a function-local static");
		res->counters[F_GUARD_BLOCK]++;
		block(t, g);
	}
	if (*done) { acquire(t, s); inSut_ = saved; return 0; }
	s->owner = t->id; acquire(t, s);
	inSut_ = saved; 
	return 1;
}
void __cxa_guard_release(uint64_t* g)
{
	Thr* t = self();
	int saved = inSut_; inSut_ = 0;
	if (saved) step(t);
	*(uint8_t*)g = 1;
	if (res) { SyncVar* s = syncOf(g); s->owner = -1; release(t, s); wakeWaiters(g); }
	inSut_ = saved;
}
void __cxa_guard_abort(uint64_t* g)
{
	Thr* t = self();
	int saved = inSut_; inSut_ = 0;
	if (res) { SyncVar* s = syncOf(g); s->owner = -1; release(t, s); wakeWaiters(g); }
	inSut_ = saved;
}

// Mutexes used by library code inside a parallel phase
#define REAL(name, T) typedef int (*F)(T*); static F real = nullptr; if (!real) real = (F)dlsym(RTLD_NEXT, name)
static int simLock(void* m, bool tryOnly)
{
	Thr* t = self();
	int saved = inSut_; inSut_ = 0;
	step(t);
	SyncVar* s = syncOf(m);
	while (s->owner >= 0)
	{
		if (tryOnly) { inSut_ = saved; return EBUSY; }
		if (s->owner == t->id) violate("deadlock", "thread %d locks a mutex it already holds", t->id);
		block(t, m);
	}
	s->owner = t->id; acquire(t, s);
	inSut_ = saved;
	return 0;
}
static int simUnlock(void* m)
{
	Thr* t = self();
	int saved = inSut_; inSut_ = 0;
	SyncVar* s = syncOf(m);
	s->owner = -1; release(t, s); wakeWaiters(m);
	step(t);
	inSut_ = saved;
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
	if (inSut_ && parallel) return simLock(m, false);
	REAL("pthread_mutex_lock", pthread_mutex_t); return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (inSut_ && parallel) return simLock(m, true);
	REAL("pthread_mutex_trylock", pthread_mutex_t); return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (inSut_ && parallel) return simUnlock(m);
	REAL("pthread_mutex_unlock", pthread_mutex_t); return real(m);
}
// A reader-writer lock is simulated as exclusive: fewer interleavings, never a false report.
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (inSut_ && parallel) return simLock(m, false); REAL("pthread_rwlock_rdlock", pthread_rwlock_t); return real(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (inSut_ && parallel) return simLock(m, false); REAL("pthread_rwlock_wrlock", pthread_rwlock_t); return real(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (inSut_ && parallel) return simUnlock(m); REAL("pthread_rwlock_unlock", pthread_rwlock_t); return real(m); }
} // extern "C"

// std::call_once goes through pthread_once with a libstdc++ trampoline that keeps its state in thread-locals of the
// library; replacing pthread_once keeps it under the simulated scheduler.
extern "C" int pthread_once(pthread_once_t* o, void (*fn)(void))
{
	if (!(inSut_ && parallel))
	{
		typedef int (*F)(pthread_once_t*, void (*)(void));
		static F real = nullptr; if (!real) real = (F)dlsym(RTLD_NEXT, "pthread_once");
		return real(o, fn);
	}
	Thr* t = self();
	int saved = inSut_; inSut_ = 0;
	SyncVar* s = syncOf(o);
	while (*(volatile int*)o != 2 && s->owner >= 0) block(t, o);
	if (*(volatile int*)o == 2) { acquire(t, s); inSut_ = saved; return 0; }
	s->owner = t->id; inSut_ = saved;
	try { fn(); }
	catch (...) { inSut_ = 0; s->owner = -1; release(t, s); wakeWaiters(o); inSut_ = saved; throw; }
	inSut_ = 0; *(volatile int*)o = 2; s->owner = -1; release(t, s); wakeWaiters(o); inSut_ = saved;
	return 0;
}

void* operator new(size_t n) { return simNew(n, 16, false); }
void* operator new[](size_t n) { return simNew(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simNew(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simNew(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return simNew(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return simNew(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return simNew(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return simNew(n, (size_t)a, true); }
void operator delete(void* p) noexcept { simDelete(p, 0, false); }
void operator delete[](void* p) noexcept { simDelete(p, 0, false); }
void operator delete(void* p, size_t n) noexcept { simDelete(p, n, true); }
void operator delete[](void* p, size_t n) noexcept { simDelete(p, n, true); }
void operator delete(void* p, std::align_val_t) noexcept { simDelete(p, 0, false); }
void operator delete[](void* p, std::align_val_t) noexcept { simDelete(p, 0, false); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { simDelete(p, n, true); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { simDelete(p, n, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simDelete(p, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simDelete(p, 0, false); }
