// Seeded search over plans, minimisation, replay. Uninstrumented.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <string>
#include <vector>
#include <algorithm>
#include <sstream>
#include <fstream>

using namespace sim;
using rt::Result;

static const char* counterNames[] = {
	"alloc_fail_nth", "alloc_fail_sustained", "alloc_fail_by_size", "alloc_fail_late", "callback_exception", "preemption",
	"thread_stall", "fpu_mode", "clock_jitter", "clock_stall", "clock_burst", "clock_zero_frame", "text_corruption",
	"heap_reuse", "static_init_contention", "stack_cursor_shift",
	"ops", "allocations", "memory_accesses", "context_switches", "parallel_phases", "oracle_checks" };

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
uint64_t sim::hashStr(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; s++) { h ^= (uint8_t)*s; h *= 1099511628211ull; } return h; }

//---------------------------------------------------------------------------------------------------------------------
static std::string planText(const Plan& p)
{
	std::ostringstream o;
	o << "scenario " << p.scenario << "\nproperty " << p.property << "\nseed " << p.seed << "\n";
	for (auto& k : p.knobs) o << "knob " << k.first << " " << k.second << "\n";
	for (auto& op : p.ops)
	{
		o << "op lane=" << op.lane << " kind=" << op.kind << " seed=" << op.seed << " args=";
		for (int i = 0; i < NARGS; i++) o << (i ? "," : "") << op.a[i];
		if (op.fmode) o << " fault=" << op.fmode << "," << op.fn;
		if (op.fpu) o << " fpu=" << op.fpu;
		for (auto& pr : op.pre) o << " pre=" << pr.step << "," << (int)pr.target << "," << (int)pr.stall;
		o << " # " << scenario.opName(op.kind) << "\n";
	}
	return o.str();
}
static bool parsePlan(const std::string& text, Plan& p)
{
	std::istringstream in(text); std::string line;
	while (std::getline(in, line))
	{
		auto hash = line.find('#'); if (hash != std::string::npos) line.resize(hash);
		std::istringstream l(line); std::string w; if (!(l >> w)) continue;
		if (w == "scenario") l >> p.scenario;
		else if (w == "property") l >> p.property;
		else if (w == "seed") l >> p.seed;
		else if (w == "knob") { std::string k; int64_t v; l >> k >> v; p.knobs[k] = v; }
		else if (w == "op")
		{
			Op op; std::string f;
			while (l >> f)
			{
				auto eq = f.find('='); if (eq == std::string::npos) return false;
				auto k = f.substr(0, eq), v = f.substr(eq + 1);
				if (k == "lane") op.lane = atoi(v.c_str());
				else if (k == "kind") op.kind = atoi(v.c_str());
				else if (k == "seed") op.seed = strtoull(v.c_str(), nullptr, 10);
				else if (k == "fpu") op.fpu = atoi(v.c_str());
				else if (k == "args") { const char* c = v.c_str(); char* e; for (int i = 0; i < NARGS && *c; i++) { op.a[i] = strtoll(c, &e, 10); c = *e ? e + 1 : e; } }
				else if (k == "fault") { long long n; sscanf(v.c_str(), "%d,%lld", &op.fmode, &n); op.fn = n; }
				else if (k == "pre") { unsigned s; int t, st; sscanf(v.c_str(), "%u,%d,%d", &s, &t, &st); op.pre.push_back({s, (uint8_t)t, (uint8_t)st}); }
			}
			p.ops.push_back(op);
		}
	}
	return p.scenario == scenario.name;
}
static Plan makePlan(const char* prop, uint64_t seed, uint64_t index)
{
	Plan p; p.scenario = scenario.name; p.property = prop;
	p.seed = seed * 1000003ull + index * 7919ull + hashStr(prop) % 1000000007ull;
	Rng r(p.seed); scenario.gen(p, r);
	return p;
}

//---------------------------------------------------------------------------------------------------------------------
static void runChild(const Plan& p, Result* r)
{
	memset(r, 0, sizeof *r);
	pid_t parent = getpid();
	pid_t pid = fork();
	if (pid < 0) { r->status = 3; snprintf(r->msg, sizeof r->msg, "fork failed: %d", errno); return; }
	if (!pid)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(44);
		if (!getenv("SIM_VERBOSE")) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2); }
		rt::HeapCfg h{(int)p.knob("heap_reuse"), (int)p.knob("heap_skew"), (uint64_t)p.knob("heap_garbage")};
		rt::childInit(r, h, scenario.cpuSeconds);
		scenario.exec(p);
		rt::finishOk();
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (r->status == 0)
	{
		if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL)
		{
			r->status = 2; snprintf(r->cls, sizeof r->cls, "crash-signal-%d", WTERMSIG(st));
			snprintf(r->msg, sizeof r->msg, "run died with signal %d in operation %d", WTERMSIG(st), r->opIndex);
		}
		else if (WIFEXITED(st) && WEXITSTATUS(st) == 45)
		{
			r->status = 3; snprintf(r->cls, sizeof r->cls, "exit"); snprintf(r->msg, sizeof r->msg, "child exited");
		}
		else if (WIFEXITED(st))
		{
			r->status = 2; snprintf(r->cls, sizeof r->cls, "crash-exit");
			snprintf(r->msg, sizeof r->msg, "library code ended the process with exit status %d in operation %d", WEXITSTATUS(st), r->opIndex);
		}
		else { r->status = 3; snprintf(r->msg, sizeof r->msg, "child killed (out of memory?)"); }
	}
}

//---------------------------------------------------------------------------------------------------------------------
// A failing plan counts as "the same failure" when its class matches.
static bool sameFailure(const Result& r, const std::string& cls) { return r.status == 2 && cls == r.cls; }

struct Minimizer
{
	Result* r; std::string cls; double deadline; int execs = 0; int maxExecs;
	bool fails(const Plan& p)
	{
		if (now() > deadline || execs >= maxExecs) return false;
		execs++; runChild(p, r); return sameFailure(*r, cls);
	}
	bool out() { return now() > deadline || execs >= maxExecs; }
	bool dropOps(Plan& p)
	{
		bool any = false;
		for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2);; chunk /= 2)
		{
			for (size_t i = 0; i < p.ops.size() && !out();)
			{
				Plan q = p; size_t n = std::min(chunk, q.ops.size() - i);
				q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + n);
				if (!q.ops.empty() && fails(q)) { p = q; any = true; } else i += n;
			}
			if (chunk <= 1) break;
		}
		return any;
	}
	bool simplify(Plan& p)
	{
		bool any = false;
		for (size_t i = 0; i < p.ops.size() && !out(); i++)
		{
			auto attempt = [&](auto change) { Plan q = p; change(q.ops[i]); if (fails(q)) { p = q; any = true; return true; } return false; };
			if (p.ops[i].fmode) attempt([](Op& o) { o.fmode = 0; o.fn = 0; });
			if (p.ops[i].fmode && p.ops[i].fmode != rt::FM_NTH) attempt([](Op& o) { o.fmode = rt::FM_NTH; o.fn = 1; });
			if (p.ops[i].fpu) attempt([](Op& o) { o.fpu = 0; });
			if (!p.ops[i].pre.empty()) attempt([](Op& o) { o.pre.clear(); });
			for (size_t k = 0; k < p.ops[i].pre.size();)
				if (!attempt([k](Op& o) { o.pre.erase(o.pre.begin() + k); })) k++;
			for (size_t k = 0; k < p.ops[i].pre.size(); k++)
				if (p.ops[i].pre[k].stall) attempt([k](Op& o) { o.pre[k].stall = 0; });
			for (int k = 0; k < NARGS; k++)
			{
				if (p.ops[i].a[k] == 0) continue;
				if (attempt([k](Op& o) { o.a[k] = 0; })) continue;
				for (int g = 0; g < 12 && !out(); g++)
				{
					int64_t v = p.ops[i].a[k];
					if (v / 2 != v && v / 2 != 0 && attempt([k, v](Op& o) { o.a[k] = v / 2; })) continue;
					if (v > 0 && attempt([k, v](Op& o) { o.a[k] = v - 1; })) continue;
					break;
				}
			}
		}
		auto keys = p.knobs;
		for (auto& kv : keys)
			if (kv.second && !out()) { Plan q = p; q.knobs[kv.first] = 0; if (fails(q)) { p = q; any = true; } }
		return any;
	}
	Plan run(Plan p)
	{
		for (int pass = 0; pass < 6 && !out(); pass++)
		{
			bool a = dropOps(p), b = simplify(p);
			if (!a && !b) break;
		}
		return p;
	}
};

//---------------------------------------------------------------------------------------------------------------------
struct Shared
{
	volatile uint64_t best;        // lowest violating index
	volatile int stop;
	uint64_t runs, nontrivialDistinct, distinctRuns, distinctInter, distinctStates, audits, auditMismatch, errors, simTimeNs, planBytes;
	uint64_t known[32];
	uint64_t counters[rt::NCOUNTERS];
	uint64_t runsWith[rt::NCOUNTERS];
	char errMsg[1700]; uint64_t errIndex;
	char auditMsg[400];
	Result res[64];
	Result bestRes[64];
};
static Shared* sh;
static uint64_t* sets[4];
static const size_t SETN = 1u << 22;
static uint64_t* shmap(size_t n) { return (uint64_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static bool insert(uint64_t* set, uint64_t h)
{
	if (!h) h = 1;
	for (size_t i = 0; i < 64; i++)
	{
		uint64_t* s = &set[(h + i * i) & (SETN - 1)];
		uint64_t cur = __atomic_load_n(s, __ATOMIC_RELAXED);
		if (cur == h) return false;
		if (!cur)
		{
			uint64_t e = 0;
			if (__atomic_compare_exchange_n(s, &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
			if (e == h) return false;
		}
	}
	return false;
}
static void add(uint64_t& v, uint64_t n) { __atomic_fetch_add(&v, n, __ATOMIC_RELAXED); }

static std::vector<std::pair<std::string, std::string>> known; // class, message substring

static int knownIndex(const Result& r)
{
	for (size_t i = 0; i < known.size(); i++)
		if (known[i].first == r.cls && strstr(r.msg, known[i].second.c_str())) return (int)i;
	return -1;
}

static void worker(int w, int workers, const char* prop, uint64_t seed, uint64_t first, uint64_t runs, double deadline, uint64_t auditEvery)
{
	Result* r = &sh->res[w];
	for (uint64_t i = first + (uint64_t)w; i < first + runs; i += workers)
	{
		if (now() > deadline) break;
		if (i > sh->best) break;
		Plan p = makePlan(prop, seed, i);
		runChild(p, r);
		if (r->status == 3)
		{
			add(sh->errors, 1);
			if (!sh->errMsg[0]) { snprintf(sh->errMsg, sizeof sh->errMsg, "%s", r->msg); sh->errIndex = i; }
			continue;
		}
		if (r->status == 2)
		{
			int k = knownIndex(*r);
			if (k >= 0) { add(sh->known[k], 1); add(sh->runs, 1); continue; }
			uint64_t b = sh->best;
			while (i < b && !__atomic_compare_exchange_n(&sh->best, &b, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
			break;
		}
		uint64_t h = r->hash, inter = r->interleaving; int nt = r->nontrivial;
		add(sh->runs, 1); add(sh->simTimeNs, r->simTimeNs);
		if (insert(sets[0], h)) { add(sh->distinctRuns, 1); if (nt) add(sh->nontrivialDistinct, 1); }
		if (inter && insert(sets[1], inter)) add(sh->distinctInter, 1);
		for (uint32_t s = 0; s < r->stateCount; s++) if (insert(sets[2], r->states[s])) add(sh->distinctStates, 1);
		for (int c = 0; c < rt::NCOUNTERS; c++) if (r->counters[c]) { add(sh->counters[c], r->counters[c]); add(sh->runsWith[c], 1); }
		if (auditEvery && i % auditEvery == 0)
		{
			runChild(p, r); add(sh->audits, 1);
			if (r->hash != h || r->interleaving != inter || r->status != 1)
			{
				add(sh->auditMismatch, 1);
				snprintf(sh->auditMsg, sizeof sh->auditMsg, "run %llu not repeatable", (unsigned long long)i);
			}
		}
	}
	_exit(0);
}

static std::string jsonStr(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}
static std::string readFile(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }

// Replays in a fresh process: the file must reproduce the recorded class.
static bool freshReplay(const char* exe, const std::string& file, const std::string& cls, uint64_t hash)
{
	int fd[2]; if (pipe(fd)) return false;
	pid_t pid = fork();
	if (!pid) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); execl(exe, exe, "replay", file.c_str(), (char*)nullptr); _exit(127); }
	close(fd[1]); std::string out; char b[4096]; ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n);
	close(fd[0]); int st; waitpid(pid, &st, 0);
	char h[32]; snprintf(h, sizeof h, "hash %016llx", (unsigned long long)hash);
	return WIFEXITED(st) && WEXITSTATUS(st) == 1 && out.find("class " + cls + "\n") != std::string::npos && out.find(h) != std::string::npos;
}

int main(int argc, char** argv)
{
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC"))
	{
		if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
	}
	// glibc picks string functions by CPU; nothing else in the environment reaches the code under test
	char exe[4096]; ssize_t el = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[el > 0 ? el : 0] = 0;
	std::string cmd = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> opt; std::vector<std::string> pos;
	for (int i = 2; i < argc; i++)
	{
		std::string a = argv[i];
		if (a == "--known" && i + 2 < argc) { known.push_back({argv[i + 1], argv[i + 2]}); i += 2; }
		else if (a.rfind("--", 0) == 0 && i + 1 < argc) opt[a.substr(2)] = argv[++i];
		else pos.push_back(a);
	}
	auto num = [&](const char* k, uint64_t d) { return opt.count(k) ? strtoull(opt[k].c_str(), nullptr, 10) : d; };
	sh = (Shared*)shmap(sizeof(Shared)); sh->best = UINT64_MAX;
	for (auto& s : sets) s = shmap(SETN * 8);
	std::string prop = opt.count("property") ? opt["property"] : "";

	if (cmd == "gen") { fputs(planText(makePlan(prop.c_str(), num("seed", 1), num("index", 0))).c_str(), stdout); return 0; }
	if (cmd == "replay")
	{
		Plan p; if (pos.empty() || !parsePlan(readFile(pos[0]), p)) { fprintf(stderr, "cannot read plan\n"); return 2; }
		runChild(p, &sh->res[0]); Result& r = sh->res[0];
		printf("status %d\nclass %s\nhash %016llx\nop %d\n%s\n", r.status, r.cls, (unsigned long long)r.hash, r.opIndex, r.msg);
		if (opt.count("counters"))
			for (int c = 0; c < rt::NCOUNTERS; c++) if (r.counters[c])
				printf("%s %llu\n", c < rt::P_FIRST ? counterNames[c] : c - rt::P_FIRST < (int)scenario.probes.size() ? scenario.probes[c - rt::P_FIRST] : "?", (unsigned long long)r.counters[c]);
		return r.status == 1 ? 0 : r.status == 2 ? 1 : 2;
	}
	if (cmd == "hashes") // one line per run, to compare across processes and worker counts
	{
		for (uint64_t i = num("first", 0); i < num("first", 0) + num("runs", 100); i++)
		{
			runChild(makePlan(prop.c_str(), num("seed", 1), i), &sh->res[0]);
			Result& r = sh->res[0];
			printf("%llu %d %016llx %016llx %s\n", (unsigned long long)i, r.status, (unsigned long long)r.hash, (unsigned long long)r.interleaving, r.cls);
		}
		return 0;
	}
	if (cmd == "stats") // run each plan, print violations by class, never stop
	{
		std::map<std::string, std::pair<int, uint64_t>> cl; double t0 = now();
		for (uint64_t i = num("first", 0); i < num("first", 0) + num("runs", 100); i++)
		{
			runChild(makePlan(prop.c_str(), num("seed", 1), i), &sh->res[0]); Result& r = sh->res[0];
			std::string k = r.status == 1 ? "ok" : std::string(r.status == 3 ? "ERR " : "") + r.cls + " | " + std::string(r.msg).substr(0, 150);
			if (!opt.count("full")) { std::string t; for (char c : k) { if (c >= '0' && c <= '9') { if (t.empty() || t.back() != 'N') t += 'N'; } else t += c; } k = t; }
			auto& e = cl[k]; if (!e.first++) e.second = i;
		}
		for (auto& e : cl) printf("%6d first=%llu %s\n", e.second.first, (unsigned long long)e.second.second, e.first.c_str());
		printf("%.1f s\n", now() - t0); return 0;
	}
	if (cmd != "search") { fprintf(stderr, "usage: search|replay|gen|hashes|stats\n"); return 2; }

	uint64_t seed = num("seed", 1), runs = num("runs", 1000), first = num("first", 0), auditEvery = num("audit", 50);
	int workers = (int)num("workers", 8); if (workers > 64) workers = 64;
	double t0 = now(), deadline = t0 + (double)num("seconds", 60);
	printf("search scenario=%s property=%s seed=%llu runs=%llu workers=%d\n", scenario.name, prop.c_str(), (unsigned long long)seed, (unsigned long long)runs, workers);
	fflush(stdout);
	std::vector<pid_t> pids;
	for (int w = 0; w < workers; w++)
	{
		pid_t p = fork();
		if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(w, workers, prop.c_str(), seed, first, runs, deadline, auditEvery); }
		pids.push_back(p);
	}
	for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
	double wall = now() - t0;

	int rc = 0; std::string replay, vcls, vmsg; uint64_t vindex = 0; int minExecs = 0; size_t opsBefore = 0, opsAfter = 0;
	if (sh->best != UINT64_MAX)
	{
		// Gate: same plan twice with the same events, then minimise, then reproduce from the file in a fresh process.
		Result* r = &sh->res[0];
		vindex = sh->best; Plan p = makePlan(prop.c_str(), seed, vindex);
		runChild(p, r); Result r1 = *r; runChild(p, r);
		bool gate = r1.status == 2 && r->status == 2 && !strcmp(r1.cls, r->cls) && r1.hash == r->hash;
		vcls = r1.cls; vmsg = r1.msg; opsBefore = p.ops.size();
		Plan m = p;
		if (r1.status == 2)
		{
			Minimizer mz{r, vcls, now() + (double)num("minseconds", 60), 0, (int)num("minexecs", 4000)};
			m = mz.run(p); minExecs = mz.execs;
		}
		mkdir(opt["replaydir"].c_str(), 0777);
		replay = opt["replaydir"] + "/" + prop + "-" + (opt.count("config") ? opt["config"] : "x") + "-" + std::to_string(seed) + ".plan";
		bool ok = false;
		for (int attempt = 0; attempt < 2 && !ok; attempt++)
		{
			Plan& q = attempt ? p : m;
			runChild(q, r);
			if (r->status == 2)
			{
				std::ofstream f(replay);
				f << "# " << prop << " violated: " << r->cls << "\n# ";
				for (const char* c = r->msg; *c; c++) { f << *c; if (*c == '\n') f << "# "; }
				f << "\n# found by seed " << seed << " run " << vindex << " (" << opsBefore << " operations, minimised to " << q.ops.size() << ")\n";
				f << "# config " << opt["config"] << "\n" << planText(q);
				f.close();
				uint64_t h = r->hash; std::string c = r->cls; vmsg = r->msg;
				ok = freshReplay(exe, replay, c, h); vcls = c; opsAfter = q.ops.size();
			}
		}
		if (ok && !gate) fprintf(stderr, "note: first two executions differed in their event log; the minimised plan replays exactly\n");
		if (!ok) { fprintf(stderr, "violation %s (run %llu) does not replay: %s\n", vcls.c_str(), (unsigned long long)vindex, vmsg.c_str()); rc = 2; }
		else rc = 1;
	}
	else if (sh->errors) { fprintf(stderr, "harness error in run %llu: %s\n", (unsigned long long)sh->errIndex, sh->errMsg); rc = 2; }
	else if (sh->auditMismatch) { fprintf(stderr, "determinism audit failed: %s\n", sh->auditMsg); rc = 2; }

	if (opt.count("out"))
	{
		std::ofstream f(opt["out"]);
		f << "{\n\"scenario\":" << jsonStr(scenario.name) << ",\"property\":" << jsonStr(prop) << ",\"config\":" << jsonStr(opt["config"])
			<< ",\"seed\":" << seed << ",\"wall_s\":" << wall << ",\"total_s\":" << now() - t0 << ",\"runs\":" << sh->runs
			<< ",\"distinct_runs\":" << sh->distinctRuns << ",\"distinct_nontrivial\":" << sh->nontrivialDistinct
			<< ",\"distinct_interleavings\":" << sh->distinctInter << ",\"distinct_states\":" << sh->distinctStates
			<< ",\"audits\":" << sh->audits << ",\"audit_mismatch\":" << sh->auditMismatch << ",\"errors\":" << sh->errors
			<< ",\"sim_time_s\":" << sh->simTimeNs * 1e-9 << ",\n\"rc\":" << rc << ",\"violation_class\":" << jsonStr(vcls)
			<< ",\"violation\":" << jsonStr(vmsg) << ",\"replay\":" << jsonStr(replay) << ",\"violation_run\":" << vindex
			<< ",\"min_execs\":" << minExecs << ",\"ops_before\":" << opsBefore << ",\"ops_after\":" << opsAfter << ",\n\"known\":[";
		for (size_t i = 0; i < known.size(); i++) f << (i ? "," : "") << sh->known[i];
		f << "],\n\"counters\":{";
		bool firstc = true;
		for (int c = 0; c < rt::P_FIRST + (int)scenario.probes.size(); c++)
		{
			f << (firstc ? "" : ",") << jsonStr(c < rt::P_FIRST ? counterNames[c] : scenario.probes[c - rt::P_FIRST]) << ":{\"total\":" << sh->counters[c] << ",\"runs\":" << sh->runsWith[c] << "}";
			firstc = false;
		}
		f << "},\n\"samples\":[";
		for (int i = 0; i < 2; i++)
		{
			std::string t = planText(makePlan(prop.c_str(), seed, first + i));
			if (t.size() > 3000) t = t.substr(0, 3000) + "...";
			f << (i ? "," : "") << jsonStr(t);
		}
		f << "]}\n";
	}
	printf("runs=%llu distinct=%llu nontrivial=%llu interleavings=%llu states=%llu audits=%llu mismatches=%llu wall=%.1fs\n",
		(unsigned long long)sh->runs, (unsigned long long)sh->distinctRuns, (unsigned long long)sh->nontrivialDistinct,
		(unsigned long long)sh->distinctInter, (unsigned long long)sh->distinctStates, (unsigned long long)sh->audits,
		(unsigned long long)sh->auditMismatch, wall);
	if (rc == 1) printf("violation class=%s run=%llu replay=%s\n%s\n", vcls.c_str(), (unsigned long long)vindex, replay.c_str(), vmsg.c_str());
	return rc;
}
