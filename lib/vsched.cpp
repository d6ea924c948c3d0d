#include "vsched.hpp"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unordered_map>

#define NOBUILTIN __attribute__((optimize("no-tree-loop-distribute-patterns")))

namespace {

constexpr int MAXT = 12;
typedef uint32_t Clk;
struct VC {
	Clk c[MAXT];
	void clear() { for (auto & x : c) x = 0; }
	void join(const VC & o) { for (int m = 0; m < MAXT; ++m) if (o.c[m] > c[m]) c[m] = o.c[m]; }
};

enum St { RUN, LOCKING, RDLOCKING, CONDWAIT, JOINING, ONCEWAIT, GUARDWAIT, SLEEPING, SEMWAIT, FINISHED };
const char * stName[] = { "running", "waiting for a mutex", "waiting for a read lock", "waiting on a condition variable", "joining a thread", "waiting in call_once",
                          "waiting for a static initialiser", "sleeping", "waiting on a semaphore", "finished" };

struct Thread {
	int id;
	pthread_t real;
	int go;
	St st;
	void * obj;        // What it waits on.
	void * obj2;       // The mutex of a condition wait.
	bool timed, timedOut, yielded, joined, detached, started;
	uint64_t deadline;
	VC vc, acqPending, relFence;
	bool hasRelFence;
	uint64_t h;
	jmp_buf kill;
	void * (* fn)(void *);
	void * arg;
	void * ret;
	std::string label;
	void * stack[256];
	int depth;
	bool inRt;
	uintptr_t stackLo, stackHi;
};

struct Sync {      // Mutex, condition, atomic location, once flag, guard...
	int owner = -1, count = 0;
	std::vector<int> readers;
	std::vector<int> waiters;
	int state = 0;   // Once and guard: 0 new, 1 running, 2 done. Semaphore: value.
	VC vc;
	uint64_t h = 0;
	bool known = false;
	Sync() { vc.clear(); }
};

struct Decision { uint16_t n; uint16_t chosen; uint8_t cost[24]; uint8_t kind[24]; uint64_t state; };   // kind: 0 preemption, 1 timeout, 2 spurious

// What one execution left behind (in shared memory, so that it survives a process of its own).
struct Trace {
	size_t n;
	bool diverged, failed, stepLimit;
	size_t steps;
	char key[512], detail[6000];
	size_t nout;
	char out[16][200];
	Decision d[1 << 15];
};

bool active = false, killingNow = false;
Thread threads[MAXT];
int nthreads = 0, current = -1, unjoined = 0;   // unjoined: threads whose end the program has not yet waited for.
thread_local Thread * me = nullptr;
thread_local bool rt = false;        // Inside the runtime.
std::unordered_map<uintptr_t, Sync> * syncs = nullptr;
uint64_t globalH = 0, vnow = 0, baseTime = 1700000000ull * 1000000000ull;
Trace * tr = nullptr;
std::vector<std::pair<uint32_t, uint16_t>> devs;
size_t nextDev = 0;
vs::Bounds bnd;
const std::function<std::string (const std::vector<vs::Blocked> &)> * stuckFn = nullptr;
int explorerGo = 0;
std::vector<void *> * quarantine = nullptr;
uintptr_t gccLo = 0, gccHi = 0;

struct Guard { bool old; Guard() : old(rt) { rt = true; } ~Guard() { rt = old; } };

inline bool live() { return me && active && !rt && !killingNow && me->st != FINISHED; }

uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 33; return a; }

void futexWait(int * a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELAXED); }
void futexWake(int * a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

// ---- Shared mappings: the same object may be mapped at several addresses.
struct Mapping { uintptr_t lo, hi; uint64_t dev, ino; off_t off; };
std::vector<Mapping> * mappings = nullptr;
uintptr_t mapLo = ~(uintptr_t) 0, mapHi = 0;   // All of them lie in between.
uintptr_t canon(uintptr_t a) {
	if (a >= mapLo && a < mapHi) for (auto & m : *mappings) if (a >= m.lo && a < m.hi)
		return 0x4000000000000000ull | ((m.ino & 0xffffff) << 36) | ((m.off + (a - m.lo)) & 0xfffffffffull);
	return a;
}

// ---- Race detection.
struct Cell { uint8_t tid, mask, write, atomic; Clk clk; void * pc; };
struct Gran { uintptr_t addr; uint32_t gen; uint8_t n; uint8_t freed; Cell c[6]; };
constexpr size_t SHADOW = 1 << 17;
Gran * shadow = nullptr;
uint32_t gen = 1;
size_t shadowUsed = 0;
uint32_t shadowIndex[SHADOW]; // The entries in use.

Gran * granule(uintptr_t g, bool create) {
	// Neighbours stay together: executions in processes of their own copy every page that they touch.
	size_t i = (((g >> 5) * 0x9e3779b97f4a7c15ull) >> 52 << 5) | (g & 31);
	for (size_t k = 0; k < SHADOW; ++k, i = (i + 1) & (SHADOW - 1)) {
		Gran & s = shadow[i];
		if (s.gen != gen) {
			if (!create || shadowUsed > SHADOW / 2) return nullptr;
			shadowIndex[shadowUsed++] = (uint32_t) i;
			s.gen = gen; s.addr = g; s.n = 0; s.freed = 0;
			return &s;
		}
		if (s.addr == g) return &s;
	}
	return nullptr;
}

std::string symbol(void * pc) {
	Dl_info in;
	char b[300];
	if (dladdr(pc, &in) && in.dli_fname) {
		uintptr_t off = (uintptr_t) pc - (uintptr_t) in.dli_fbase;
		std::snprintf(b, sizeof b, "addr2line -Cfpe %s 0x%lx 2>/dev/null", in.dli_fname, (unsigned long) off - 1);
		std::string r;
		if (FILE * p = popen(b, "r")) { char l[400]; while (std::fgets(l, sizeof l, p)) r += l; pclose(p); }
		while (!r.empty() && r.back() == '\n') r.pop_back();
		auto w = r.find(" at ");
		if (w != std::string::npos && w > 80) r = r.substr(0, 77) + "..." + r.substr(w);
		return r;
	}
	return "?";
}

std::string stackOf(Thread * t, void * pc) {
	std::string r = pc ? symbol(pc) : "";
	for (int m = t->depth - 1, k = 0; m > 0 && k < 6; --m, ++k) if (m < 256) r += " < " + symbol(t->stack[m]);
	return r;
}

void failNow(const std::string & key, const std::string & detail) {
	Guard g;
	if (tr->failed) return;
	tr->failed = true;
	std::snprintf(tr->key, sizeof tr->key, "%s", key.c_str());
	std::snprintf(tr->detail, sizeof tr->detail, "%s", detail.c_str());
}

bool ordered(const Cell & c) { return c.clk <= me->vc.c[c.tid]; }

void access(uintptr_t a, size_t size, bool write, bool atomic, void * pc) {
	if (unjoined < 2) return;
	Guard g;
	a = canon(a);
	while (size) {
		uintptr_t gr = a >> 3;
		size_t o = a & 7, n = std::min<size_t>(8 - o, size);
		uint8_t mask = uint8_t(((1u << n) - 1) << o);
		a += n; size -= n;
		Gran * s = granule(gr, true);
		if (!s) continue;
		if (s->freed) {
			if (!tr->failed) failNow("use after free", "thread " + std::to_string(me->id) + " accesses freed memory at " + stackOf(me, pc));
			continue;
		}
		int slot = -1;
		for (int m = 0; m < s->n; ++m) {
			Cell & c = s->c[m];
			if (!(c.mask & mask)) continue;
			if (c.tid == me->id) { if (c.write == write && c.atomic == atomic && c.mask == mask) slot = m; continue; }
			if ((c.write || write) && !(c.atomic && atomic) && !ordered(c) && bnd.races && !tr->failed)
				failNow("data race", "thread " + std::to_string(me->id) + (write ? " writes" : " reads") + (atomic ? " (atomic)" : "") + " at " + stackOf(me, pc) + "; thread " +
				        std::to_string(c.tid) + (c.write ? " wrote" : " read") + (c.atomic ? " (atomic)" : "") + " unordered with it at " + symbol(c.pc));
		}
		if (slot < 0) {
			if (s->n < 6) slot = s->n++;
			else {  // Drop one that is ordered before this access if there is one.
				slot = 0;
				for (int m = 0; m < 6; ++m) if (ordered(s->c[m])) { slot = m; break; }
			}
		}
		s->c[slot] = Cell { (uint8_t) me->id, mask, (uint8_t) write, (uint8_t) atomic, me->vc.c[me->id], pc };
	}
}

void clearRange(uintptr_t a, size_t size) {
	a = canon(a);
	for (uintptr_t g = a >> 3; g <= (a + size - 1) >> 3; ++g) if (Gran * s = granule(g, false)) { s->n = 0; s->freed = 0; }
}

// ---- Scheduling.
Sync & sync(void * p) {
	Sync & s = (*syncs)[canon((uintptr_t) p)];
	if (!s.known) { s.known = true; s.h = mix(me ? me->h : 7, 0x51); s.vc.clear(); }
	return s;
}

void touch(Sync & s, int kind, void * pc) {   // The event on this object is part of the partial order.
	me->h = mix(mix(me->h, s.h), mix(kind, (uint64_t) pc));
	s.h = me->h;
}

void tick() { ++me->vc.c[me->id]; }

bool enabled(Thread & t) {
	switch (t.st) {
		case RUN: return true;
		case LOCKING: { Sync & s = sync(t.obj); return (s.owner < 0 || s.owner == t.id) && s.readers.empty(); }
		case RDLOCKING: return sync(t.obj).owner < 0;
		case JOINING: return ((Thread *) t.obj)->st == FINISHED;
		case ONCEWAIT: case GUARDWAIT: return sync(t.obj).state != 1;
		case SEMWAIT: return sync(t.obj).state > 0;
		default: return false;
	}
}

int decide(int n, const uint8_t * cost, const uint8_t * kind, uint64_t state) {
	if (tr->n >= sizeof tr->d / sizeof tr->d[0]) { tr->stepLimit = true; return 0; }
	Decision & d = tr->d[tr->n];
	d.n = (uint16_t) n; d.state = state;
	for (int m = 0; m < n; ++m) { d.cost[m] = cost[m]; d.kind[m] = kind[m]; }
	int c = 0;
	if (nextDev < devs.size() && devs[nextDev].first == tr->n) {
		c = devs[nextDev].second;
		++nextDev;
		if (c >= n) { tr->diverged = true; c = 0; }
	}
	d.chosen = (uint16_t) c;
	++tr->n;
	return c;
}

uint64_t stateHash(int cur) {
	uint64_t h = mix(globalH, (uint64_t) cur + 3);
	for (int m = 0; m < nthreads; ++m) h = mix(h, mix(threads[m].h, (uint64_t) threads[m].st * 4 + threads[m].yielded * 2 + threads[m].timed));
	return h;
}

void switchTo(Thread * t) {
	Thread * self = me;
	current = t->id;
	if (t == self) return;
	futexWake(&t->go);
	if (self->st == FINISHED) return;
	futexWait(&self->go);
	if (killingNow) longjmp(self->kill, 1);
}

void endRun() {   // Called by the thread that runs, when nothing is left to do.
	futexWake(&explorerGo);
}

[[noreturn]] void park() { futexWait(&me->go); longjmp(me->kill, 1); }

// The running thread gives way to whatever the explorer decides. On return this thread runs again.
void reschedule() {
	Guard g;
	if (tr->failed || ++tr->steps > bnd.maxSteps || tr->diverged) {
		if (tr->steps > bnd.maxSteps && !tr->failed) {
			std::string s;
			for (int m = 0; m < nthreads; ++m) s += " [" + std::to_string(m) + " " + threads[m].label + ": " + stName[threads[m].st] + "]";
			failNow("no end within the step limit", s);
		}
		if (me->st == FINISHED) { endRun(); return; }
		endRun();
		park();
	}
	struct Alt { int t; int how; };   // how: 0 run, 1 timeout, 2 spurious
	Alt alt[24]; uint8_t cost[24], kind[24]; int n = 0;
	bool cur = me->st != FINISHED && enabled(*me) && !me->yielded;
	if (cur) { alt[n] = { me->id, 0 }; cost[n] = 0; kind[n++] = 0; }
	for (int pass = 0; pass < 2; ++pass) for (int m = 0; m < nthreads; ++m) {
		Thread & t = threads[m];
		if (cur && &t == me) continue;
		if (t.st == FINISHED || !enabled(t) || t.yielded != (pass == 1)) continue;
		alt[n] = { m, 0 }; cost[n] = (cur || pass == 1 && n > 0) ? 1 : 0; kind[n++] = 0;
	}
	bool any = n > 0;
	for (int m = 0; m < nthreads; ++m) {
		Thread & t = threads[m];
		if (t.st != FINISHED && t.timed && !enabled(t) && n < 24) { alt[n] = { m, 1 }; cost[n] = any ? 1 : 0; kind[n++] = 1; }
	}
	// If only time can help, the earliest deadline passes first.
	if (!any && n > 1) std::stable_sort(alt, alt + n, [] (const Alt & a, const Alt & b) { return threads[a.t].deadline < threads[b.t].deadline; });
	if (bnd.spurious) for (int m = 0; m < nthreads; ++m) {
		Thread & t = threads[m];
		if (any && t.st == CONDWAIT && n < 24) { alt[n] = { m, 2 }; cost[n] = 1; kind[n++] = 2; }
	}
	if (n == 0) {
		bool allDone = true;
		for (int m = 0; m < nthreads; ++m) if (threads[m].st != FINISHED) allDone = false;
		if (!allDone) {
			std::vector<vs::Blocked> b;
			for (int m = 0; m < nthreads; ++m) if (threads[m].st != FINISHED) b.push_back({ m, stName[threads[m].st], threads[m].label });
			std::string bad = stuckFn && *stuckFn ? (*stuckFn)(b) : std::string("deadlock"), s;
			if (!bad.empty()) for (int m = 0; m < nthreads; ++m) if (threads[m].st != FINISHED)
				s += " [thread " + std::to_string(m) + " " + threads[m].label + ": " + stName[threads[m].st] + (threads[m].depth > 0 ? " in " + symbol(threads[m].stack[threads[m].depth - 1]) : "") + "]";
			if (!bad.empty()) failNow(bad.find(':') == std::string::npos ? bad : bad.substr(0, bad.find(':')), bad + " -" + s);
		}
		endRun();
		if (me->st == FINISHED) return;
		park();
	}
	int c = n > 1 ? decide(n, cost, kind, stateHash(cur ? me->id : 99)) : 0;
	Thread & t = threads[alt[c].t];
	for (int m = 0; m < nthreads; ++m) if (&threads[m] != &t) {} 
	if (alt[c].how == 1) {
		t.timedOut = true; t.timed = false;
		if (t.deadline > vnow) vnow = t.deadline;
		t.h = mix(t.h, 0x7177);
		globalH = mix(globalH, t.h);
	}
	if (alt[c].how == 2) t.h = mix(t.h, 0x5b5b);
	if (t.st == CONDWAIT) {   // Timed out or woken spuriously: it wants its mutex back.
		Sync & s = sync(t.obj);
		s.waiters.erase(std::remove(s.waiters.begin(), s.waiters.end(), t.id), s.waiters.end());
		t.st = LOCKING; t.obj = t.obj2; t.timed = false;
		// It runs when the mutex is free.
		if (!enabled(t)) { reschedule(); return; }
	}
	// A thread that gave way stays behind until some other thread has moved.
	for (int m = 0; m < nthreads; ++m) if (&threads[m] != &t) threads[m].yielded = false;
	t.yielded = false;
	switchTo(&t);
}

void schedulingPoint() { if (nthreads > 1) reschedule(); }

// Waits, as the running thread, until the state's condition holds. The state must have been set.
void block() { reschedule(); }

void * callerMutex(void * ra) { return ra; }

int doLock(void * m, bool isPoint, void * pc, bool timed, uint64_t deadline) {
	if (isPoint) schedulingPoint();
	Guard g;
	Sync & s = sync(m);
	bool recursive = (((pthread_mutex_t *) m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
	if (s.owner == me->id) {
		if (recursive) { ++s.count; return 0; }
		if ((((pthread_mutex_t *) m)->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
	}
	if (s.owner >= 0 || !s.readers.empty()) {
		me->st = LOCKING; me->obj = m; me->timed = timed; me->timedOut = false; me->deadline = deadline;
		if (s.owner == me->id) { me->st = CONDWAIT; me->obj = &me->st; sync(me->obj); }  // Locks it twice: never goes on.
		block();
		me->timed = false;
		me->st = RUN;
		if (me->timedOut) { me->timedOut = false; return ETIMEDOUT; }
	}
	Sync & s2 = sync(m);
	s2.owner = me->id; s2.count = 1;
	touch(s2, 1, pc);
	me->vc.join(s2.vc);
	return 0;
}

int doUnlock(void * m, void * pc) {
	Guard g;
	Sync & s = sync(m);
	if (s.owner == me->id && s.count > 1) { --s.count; return 0; }
	if (s.owner != me->id && !s.readers.empty()) {
		auto i = std::find(s.readers.begin(), s.readers.end(), me->id);
		if (i != s.readers.end()) { s.readers.erase(i); s.vc.join(me->vc); tick(); touch(s, 2, pc); return 0; }
	}
	if (s.owner != me->id) { failNow("mutex unlocked by a thread that does not hold it", stackOf(me, pc)); return EPERM; }
	s.owner = -1; s.count = 0;
	s.vc.join(me->vc);
	tick();
	touch(s, 2, pc);
	return 0;
}

int doWait(pthread_cond_t * c, pthread_mutex_t * m, bool timed, uint64_t deadline, void * pc) {
	Guard g;
	schedulingPoint();
	if (timed && deadline <= vnow) {   // The deadline has passed: the mutex is given up and taken again.
		touch(sync(c), 3, pc);
		doUnlock(m, pc);
		doLock(m, true, pc, false, 0);
		me->h = mix(me->h, 0x7178);
		return ETIMEDOUT;
	}
	{
		Sync & s = sync(c);
		touch(s, 3, pc);
		s.waiters.push_back(me->id);
	}
	doUnlock(m, pc);
	me->st = CONDWAIT; me->obj = c; me->obj2 = m; me->timed = timed; me->timedOut = false; me->deadline = deadline;
	block();
	bool to = me->timedOut;
	me->timedOut = false; me->timed = false;
	me->st = RUN;
	Sync & s2 = sync(m);
	s2.owner = me->id; s2.count = 1;
	touch(s2, 4, pc);
	me->vc.join(s2.vc);
	return to ? ETIMEDOUT : 0;
}

void wake(int t) {
	Thread & w = threads[t];
	w.st = LOCKING; w.obj = w.obj2; w.timed = false;
	w.h = mix(w.h, 0xaa);
}

void doNotify(pthread_cond_t * c, bool all, void * pc) {
	Guard g;
	schedulingPoint();
	Sync & s = sync(c);
	touch(s, 5, pc);
	if (all) { for (int t : s.waiters) wake(t); s.waiters.clear(); }
	else if (!s.waiters.empty()) {
		int k = 0, n = (int) s.waiters.size();
		if (n > 1) { uint8_t cost[24] = { 0 }, kind[24] = { 0 }; k = decide(n, cost, kind, mix(stateHash(me->id), 0x77)); }
		wake(s.waiters[(size_t) k]);
		s.waiters.erase(s.waiters.begin() + k);
	}
}

struct Finisher {
	bool on = false;
	~Finisher() {
		if (!on || !me) return;
		rt = true;
		Thread * t = me;
		t->st = FINISHED;
		if (killingNow) { futexWake(&explorerGo); return; }
		++t->vc.c[t->id];
		t->label = "(ended)";
		reschedule();
	}
};
thread_local Finisher finisher;

void * trampoline(void * p) {
	Thread * t = (Thread *) p;
	me = t;
	finisher.on = true;
	pthread_attr_t at;
	void * lo; size_t sz;
	rt = true;
	pthread_getattr_np(pthread_self(), &at);
	pthread_attr_getstack(&at, &lo, &sz);
	pthread_attr_destroy(&at);
	t->stackLo = (uintptr_t) lo; t->stackHi = t->stackLo + sz;
	if (setjmp(t->kill) == 0) {
		futexWait(&t->go);
		// A stack that a thread of this execution has used before.
		for (int m = 0; m < t->id && !killingNow; ++m) if (threads[m].stackLo < t->stackHi && t->stackLo < threads[m].stackHi)
			for (size_t k = 0; k < shadowUsed; ++k) { Gran & x = shadow[shadowIndex[k]]; if (x.addr << 3 >= t->stackLo && x.addr << 3 < t->stackHi) { x.n = 0; x.freed = 0; } }
		if (!killingNow) { rt = false; t->started = true; t->ret = t->fn(t->arg); }
	}
	rt = false;
	return t->ret;
}

int (* realCreate)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *) = nullptr;
int (* realJoin)(pthread_t, void **) = nullptr;

Thread * newThread(void * (* fn)(void *), void * arg) {
	if (nthreads >= MAXT) { std::fprintf(stderr, "vsched: too many threads\n"); _exit(3); }
	Thread & t = threads[nthreads];
	t.id = nthreads; t.go = 0; t.st = RUN; t.obj = t.obj2 = nullptr; t.timed = t.timedOut = t.yielded = t.joined = t.detached = t.started = false;
	t.vc.clear(); t.acqPending.clear(); t.relFence.clear(); t.hasRelFence = false;
	t.h = mix(0x1234, (uint64_t) t.id); t.fn = fn; t.arg = arg; t.ret = nullptr; t.label.clear(); t.depth = 0; t.deadline = 0; t.stackLo = t.stackHi = 0;
	t.vc.c[t.id] = 1;
	++nthreads; ++unjoined;
	return &t;
}

int spawn(Thread * t) {
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 1 << 20);
	int r = realCreate(&t->real, &at, trampoline, t);
	pthread_attr_destroy(&at);
	return r;
}

const std::function<void ()> * bodyFn = nullptr;
void * bodyMain(void *) { (*bodyFn)(); return nullptr; }

void runOnce() {   // One execution with the deviations in devs.
	tr->n = 0; tr->diverged = tr->failed = tr->stepLimit = false; tr->steps = 0; tr->nout = 0;
	nextDev = 0;
	syncs->clear();
	++gen; shadowUsed = 0;
	globalH = 1; vnow = 0;
	for (int m = 0; m < MAXT; ++m) threads[m].label.clear();
	nthreads = 0; unjoined = 0;
	killingNow = false;
	explorerGo = 0;
	Thread * t = newThread(bodyMain, nullptr);
	active = true;
	current = 0;
	spawn(t);
	futexWake(&t->go);
	futexWait(&explorerGo);
	killingNow = true;
	for (int m = nthreads - 1; m >= 0; --m) {
		Thread & x = threads[m];
		if (x.st != FINISHED) { explorerGo = 0; futexWake(&x.go); futexWait(&explorerGo); }
	}
	for (int m = 0; m < nthreads; ++m) if (!threads[m].joined) realJoin(threads[m].real, nullptr);
	active = false;
	killingNow = false;
	for (void * p : *quarantine) std::free(p);
	quarantine->clear();
}

vk::Ctx * ctx = nullptr;
std::string scenario;
bool stop = false;
std::unordered_map<uint64_t, int> * visited = nullptr;
uint64_t childCounter = 0;

void runIsolated() {
	pid_t p = fork();
	if (p == 0) { runOnce(); _exit(0); }
	int st = 0;
	// The parent is the watchdog: a schedule that does not end is a hang.
	for (int ms = 0;; ) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) break;
		struct timespec ts { 0, 200000 };
		syscall(SYS_nanosleep, &ts, nullptr);
		if (++ms > 100000) { kill(p, SIGKILL); waitpid(p, &st, 0); tr->failed = true; std::snprintf(tr->key, 100, "hang"); std::snprintf(tr->detail, 100, "an execution did not end"); break; }
	}
	if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !tr->failed) {
		tr->failed = true;
		std::snprintf(tr->key, 100, "crash");
		std::snprintf(tr->detail, 200, "the execution ended with status 0x%x", st);
	}
}

std::string schedule(const std::vector<std::pair<uint32_t, uint16_t>> & v) {
	std::string s;
	for (auto & d : v) s += (s.empty() ? "" : ",") + std::to_string(d.first) + "." + std::to_string(d.second);
	return s.empty() ? "-" : s;
}

struct Used { int p = 0, t = 0, s = 0; };

void exploreFrom(std::vector<std::pair<uint32_t, uint16_t>> prefix, Used used, int level) {
	if (stop) return;
	devs = prefix;
	if (bnd.isolate) runIsolated(); else runOnce();
	ctx->beat();
	if (tr->diverged) { std::fprintf(stderr, "vsched: %s: schedule %s diverged\n", scenario.c_str(), schedule(prefix).c_str()); _exit(4); }
	if (level >= 2 || !bnd.split || ctx->shard == 0) {
		++ctx->evaluations; ++ctx->traces;
		ctx->transitions += tr->steps;
		for (size_t m = 0; m < tr->nout; ++m) ctx->outcome(tr->out[m]);
	}
	if (tr->failed) {
		ctx->violation(tr->key, scenario + "; schedule=" + schedule(prefix) + "; " + tr->detail);
		stop = true;
		return;
	}
	if (tr->stepLimit) { std::fprintf(stderr, "vsched: %s: too many decisions\n", scenario.c_str()); _exit(4); }
	if (ctx->elapsed() > ctx->budget) { stop = true; ctx->note("time", "ran out in " + scenario); ctx->overBudget(); return; }
	size_t from = prefix.empty() ? 0 : prefix.back().first + 1;
	struct Child { uint32_t pos; uint16_t alt; Used u; };
	std::vector<Child> kids;
	// Costs of the default choices are zero, except that a yielded thread may have to be chosen.
	for (size_t m = from; m < tr->n; ++m) {
		Decision & d = tr->d[m];
		ctx->state(d.state);
		if (level >= 2 || !bnd.split) {
			uint64_t k = d.state;
			int budgetKey = (bnd.preemptions - used.p) * 100 + (bnd.timeouts - used.t) * 10 + (bnd.spurious - used.s);
			k = mix(k, (uint64_t) (bnd.timeouts - used.t) * 10 + (uint64_t) (bnd.spurious - used.s));
			auto i = visited->find(k);
			if (i != visited->end() && i->second >= bnd.preemptions - used.p) break;
			(*visited)[k] = bnd.preemptions - used.p;
			(void) budgetKey;
		}
		for (uint16_t a = 1; a < d.n; ++a) {
			Used u = used;
			if (d.cost[a]) { if (d.kind[a] == 0) ++u.p; else if (d.kind[a] == 1) ++u.t; else ++u.s; }
			if (u.p > bnd.preemptions || u.t > bnd.timeouts || u.s > bnd.spurious) continue;
			kids.push_back({ (uint32_t) m, a, u });
		}
	}
	for (auto & k : kids) {
		if (stop) return;
		if (bnd.split && level == 1 && childCounter++ % ctx->shards != ctx->shard) continue;
		auto p = prefix;
		p.push_back({ k.pos, k.alt });
		exploreFrom(p, k.u, level + 1);
	}
}

int phdr(dl_phdr_info * i, size_t, void *) {
	if (i->dlpi_name && std::strstr(i->dlpi_name, "libgcc_s")) {
		gccLo = i->dlpi_addr;
		for (int m = 0; m < i->dlpi_phnum; ++m) gccHi = std::max<uintptr_t>(gccHi, i->dlpi_addr + i->dlpi_phdr[m].p_vaddr + i->dlpi_phdr[m].p_memsz);
	}
	return 0;
}

void initOnce() {
	if (syncs) return;
	realCreate = (decltype(realCreate)) dlsym(RTLD_NEXT, "pthread_create");
	realJoin = (decltype(realJoin)) dlsym(RTLD_NEXT, "pthread_join");
	syncs = new std::unordered_map<uintptr_t, Sync>();
	quarantine = new std::vector<void *>();
	shadow = (Gran *) mmap(nullptr, SHADOW * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	tr = (Trace *) mmap(nullptr, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	dl_iterate_phdr(phdr, nullptr);
}

} // namespace

namespace vs {

void explore(vk::Ctx & c, const std::string & name, const Bounds & b, const std::function<void ()> & body,
             const std::function<std::string (const std::vector<Blocked> &)> & stuck) {
	Guard g;
	initOnce();
	if (!(b.split ? c.beginAll([&] { return name; }) : c.begin([&] { return name; }))) return;
	--c.evaluations;
	cpu_set_t old, one;
	sched_getaffinity(0, sizeof old, &old);
	std::vector<int> cpus;
	for (int m = 0; m < CPU_SETSIZE; ++m) if (CPU_ISSET(m, &old)) cpus.push_back(m);
	CPU_ZERO(&one);
	CPU_SET(cpus[c.shard % cpus.size()], &one);
	sched_setaffinity(0, sizeof one, &one);
	ctx = &c; scenario = name; bnd = b; bodyFn = &body; stuckFn = &stuck; stop = false; childCounter = 0;
	std::unordered_map<uint64_t, int> vis;
	visited = &vis;
	if (!c.schedule.empty()) {
		devs.clear();
		std::vector<std::pair<uint32_t, uint16_t>> p;
		if (c.schedule != "-") {
			std::stringstream ss(c.schedule);
			std::string e;
			while (std::getline(ss, e, ',')) p.push_back({ (uint32_t) std::stoul(e), (uint16_t) std::stoul(e.substr(e.find('.') + 1)) });
		}
		devs = p;
		if (bnd.isolate) runIsolated(); else runOnce();
		++c.evaluations;
		if (tr->failed) c.violation(tr->key, name + "; schedule=" + c.schedule + "; " + tr->detail);
	} else exploreFrom({}, Used(), 0);
	sched_setaffinity(0, sizeof old, &old);
	bodyFn = nullptr;
	c.outcome("scenarios explored");
}

void fail(const std::string & key, const std::string & detail) {
	if (killingNow || !me) return;
	failNow(key, detail);
	rt = true;
	endRun();
	park();
}
int choose(int n) {
	if (!live() || n < 2) return 0;
	Guard g;
	uint8_t cost[24] = { 0 }, kind[24] = { 0 };
	int k = decide(n, cost, kind, mix(stateHash(me->id), 0x99));
	me->h = mix(me->h, (uint64_t) k + 0xc0);
	return k;
}
void point() { if (live()) { schedulingPoint(); Guard g; me->h = mix(me->h, 0xd1); } }
void event(uint64_t h) { if (me && active && !killingNow) { Guard g; me->h = mix(mix(me->h, globalH), h); globalH = me->h; } }
void label(const std::string & s) { if (me) { Guard g; me->label = s; } }
int tid() { return me ? me->id : -1; }
void outcome(const std::string & s) { if (tr && tr->nout < 16) { Guard g; std::snprintf(tr->out[tr->nout++], 200, "%s", s.c_str()); } }
uint64_t now() { return baseTime + vnow; }
bool killing() { return killingNow; }
Quiet::Quiet() : old(rt) { rt = true; }
Quiet::~Quiet() { rt = old; }

} // namespace vs

// ---- Interposed functions.
#define RA __builtin_return_address(0)
#define SKIP(v) if (!live()) return v

extern "C" {

int pthread_create(pthread_t * out, const pthread_attr_t * at, void * (* fn)(void *), void * arg) {
	if (!realCreate) initOnce();
	if (!me || !active || killingNow) return realCreate(out, at, fn, arg);
	{
		Guard g;
		Thread * t = newThread(fn, arg);
		t->vc.join(me->vc);
		t->h = mix(t->h, me->h);
		tick();
		int det = 0;
		if (at) pthread_attr_getdetachstate(at, &det);
		t->detached = det == PTHREAD_CREATE_DETACHED;
		int r = spawn(t);
		if (r) { std::fprintf(stderr, "vsched: cannot create a thread: %d\n", r); _exit(3); }
		*out = t->real;
		me->h = mix(me->h, 0xcafe);
	}
	schedulingPoint();
	return 0;
}

static Thread * byHandle(pthread_t p) { for (int m = 0; m < nthreads; ++m) if (pthread_equal(threads[m].real, p) && !threads[m].joined) return &threads[m]; return nullptr; }

int pthread_join(pthread_t p, void ** ret) {
	if (!realJoin) initOnce();
	if (!me || !active) return realJoin(p, ret);
	if (killingNow) return 0;
	Thread * t = byHandle(p);
	if (!t) return ESRCH;
	schedulingPoint();
	Guard g;
	if (t->st != FINISHED) { me->st = JOINING; me->obj = t; block(); me->st = RUN; }
	me->vc.join(t->vc);
	me->h = mix(me->h, t->h);
	t->joined = true; --unjoined;
	realJoin(p, nullptr);
	if (ret) *ret = t->ret;
	return 0;
}

int pthread_detach(pthread_t p) {
	if (!me || !active) return 0;
	if (Thread * t = byHandle(p)) t->detached = true;
	return 0;
}

static bool libgcc(void * ra) { return (uintptr_t) ra >= gccLo && (uintptr_t) ra < gccHi; }

int pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a) {
	std::memset((void *) m, 0, sizeof *m);
	int kind = 0;
	if (a) pthread_mutexattr_gettype(a, &kind);
	m->__data.__kind = kind;
	if (live()) { Guard g; syncs->erase(canon((uintptr_t) m)); }
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t * m) {
	SKIP(0);
	Guard g;
	auto i = syncs->find(canon((uintptr_t) m));
	if (i != syncs->end()) {
		if (i->second.owner >= 0) { failNow("mutex destroyed while it is locked", stackOf(me, RA)); return EBUSY; }
		for (int t = 0; t < nthreads; ++t) if (threads[t].st == LOCKING && canon((uintptr_t) threads[t].obj) == canon((uintptr_t) m)) { failNow("mutex destroyed while a thread waits for it", stackOf(me, RA)); return EBUSY; }
		syncs->erase(i);
	}
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t * m) { SKIP(0); return doLock(m, !libgcc(RA), RA, false, 0); }
int pthread_mutex_trylock(pthread_mutex_t * m) {
	SKIP(0);
	schedulingPoint();
	Guard g;
	Sync & s = sync(m);
	bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
	if (s.owner == me->id && recursive) { ++s.count; return 0; }
	if (s.owner >= 0 || !s.readers.empty()) { touch(s, 8, RA); return EBUSY; }
	s.owner = me->id; s.count = 1;
	touch(s, 1, RA);
	me->vc.join(s.vc);
	return 0;
}
static uint64_t ns(const timespec * t) { uint64_t a = (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec; return a > baseTime ? a - baseTime : 0; }
int pthread_mutex_timedlock(pthread_mutex_t * m, const timespec * t) { SKIP(0); return doLock(m, true, RA, true, ns(t)); }
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t, const timespec * t) { SKIP(0); return doLock(m, true, RA, true, ns(t)); }
int pthread_mutex_unlock(pthread_mutex_t * m) { SKIP(0); return doUnlock(m, RA); }

int pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t *) { std::memset((void *) c, 0, sizeof *c); if (live()) { Guard g; syncs->erase(canon((uintptr_t) c)); } return 0; }
int pthread_cond_destroy(pthread_cond_t * c) {
	SKIP(0);
	Guard g;
	auto i = syncs->find(canon((uintptr_t) c));
	if (i != syncs->end()) {
		if (!i->second.waiters.empty()) { failNow("condition variable destroyed while a thread waits on it", stackOf(me, RA)); return EBUSY; }
		syncs->erase(i);
	}
	return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { SKIP(0); return doWait(c, m, false, 0, RA); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t) { SKIP(0); return doWait(c, m, true, ns(t), RA); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const timespec * t) { SKIP(0); return doWait(c, m, true, ns(t), RA); }
int pthread_cond_signal(pthread_cond_t * c) { SKIP(0); doNotify(c, false, RA); return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) { SKIP(0); doNotify(c, true, RA); return 0; }

int pthread_rwlock_init(pthread_rwlock_t * m, const pthread_rwlockattr_t *) { std::memset((void *) m, 0, sizeof *m); if (live()) { Guard g; syncs->erase(canon((uintptr_t) m)); } return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t * m) { if (live()) { Guard g; syncs->erase(canon((uintptr_t) m)); } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t * m) {
	SKIP(0);
	schedulingPoint();
	Guard g;
	if (sync(m).owner >= 0) { me->st = RDLOCKING; me->obj = m; block(); me->st = RUN; }
	Sync & s = sync(m);
	s.readers.push_back(me->id);
	touch(s, 11, RA);
	me->vc.join(s.vc);
	return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m) {
	SKIP(0);
	schedulingPoint();
	Guard g;
	Sync & s = sync(m);
	touch(s, 12, RA);
	if (s.owner >= 0) return EBUSY;
	s.readers.push_back(me->id);
	me->vc.join(s.vc);
	return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t * m) { SKIP(0); return doLock(m, true, RA, false, 0); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * m) { return pthread_mutex_trylock((pthread_mutex_t *) m); }
int pthread_rwlock_unlock(pthread_rwlock_t * m) { SKIP(0); return doUnlock(m, RA); }

int pthread_once(pthread_once_t * o, void (* fn)(void)) {
	if (!live()) { if (*o == 0) { *o = 2; fn(); } return 0; }
	schedulingPoint();
	{
		Guard g;
		if (*o == 2) { Sync & s = sync(o); touch(s, 21, RA); me->vc.join(s.vc); return 0; }
		while (sync(o).state == 1) { me->st = ONCEWAIT; me->obj = o; block(); me->st = RUN; }
		Sync & s = sync(o);
		touch(s, 21, RA);
		me->vc.join(s.vc);
		if (s.state == 2) return 0;
		s.state = 1;
	}
	struct Undo {   // An exception leaves the flag unset.
		pthread_once_t * o; bool done;
		~Undo() { if (!me || killingNow) return; Guard g; Sync & s = sync(o); s.state = done ? 2 : 0; if (done) *o = 2; s.vc.join(me->vc); tick(); touch(s, 22, nullptr); }
	} u { o, false };
	fn();
	u.done = true;
	return 0;
}

int __cxa_guard_acquire(long long * gd) {
	char * f = (char *) gd;
	if (!live()) { return *f ? 0 : 1; }
	schedulingPoint();
	Guard g;
	while (sync(gd).state == 1) { me->st = GUARDWAIT; me->obj = gd; block(); me->st = RUN; }
	Sync & s = sync(gd);
	touch(s, 31, RA);
	me->vc.join(s.vc);
	if (*f) return 0;
	s.state = 1;
	return 1;
}
void __cxa_guard_release(long long * gd) {
	*(char *) gd = 1;
	if (!live()) return;
	Guard g;
	Sync & s = sync(gd);
	s.state = 2;
	s.vc.join(me->vc); tick();
	touch(s, 32, RA);
}
void __cxa_guard_abort(long long * gd) {
	if (!live()) return;
	Guard g;
	Sync & s = sync(gd);
	s.state = 0;
	s.vc.join(me->vc); tick();
	touch(s, 33, RA);
}

static int (* realClock)(clockid_t, timespec *) = nullptr;
int clock_gettime(clockid_t c, timespec * t) {
	if (!live()) return (int) syscall(SYS_clock_gettime, c, t);
	uint64_t n = baseTime + vnow;
	t->tv_sec = (time_t) (n / 1000000000ull); t->tv_nsec = (long) (n % 1000000000ull);
	return 0;
}
int gettimeofday(struct timeval * t, void *) {
	timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
	return 0;
}
time_t time(time_t * o) { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }

static void doSleep(uint64_t n) {
	Guard g;
	me->st = SLEEPING; me->timed = true; me->timedOut = false; me->deadline = vnow + n;
	block();
	me->timed = me->timedOut = false;
	me->st = RUN;
}
int nanosleep(const timespec * t, timespec * r) {
	if (!live()) return (int) syscall(SYS_nanosleep, t, r);
	doSleep((uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec);
	return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec * t, timespec * r) {
	if (!live()) return (int) syscall(SYS_clock_nanosleep, c, flags, t, r);
	uint64_t n = (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec;
	if (flags & TIMER_ABSTIME) n = n > baseTime + vnow ? n - baseTime - vnow : 0;
	doSleep(n);
	return 0;
}
int usleep(useconds_t u) {
	if (!live()) { timespec t { (time_t) (u / 1000000), (long) (u % 1000000) * 1000 }; return (int) syscall(SYS_nanosleep, &t, nullptr); }
	doSleep((uint64_t) u * 1000);
	return 0;
}
int sched_yield() {
	if (!live()) return (int) syscall(SYS_sched_yield);
	Guard g;
	me->h = mix(me->h, 0xeee);
	me->yielded = true;
	schedulingPoint();
	me->yielded = false;
	return 0;
}

int sem_init(sem_t * s, int, unsigned v) { Guard g; if (!syncs) return 0; Sync & x = sync(s); x.state = (int) v; return 0; }
int sem_destroy(sem_t *) { return 0; }
int sem_post(sem_t * s) { SKIP(0); schedulingPoint(); Guard g; Sync & x = sync(s); ++x.state; x.vc.join(me->vc); tick(); touch(x, 41, RA); return 0; }
int sem_wait(sem_t * s) {
	SKIP(0);
	schedulingPoint();
	Guard g;
	while (sync(s).state <= 0) { me->st = SEMWAIT; me->obj = s; block(); me->st = RUN; }
	Sync & x = sync(s);
	--x.state;
	touch(x, 42, RA);
	me->vc.join(x.vc);
	return 0;
}

// Shared mappings.
void * mmap(void * a, size_t n, int prot, int flags, int fd, off_t off) {
	void * r = (void *) syscall(SYS_mmap, a, n, prot, flags, fd, off);
	if (r != MAP_FAILED && (flags & MAP_SHARED) && fd >= 0) {
		struct stat st;
		if (fstat(fd, &st) == 0) {
			Guard g;
			if (!mappings) mappings = new std::vector<Mapping>();
			mappings->push_back({ (uintptr_t) r, (uintptr_t) r + n, (uint64_t) st.st_dev, (uint64_t) st.st_ino, off });
			mapLo = std::min(mapLo, (uintptr_t) r); mapHi = std::max(mapHi, (uintptr_t) r + n);
		}
	}
	return r;
}
void * mmap64(void * a, size_t n, int prot, int flags, int fd, off_t off) { return mmap(a, n, prot, flags, fd, off); }
int munmap(void * a, size_t n) {
	if (mappings) { Guard g; for (size_t m = 0; m < mappings->size(); ++m) if ((*mappings)[m].lo == (uintptr_t) a) { mappings->erase(mappings->begin() + (long) m); break; }
		mapLo = ~(uintptr_t) 0; mapHi = 0;
		for (auto & m : *mappings) { mapLo = std::min(mapLo, m.lo); mapHi = std::max(mapHi, m.hi); }
	}
	return (int) syscall(SYS_munmap, a, n);
}

// ---- Memory blocks.
NOBUILTIN void * memcpy(void * d, const void * s, size_t n) {
	if (live() && nthreads > 1 && n) { access((uintptr_t) s, n, false, false, RA); access((uintptr_t) d, n, true, false, RA); }
	void * r = d;
	asm volatile ("rep movsb" : "+D" (d), "+S" (s), "+c" (n) : : "memory");
	return r;
}
NOBUILTIN void * memmove(void * d, const void * s, size_t n) {
	if (live() && nthreads > 1 && n) { access((uintptr_t) s, n, false, false, RA); access((uintptr_t) d, n, true, false, RA); }
	if (d < s || (char *) d >= (const char *) s + n) { void * r = d; asm volatile ("rep movsb" : "+D" (d), "+S" (s), "+c" (n) : : "memory"); return r; }
	char * e = (char *) d + n - 1; const char * f = (const char *) s + n - 1;
	asm volatile ("std; rep movsb; cld" : "+D" (e), "+S" (f), "+c" (n) : : "memory");
	return d;
}
NOBUILTIN void * memset(void * d, int v, size_t n) {
	if (live() && nthreads > 1 && n) access((uintptr_t) d, n, true, false, RA);
	void * r = d;
	asm volatile ("rep stosb" : "+D" (d), "+c" (n) : "a" (v) : "memory");
	return r;
}

// ---- Instrumentation callbacks.
#define RW(n) \
	void __tsan_read##n(void * a) { if (live()) access((uintptr_t) a, n, false, false, RA); } \
	void __tsan_write##n(void * a) { if (live()) access((uintptr_t) a, n, true, false, RA); } \
	void __tsan_unaligned_read##n(void * a) { if (live()) access((uintptr_t) a, n, false, false, RA); } \
	void __tsan_unaligned_write##n(void * a) { if (live()) access((uintptr_t) a, n, true, false, RA); } \
	void __tsan_volatile_read##n(void * a) { if (live()) access((uintptr_t) a, n, false, false, RA); } \
	void __tsan_volatile_write##n(void * a) { if (live()) access((uintptr_t) a, n, true, false, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * a, size_t n) { if (live() && n) access((uintptr_t) a, n, false, false, RA); }
void __tsan_write_range(void * a, size_t n) { if (live() && n) access((uintptr_t) a, n, true, false, RA); }
void __tsan_vptr_update(void ** a, void * v) { if (live() && *a != v) access((uintptr_t) a, 8, true, false, RA); }
void __tsan_vptr_read(void ** a) { if (live()) access((uintptr_t) a, 8, false, false, RA); }
void __tsan_init() {}
void __tsan_func_entry(void * pc) { if (me && !rt) { if (me->depth < 256) me->stack[me->depth] = pc; ++me->depth; } }
void __tsan_func_exit(void *) { if (me && !rt && me->depth > 0) --me->depth; }

void __tsan_atomic_thread_fence(int mo) {
	SKIP();
	Guard g;
	if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) me->vc.join(me->acqPending);
	if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { me->relFence = me->vc; me->hasRelFence = true; tick(); }
}
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

namespace {

bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void before(volatile void * a, size_t n, bool write, void * pc) {
	schedulingPoint();
	access((uintptr_t) a, n, write, true, pc);
}
void load(volatile void * a, int mo, void * pc) {
	Guard g;
	Sync & s = sync((void *) a);
	if (acq(mo)) me->vc.join(s.vc); else me->acqPending.join(s.vc);
	touch(s, 51, pc);
}
void store(volatile void * a, int mo, void * pc) {
	Guard g;
	Sync & s = sync((void *) a);
	s.vc.clear();
	if (rel(mo)) s.vc = me->vc; else if (me->hasRelFence) s.vc = me->relFence;
	tick();
	touch(s, 52, pc);
}
void rmw(volatile void * a, int mo, void * pc) {
	Guard g;
	Sync & s = sync((void *) a);
	if (acq(mo)) me->vc.join(s.vc); else me->acqPending.join(s.vc);
	if (rel(mo)) s.vc.join(me->vc); else if (me->hasRelFence) s.vc.join(me->relFence);
	tick();
	touch(s, 53, pc);
}

} // namespace

#define ATOMIC(T, bits) \
extern "C" T __tsan_atomic##bits##_load(const volatile T * a, int mo) { \
	if (!live()) return *a; before((volatile void *) a, sizeof(T), false, RA); T v = *a; load((volatile void *) a, mo, RA); return v; } \
extern "C" void __tsan_atomic##bits##_store(volatile T * a, T v, int mo) { \
	if (!live()) { *a = v; return; } before(a, sizeof(T), true, RA); *a = v; store(a, mo, RA); } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T * a, T v, int mo) { \
	if (!live()) { T o = *a; *a = v; return o; } before(a, sizeof(T), true, RA); T o = *a; *a = v; rmw(a, mo, RA); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T * a, T v, int mo) { \
	if (!live()) { T o = *a; *a = o + v; return o; } before(a, sizeof(T), true, RA); T o = *a; *a = o + v; rmw(a, mo, RA); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T * a, T v, int mo) { \
	if (!live()) { T o = *a; *a = o - v; return o; } before(a, sizeof(T), true, RA); T o = *a; *a = o - v; rmw(a, mo, RA); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T * a, T v, int mo) { \
	if (!live()) { T o = *a; *a = o & v; return o; } before(a, sizeof(T), true, RA); T o = *a; *a = o & v; rmw(a, mo, RA); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T * a, T v, int mo) { \
	if (!live()) { T o = *a; *a = o | v; return o; } before(a, sizeof(T), true, RA); T o = *a; *a = o | v; rmw(a, mo, RA); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T * a, T v, int mo) { \
	if (!live()) { T o = *a; *a = o ^ v; return o; } before(a, sizeof(T), true, RA); T o = *a; *a = o ^ v; rmw(a, mo, RA); return o; } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T * a, T v, int mo) { \
	if (!live()) { T o = *a; *a = ~(o & v); return o; } before(a, sizeof(T), true, RA); T o = *a; *a = ~(o & v); rmw(a, mo, RA); return o; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T * a, T * c, T v, int mo, int fmo) { \
	if (!live()) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	schedulingPoint(); T o = *a; bool ok = o == *c; access((uintptr_t) a, sizeof(T), ok, true, RA); \
	if (ok) { *a = v; rmw(a, mo, RA); return 1; } load(a, fmo, RA); *c = o; return 0; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T * a, T * c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T * a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64) ATOMIC(unsigned __int128, 128)

// ---- The heap: a freed block stays untouched until the execution ends, so that any later use of it is seen.
// Libraries also allocate with malloc and reuse what they free at once: new memory has no past.
extern "C" {
void * __libc_malloc(size_t);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
static void fresh(void * p) { if (p && live() && unjoined > 1) { Guard g; clearRange((uintptr_t) p, std::min<size_t>(malloc_usable_size(p), 8192)); } }
void * malloc(size_t n) { void * p = __libc_malloc(n); fresh(p); return p; }
void * calloc(size_t k, size_t n) { void * p = __libc_calloc(k, n); fresh(p); return p; }
void * realloc(void * old, size_t n) { void * p = __libc_realloc(old, n); if (p != old) fresh(p); return p; }
}
void * operator new(size_t n) {
	void * p = std::malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
// Exceptions live in memory that does not come from operator new.
extern "C" void * __cxa_allocate_exception(size_t n) noexcept {
	static void * (* real)(size_t) = (void * (*)(size_t)) dlsym(RTLD_NEXT, "__cxa_allocate_exception");
	void * p = real(n);
	if (live() && unjoined > 1) { Guard g; clearRange((uintptr_t) p, n); }
	return p;
}
void * operator new[](size_t n) { return operator new(n); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return std::malloc(n ? n : 1); }
void * operator new[](size_t n, const std::nothrow_t & t) noexcept { return operator new(n, t); }

void operator delete(void * p) noexcept {
	if (!p) return;
	if (live()) {
		size_t n = malloc_usable_size(p);
		access((uintptr_t) p, 1, true, false, RA);
		Guard g;
		if (nthreads > 1) {
			uintptr_t a = (uintptr_t) p;
			size_t k = std::min<size_t>(n, 2048);
			for (uintptr_t x = a >> 3; x <= (a + k - 1) >> 3; ++x) if (Gran * s = granule(x, true)) {
				for (int m = 0; m < s->n; ++m) if (s->c[m].tid != me->id && !ordered(s->c[m]) && bnd.races)
					failNow("data race", "thread " + std::to_string(me->id) + " frees memory at " + stackOf(me, RA) + "; thread " + std::to_string(s->c[m].tid) + (s->c[m].write ? " wrote" : " read") + " it unordered at " + symbol(s->c[m].pc));
				s->freed = 1; s->n = 0;
			}
			for (auto i = syncs->begin(); i != syncs->end(); ) if (i->first >= a && i->first < a + n) i = syncs->erase(i); else ++i;
		}
		quarantine->push_back(p);
		return;
	}
	std::free(p);
}
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete(void * p, size_t) noexcept { operator delete(p); }
void operator delete[](void * p, size_t) noexcept { operator delete(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { operator delete(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { operator delete(p); }
