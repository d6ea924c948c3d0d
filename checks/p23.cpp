// Child processes: every way to end, seen through every sequence of waiting, checking and terminating calls of a bounded length.
#include <csignal>
#include <ctime>
#include <set>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <Balau/Concurrent/Fork.hpp>
#include "vk.hpp"

using Balau::Concurrent::Fork;
typedef std::string S;

// The code under test sends signals: only children of this process may get one.
std::set<pid_t> children;
std::vector<S> strays;
static int realKill(pid_t p, int s) { return (int) syscall(SYS_kill, p, s); }
extern "C" int kill(pid_t p, int s) noexcept {
	if (children.count(p)) return realKill(p, s);
	strays.push_back("signal " + std::to_string(s) + " to " + std::to_string(p));
	errno = ESRCH;
	return -1;
}

// With `dumps` on, the system writes core files (as far as callers can see).
bool dumps = false;
static bool dumping(int s) { for (int d : { 3, 4, 5, 6, 7, 8, 11, 24, 25, 31 }) if (d == s) return true; return false; }
extern "C" int waitid(idtype_t t, id_t id, siginfo_t * i, int options) {
	int r = (int) syscall(SYS_waitid, t, id, i, options, nullptr);
	if (!r && i && dumps && i->si_pid && i->si_code == CLD_KILLED && dumping(i->si_status)) i->si_code = CLD_DUMPED;
	return r;
}

struct End { int kind; int value; };   // 0: the function returns value, 1: exit(value), 2: signal value, 3: the function throws
S endText(const End & e) { const char * k[] = { "returns ", "exits with ", "gets signal ", "throws " }; return k[e.kind] + std::to_string(e.value); }

struct Child {
	End end;
	pid_t pid = 0;
	int release = -1, ran = -1;
	enum { RUNNING, STOPPED, ENDED, REAPED } state = RUNNING;
	int code = 0, status = 0;   // When it has ended.
	int runs = 0;

	// variant 0: performFork(f, true), 1: performFork(f, false), 2: performFork(f)
	void start(End e, int variant) {
		end = e;
		int go[2], ran_[2];
		if (pipe(go) || pipe(ran_)) abort();
		auto f = [&] () -> int {
			close(go[1]);
			char c = 'r';
			if (write(ran_[1], &c, 1) != 1) _exit(201);
			if (read(go[0], &c, 1) != 1) _exit(202);
			alarm(0);
			if (e.kind == 1) _exit(e.value);
			if (e.kind == 2) { signal(e.value, SIG_DFL); realKill(getpid(), e.value); for (;;) pause(); }
			if (e.kind == 3) throw std::runtime_error("thrown by the function");
			return e.value;
		};
		pid_t parent = getpid();
		int r = -1; bool threw = false;
		try { r = variant == 2 ? Fork::performFork(std::function<int ()>(f)) : Fork::performFork(f, variant == 0); } catch (const std::runtime_error &) { threw = true; }
		if (getpid() != parent) {   // The child came back.
			if (threw) _exit(77);
			if (variant == 0) _exit(203);
			_exit(variant == 2 ? (r == 0 ? 55 : 204) : (r == e.value ? 56 : 205));
		}
		pid = r;
		children.insert(pid);
		release = go[1]; ran = ran_[0];
		close(go[0]); close(ran_[1]);
		char c;
		if (read(ran, &c, 1) != 1) runs = -1;   // It runs now.
		code = CLD_EXITED;
		switch (e.kind) {
			case 0: status = variant == 0 ? e.value & 255 : variant == 1 ? 56 : 55; break;
			case 1: status = e.value & 255; break;
			case 2: code = CLD_KILLED; status = e.value; break;
			case 3: status = 77; break;
		}
	}
	bool awaitEnd() {   // Without reaping.
		for (int m = 0; m < 5000; ++m) {
			siginfo_t i; memset(&i, 0, sizeof i);
			if (waitid(P_PID, (id_t) pid, &i, WEXITED | WNOHANG | WNOWAIT) == -1) return errno == ECHILD;
			if (i.si_pid) return true;
			usleep(m < 100 ? 100 : 1000);
		}
		return false;
	}
	void finish() {
		if (pid > 0) {
			close(release);
			if (state != REAPED) { realKill(pid, SIGKILL); waitpid(pid, nullptr, 0); }
			char c; runs = 1;
			while (read(ran, &c, 1) == 1) ++runs;
			close(ran);
			children.erase(pid);
		}
		pid = 0;
	}
};

S text(const Fork::TerminationReport & r) { return "(" + std::to_string(r.pid) + " " + std::to_string(r.code) + " " + std::to_string(r.exitStatus) + ")"; }

struct World {
	vk::Ctx & ctx;
	std::vector<Child> cs;
	S seq;
	S name;
	int failures = 0;
	void bad(const S & key, const S & what) { ++failures; ctx.violation(key, name + ":" + seq + ": " + what); }
	bool same(const Fork::TerminationReport & r, const Child & c) {
		// Whether a core was dumped is up to the system.
		int code = r.code == CLD_DUMPED && c.code == CLD_KILLED ? CLD_KILLED : r.code;
		return r.pid == c.pid && code == c.code && r.exitStatus == c.status;
	}
	bool empty(const Fork::TerminationReport & r) { return r.pid == 0 && r.code == 0 && r.exitStatus == 0; }

	// Letters: E lets the child end, S stops it, G continues it, W waits, C checks, V checks all, T terminates.
	bool allowed(char c, int k) {
		Child & x = cs[(size_t) k];
		switch (c) {
			case 'E': return x.state == Child::RUNNING;
			case 'S': return x.state == Child::RUNNING;
			case 'G': return x.state == Child::STOPPED;
			case 'W': return x.state == Child::ENDED || x.state == Child::REAPED;   // It would wait for ever otherwise.
			case 'V': for (auto & y : cs) if (y.state == Child::REAPED) return false; return k == 0;
			default: return true;
		}
	}
	void perform(char c, int k) {
		Child & x = cs[(size_t) k];
		++ctx.transitions;
		seq += S(" ") + c + (cs.size() > 1 ? std::to_string(k) : "");
		auto single = [&] (auto call) {
			try {
				Fork::TerminationReport r = call();
				if (x.state == Child::REAPED) bad("a report after the report", text(r));
				else if (x.state == Child::ENDED) { if (!same(r, x)) bad("wrong report", text(r) + " instead of (pid " + std::to_string(x.code) + " " + std::to_string(x.status) + ")"); x.state = Child::REAPED; }
				else if (!empty(r)) bad("a report of a process that has not ended", text(r));
			} catch (const Balau::Exception::WaitException &) {
				if (x.state != Child::REAPED) bad("wait failed", "WaitException");
			}
		};
		switch (c) {
			case 'E': { char b = 'g'; if (write(x.release, &b, 1) != 1) bad("harness", "release"); if (!x.awaitEnd()) bad("the child does not end", endText(x.end)); x.state = Child::ENDED; break; }
			case 'S': realKill(x.pid, SIGSTOP); { siginfo_t i; waitid(P_PID, (id_t) x.pid, &i, WSTOPPED | WNOWAIT); } x.state = Child::STOPPED; break;
			case 'G': realKill(x.pid, SIGCONT); x.state = Child::RUNNING; break;
			case 'W': single([&] { return Fork::waitOnProcess(x.pid); }); break;
			case 'C': single([&] { return Fork::checkForTermination(x.pid); }); break;
			case 'T': {
				auto before = x.state;
				single([&] { return Fork::terminateProcess(x.pid); });
				if (before == Child::RUNNING || before == Child::STOPPED) {
					if (!x.awaitEnd()) { bad("a running child is not terminated", ""); return; }
					x.state = Child::ENDED; x.code = CLD_KILLED;
					// Whichever signal does it.
					siginfo_t i; memset(&i, 0, sizeof i);
					waitid(P_PID, (id_t) x.pid, &i, WEXITED | WNOHANG | WNOWAIT);
					x.status = i.si_status; x.code = i.si_code == CLD_DUMPED ? CLD_KILLED : i.si_code;
				}
				break;
			}
			case 'V': {
				std::vector<int> pids;
				for (auto & y : cs) { pids.push_back(y.pid); pids.push_back(0); pids.push_back(-5); }
				try {
					auto rs = Fork::checkForTermination(pids);
					size_t at = 0;
					S all; for (auto & r : rs) all += text(r);
					for (auto & y : cs) if (y.state == Child::ENDED) {
						if (at >= rs.size() || !same(rs[at], y)) bad("wrong reports", all);
						++at; y.state = Child::REAPED;
					}
					if (at != rs.size()) bad("too many reports", all);
				} catch (const Balau::Exception::WaitException &) { bad("wait failed", "WaitException from the list"); }
				break;
			}
		}
	}
	void start(const std::vector<End> & ends, int variant) {
		seq.clear(); cs.clear(); cs.resize(ends.size());
		for (size_t m = 0; m < ends.size(); ++m) cs[m].start(ends[m], variant);
	}
	void finish() {
		for (auto & c : cs) { c.finish(); if (c.runs != 1) bad("the function ran " + std::to_string(c.runs) + " times", ""); }
		for (auto & s : strays) bad("stray signal", s);
		strays.clear();
	}
	void explore(const std::vector<End> & ends, int variant, const S & letters, size_t depth, std::vector<std::pair<char, int>> prefix = {}) {
		name = "variant " + std::to_string(variant);
		for (auto & e : ends) name += ", " + endText(e);
		std::vector<std::pair<char, int>> path = prefix;
		std::function<void ()> rec = [&] {
			std::vector<std::pair<char, int>> more;
			if (failures > 5) return;
			start(ends, variant);
			bool ok = true;
			for (auto & p : path) { if (!allowed(p.first, p.second)) { ok = false; break; } perform(p.first, p.second); }
			if (ok) {
				++ctx.traces; ctx.beat(); ctx.nontrivial(vk::hash(name + seq));
				if (path.size() < depth) for (char c : letters) for (int k = 0; k < (int) cs.size(); ++k) if (allowed(c, k)) more.push_back({ c, k });
			}
			finish();
			for (auto & p : more) { path.push_back(p); rec(); path.pop_back(); }
		};
		rec();
	}
};

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	signal(SIGPIPE, SIG_IGN);
	rlimit none { 0, 0 };
	setrlimit(RLIMIT_CORE, &none);
	bool deep = ctx.thorough();
	World w { ctx, {}, "", "", 0 };

	// Every return value, exit code and signal, seen by each call.
	std::vector<End> ends;
	for (int v = 0; v < 256; ++v) ends.push_back({ 0, v });
	for (int v : { -1, -128, 256, 257, 511, 65535, 0x7fffffff, (int) 0x80000000 }) ends.push_back({ 0, v });
	for (int v = 0; v < 256; v += deep ? 1 : 17) ends.push_back({ 1, v });
	for (int v : { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31 }) ends.push_back({ 2, v });
	if (deep) for (int v = 34; v <= 64; ++v) ends.push_back({ 2, v });
	ends.push_back({ 3, 0 });
	for (auto & e : ends) {
		if (!ctx.begin([&] { return "the child " + endText(e); })) continue;
		for (int variant = 0; variant < 4; ++variant) {
			dumps = variant == 3;
			if (dumps && (e.kind != 2 || !dumping(e.value))) continue;
			if (variant && !dumps && e.kind != 0 && e.value % 5) continue;
			for (const char * s : { "EW", "CEC", "EV", "ET", "EWC" }) {
				if (variant && !dumps && (s[0] == 'C' || s[2])) continue;
				w.name = (dumps ? S("with a core file") : "variant " + std::to_string(variant)) + ", " + endText(e);
				w.start({ e }, dumps ? 0 : variant);
				for (const char * p = s; *p; ++p) w.perform(*p, 0);
				w.finish();
				++ctx.traces; ctx.nontrivial(vk::hash(w.name + s));
			}
		}
	}
	dumps = false;
	// All sequences of calls about one child.
	for (End e : { End { 0, 7 }, End { 0, 0 }, End { 1, 3 }, End { 2, SIGTERM }, End { 2, SIGSEGV } }) for (char first : S("ESWCVT")) {
		if (!ctx.begin([&] { return "sequences of calls beginning with " + S(1, first) + ", the child " + endText(e); })) continue;
		dumps = e.value == SIGSEGV;
		w.explore({ e }, 0, "ESGWCVT", deep ? 7 : 5, { { first, 0 } });
		dumps = false;
	}
	// And about two and three.
	for (int first = 0; first < 2; ++first) for (char l : S("ESCVT")) {
		if (!ctx.begin([&] { return "sequences of calls about two children beginning with " + S(1, l) + " of " + std::to_string(first); })) continue;
		w.explore({ { 0, 7 }, { 2, SIGKILL } }, 0, "ECVTW", deep ? 6 : 4, { { l, first } });
	}
	for (int which = 0; which < 8; ++which) {
		if (!ctx.begin([&] { return "three children, of which those of set " + std::to_string(which) + " have ended"; })) continue;
		w.name = "three children";
		w.start({ { 0, 1 }, { 1, 2 }, { 2, 15 } }, 0);
		for (int k = 0; k < 3; ++k) if (which >> k & 1) w.perform('E', k);
		w.perform('V', 0);
		if (which == 0) { w.perform('T', 1); w.perform('V', 0); }
		for (int k = 0; k < 3; ++k) if (!(which >> k & 1) && w.cs[(size_t) k].state == Child::RUNNING) { w.perform('C', k); w.perform('E', k); w.perform('W', k); }
		w.finish();
		++ctx.traces; ctx.nontrivial(vk::hash("three") + (uint64_t) which);
	}
	// What is no process gets an empty report, and no signal.
	if (ctx.begin([&] { return S("invalid process ids"); })) {
		w.name = "invalid process ids"; w.seq.clear(); w.cs.clear();
		for (int p : { 0, -1, -2, -77, (int) 0x80000000 }) {
			++ctx.traces;
			if (!w.empty(Fork::waitOnProcess(p)) || !w.empty(Fork::checkForTermination(p)) || !w.empty(Fork::terminateProcess(p)) || !Fork::checkForTermination(std::vector<int> { p, p }).empty()) w.bad("report", "a report of process " + std::to_string(p));
		}
		if (!Fork::checkForTermination(std::vector<int> {}).empty()) w.bad("report", "a report of no process");
		w.finish();
	}
	ctx.finish();
	return 0;
}
