// Runs the test runner in a process of its own on generated test groups, and collects what ran and what was reported.
#pragma once
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <Balau/Testing/TestRunner.hpp>
#include <boost/core/demangle.hpp>
#include <fstream>
#include <map>
#include <thread>
#include "vk.hpp"

namespace Run {

inline double seconds() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec / 1e9; }

using namespace Balau;
using S = std::string;

struct Test { int group; S name; char body; };
struct GroupSpec { char setup = 'p', teardown = 'p'; unsigned models = 15; };

struct Plan {
	std::vector<Test> tests;
	std::vector<GroupSpec> groups = std::vector<GroupSpec>(3);
	std::vector<S> args;         // the command line without the program's name
	std::vector<int> order;      // the order in which the tests' bodies end, when given (needs as many workers as tests)
	unsigned runs = 1;           // how often the runner is run in the same process
};

struct Outcome {
	bool ended = false;
	S end;                                        // how the process ended
	int rc = -1;
	std::vector<std::pair<S, char>> reported;     // test names and results, in the order of the reports
	std::vector<std::pair<S, int>> events;        // what ran ("S0" set-up of group 0, "r3" test 3, "D0" tear-down), and in which thread
	S log;
	std::map<S, unsigned> counts() const { std::map<S, unsigned> m; for (auto & e : events) ++m[e.first]; return m; }
};

inline Plan * plan;
inline int traceFd = -1;
inline std::atomic<int> * turn;

inline void trace(char what, int n) {
	char b[64];
	int len = snprintf(b, sizeof b, "%c%d %d\n", what, n, (int) gettid());
	if (write(traceFd, b, (size_t) len) != len) _exit(97);
}

[[noreturn]] inline void die(int sig) { signal(sig, SIG_DFL); raise(sig); for (;;) pause(); }

inline void behave(char b) {
	using namespace Balau::Testing;
	switch (b) {
		case 'p': case 'g': case 'o': return;
		case 'z': usleep(120000); return;
		case 'f': AssertThat(1, is(2)); return;
		case 'L': AssertFail(S(10000, 'L')); return;
		case 'M': AssertFail(S(600000, 'M')); return;
		case 't': throw std::runtime_error("thrown");
		case 'i': throw 5;
		case 'e': exit(0);
		case 'x': exit(3);
		case 'q': _exit(0);
		case 'a': signal(SIGABRT, SIG_DFL); abort();
		case 'k': die(SIGKILL);
		case 's': die(SIGSEGV);
		case 'T': die(SIGTERM);
		case 'n': signal(SIGABRT, SIG_DFL); std::terminate();
	}
}
inline bool ends(char b) { return S("exqaksTn").find(b) != S::npos; }
// The result that a test of this behaviour has of its own: S success, F failure, E error, I ignored.
inline char resultOf(char b) { return S("poz").find(b) != S::npos ? 'S' : b == 'g' ? 'I' : S("fLM").find(b) != S::npos ? 'F' : 'E'; }

template <typename G> void body(G & group, int n) {
	trace('r', n);
	if (!plan->order.empty()) {
		size_t mine = 0;
		while (plan->order[mine] != n) ++mine;
		for (int i = 0; i < 10000 && turn->load() < (int) mine; ++i) usleep(500);
		turn->store((int) mine + 1);
	}
	char b = plan->tests[(size_t) n].body;
	if (b == 'g') group.ignore();
	if (b == 'o') group.log("a line of the test\n");
	behave(b);
}

#define RUN_GROUP(NAME, INDEX) \
	struct NAME : Balau::Testing::TestGroup<NAME> { \
		NAME() {} \
		explicit NAME(unsigned models) : Balau::Testing::TestGroup<NAME>(models) { add(std::make_integer_sequence<int, 12>()); } \
		template <int ... I> void add(std::integer_sequence<int, I ...>) { (..., (I < (int) plan->tests.size() && plan->tests[I].group == INDEX ? addOne<I>() : void())); \
			for (size_t i = 12; i < plan->tests.size(); ++i) if (plan->tests[i].group == INDEX) registerTestCase(&NAME::more, plan->tests[i].name); } \
		template <int I> void addOne() { registerTestCase(&NAME::test<I>, plan->tests[I].name); } \
		template <int I> void test() { body(*this, I); } \
		void more() { trace('m', 0); behave('p'); } \
		void setup() override { trace('S', INDEX); behave(plan->groups[INDEX].setup); } \
		void teardown() override { trace('D', INDEX); behave(plan->groups[INDEX].teardown); } \
	}

} // namespace Run

namespace Run { RUN_GROUP(Alpha, 0); RUN_GROUP(Alp, 1); }
namespace Run::Inner { RUN_GROUP(Beta, 2); }

namespace Run {

class Collector : public Balau::Testing::Impl::TestReportGenerator {
	S file;
	public: explicit Collector(S f) : file(std::move(f)) {}
	public: void generate(const Balau::Testing::Impl::TestGroupBase & group, const std::chrono::nanoseconds &, const std::vector<const Balau::Testing::Impl::TestResult *> & results) override {
		std::ofstream o(file, std::ios::app);
		for (auto * r : results) {
			char c = '?';
			switch (r->result) {
				case Balau::Testing::Impl::TestResult::Result::Success: c = 'S'; break;
				case Balau::Testing::Impl::TestResult::Result::Failure: c = 'F'; break;
				case Balau::Testing::Impl::TestResult::Result::Error: c = 'E'; break;
				case Balau::Testing::Impl::TestResult::Result::Ignored: c = 'I'; break;
			}
			o << c << r->testName << '\n';
			if (r->testName.compare(0, group.getGroupName().size() + 2, group.getGroupName() + "::")) o << "?" << r->testName << " in group " << group.getGroupName() << '\n';
		}
	}
};

inline const char * groupName(int g, bool namespaces = false) {
	static const char * n[] = { "Alpha", "Alp", "Beta" }, * l[] = { "Run::Alpha", "Run::Alp", "Run::Inner::Beta" };
	return (namespaces ? l : n)[g];
}
inline S fullName(const Test & t, bool namespaces = false) { return S(groupName(t.group, namespaces)) + "::" + t.name; }

inline S slurp(const S & f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

// The limit is far above what any run takes; it only tells a run that does not end.
inline Outcome execute(vk::Ctx & ctx, Plan & p, double limit = 25) {
	static unsigned serial = 0;
	S base = ctx.scratch + "/run" + std::to_string(getpid()) + "_" + std::to_string(serial++);
	S traceFile = base + ".trace", resultFile = base + ".results", logFile = base + ".log";
	plan = &p;
	auto * shared = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	turn = new (shared) std::atomic<int>(0);
	traceFd = open(traceFile.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC | O_CLOEXEC, 0600);
	std::cout.flush(); fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		setpgid(0, 0);
		int fd = open(logFile.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
		dup2(fd, 1); dup2(fd, 2); close(fd);
		// A test that is ended by a signal leaves no core file.
		struct rlimit none { 0, 0 }; setrlimit(RLIMIT_CORE, &none);
		new Alpha(p.groups[0].models); new Alp(p.groups[1].models); new Inner::Beta(p.groups[2].models);
		int rc = 99;
		pid_t me = getpid();
		for (unsigned run = 0; run < p.runs; ++run) {
			std::vector<S> args { "runner" };
			args.insert(args.end(), p.args.begin(), p.args.end());
			std::vector<char *> argv;
			for (auto & a : args) argv.push_back(&a[0]);
			try { rc = Balau::Testing::TestRunner::run((int) argv.size(), argv.data(), true, std::make_shared<Collector>(resultFile)); }
			catch (const std::exception & e) { std::cout << "exception: " << e.what() << std::endl; rc = 98; }
		}
		if (getpid() != me) _exit(96);
		std::cout.flush(); fflush(nullptr);
		_exit(rc);
	}
	setpgid(pid, pid);
	Outcome o;
	double begin = seconds();
	int status = 0;
	for (unsigned spin = 0; ; ++spin) {
		pid_t r = waitpid(pid, &status, WNOHANG);
		if (r == pid) { o.ended = true; break; }
		if (seconds() - begin > limit) break;
		ctx.beat();
		usleep(spin < 50 ? 200 : 2000);
	}
	kill(-pid, SIGKILL);
	if (!o.ended) { waitpid(pid, &status, 0); o.end = "did not end"; }
	else if (WIFEXITED(status)) { o.rc = WEXITSTATUS(status); o.end = "exit code " + std::to_string(o.rc); }
	else o.end = "signal " + std::to_string(WTERMSIG(status));
	close(traceFd);
	{ std::ifstream i(traceFile); S w; int t; while (i >> w >> t) o.events.emplace_back(w, t); }
	{ std::ifstream i(resultFile); S l; while (std::getline(i, l)) if (!l.empty()) o.reported.emplace_back(l.substr(1), l[0]); }
	o.log = slurp(logFile);
	for (auto & f : { traceFile, resultFile, logFile }) unlink(f.c_str());
	munmap(shared, 4096);
	return o;
}

inline S describe(const Outcome & o) {
	S s = o.end + "; reported:";
	for (auto & r : o.reported) { s += ' '; s += r.first; s += '='; s += r.second; if (s.size() > 600) break; }
	s += "; ran:";
	for (auto & e : o.events) { s += ' ' + e.first; if (s.size() > 900) break; }
	return s;
}

} // namespace Run
