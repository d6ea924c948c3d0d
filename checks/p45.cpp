// P45: a run with worker threads, in every schedule.
#include <boost/core/demangle.hpp>
#include <Balau/Testing/TestRunner.hpp>
#include <map>
#include "vsched.hpp"

typedef std::string S;
using namespace Balau::Testing;
struct Seen { S what; int tid; };
static std::vector<Seen> & seen() { static std::vector<Seen> s; return s; }
static std::vector<S> & reports() { static std::vector<S> s; return s; }
static S & output() { static S s; return s; }
static S plan, setups, teardowns;           // Behaviours of the tests, and of the set-up and tear-down code of the groups.
static int split;                            // The tests from this one on belong to the second group.

static void record(const S & what) { vs::point(); vs::Quiet q; seen().push_back({ what, vs::tid() }); vs::event(vk::hash(what)); }
static void behave(char b) {
	switch (b) {
		case 'f': AssertThat(1, is(2)); break;
		case 't': throw std::runtime_error("thrown");
		case 'i': throw 5;
		default: break;
	}
}
template <int G> struct Group : TestGroup<Group<G>> {
	Group() { add(std::make_integer_sequence<int, 4>()); }
	template <int ... I> void add(std::integer_sequence<int, I ...>) { (..., one<I>()); }
	template <int I> void one() { if (I < (int) plan.size() && (I >= split) == (G == 1)) this->registerTestCase(&Group::test<I>, "t" + std::to_string(I)); }
	template <int I> void test() {
		record("r" + std::to_string(I));
		if (plan[I] == 'g') this->ignore();
		if (plan[I] == 'o') this->logLine("<line " + std::to_string(I) + ">");
		behave(plan[I]);
		vs::point();
	}
	void setup() override { record("S" + std::to_string(G)); behave(setups[G]); }
	void teardown() override { record("D" + std::to_string(G)); behave(teardowns[G]); }
};
struct Collector : Impl::TestReportGenerator {
	void generate(const Impl::TestGroupBase &, const std::chrono::nanoseconds &, const std::vector<const Impl::TestResult *> & results) override {
		vs::Quiet q;
		S r;
		for (auto * t : results) {
			using R = Impl::TestResult::Result;
			r += t->testName.substr(t->testName.rfind(':') + 1) + (t->result == R::Success ? 'S' : t->result == R::Failure ? 'F' : t->result == R::Error ? 'E' : 'I') + " ";
		}
		reports().push_back(r);
	}
};
// (A writer that may be used by several threads.)
struct Text : TestWriter {
	void writeString(const S & s) override { vs::point(); vs::Quiet q; output() += s; }
	std::unique_ptr<TestWriter> clone() const override { return std::unique_ptr<TestWriter>(new Text()); }
};

static char worse(char a, char b) { return S("SIFE").find(a) > S("SIFE").find(b) ? a : b; }
static char resultOf(int i) {
	auto of = [] (char b) { return b == 'f' ? 'F' : b == 't' || b == 'i' ? 'E' : 'S'; };
	int g = i >= split;
	char r = of(setups[g]);
	if (r == 'S') r = plan[i] == 'g' ? 'I' : of(plan[i]);
	char d = of(teardowns[g]);
	return d == 'S' ? r : worse(r, d);
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	bool deep = ctx.thorough();
	auto explore = [&] (const S & tests, int workers, int preemptions, int second = 9, const S & up = "pp", const S & down = "pp") {
		vs::Bounds b;
		b.isolate = true; b.split = true; b.maxSteps = 200000; b.preemptions = preemptions; b.timeouts = 0;
		plan = tests; setups = up; teardowns = down; split = second;
		vs::explore(ctx, "tests " + tests + " by " + std::to_string(workers) + " workers" + (second < 9 ? ", from number " + std::to_string(second) + " in another group" : "") + ", set-up " + up + ", tear-down " + down, b, [=] {
			plan = tests; setups = up; teardowns = down; split = second;
			new Group<0>(); if (second < 9) new Group<1>();
			S model = "WorkerThreads", number = std::to_string(workers), name = "runner", e = "-e", c = "-c";
			char * args[] = { &name[0], &e[0], &model[0], &c[0], &number[0], nullptr };
			int rc = TestRunner::run(5, args, true, std::make_shared<Collector>(), Text());
			vs::Quiet q;
			S all;
			for (auto & x : seen()) all += x.what + "(" + std::to_string(x.tid) + ") ";
			for (auto & r : reports()) all += "| " + r;
			all += "| " + std::to_string(rc);
			auto expect = [&] (bool ok, const S & key) { if (!ok) vs::fail(key, all + "\n" + output()); };
			// What each thread did is a sequence of set-up, test, tear-down.
			std::map<int, std::vector<S>> by;
			std::map<S, int> count;
			for (auto & x : seen()) { by[x.tid].push_back(x.what); ++count[x.what]; }
			bool fails = false;
			S want[2];
			for (int i = 0; i < (int) tests.size(); ++i) {
				S g = std::to_string((int) (i >= second));
				bool runs = up[i >= second] == 'p' || up[i >= second] == 'o';
				expect(count["r" + std::to_string(i)] == (runs ? 1 : 0), "times run");
				char r = resultOf(i);
				fails |= r == 'F' || r == 'E';
				want[i >= second] += "t" + std::to_string(i) + r + " ";
				// In the text each test is reported once.
				S line = "::t" + std::to_string(i);
				size_t n = 0;
				for (size_t at = 0; (at = output().find("- Test ", at)) != S::npos; ++at) { auto end = output().find_first_of(" \n", at + 7); S w = output().substr(at + 7, end - at - 7); n += w.size() > line.size() && w.substr(w.size() - line.size()) == line; }
				expect(n >= 1, "text");
				S logged = "<line " + std::to_string(i) + ">";
				auto at = output().find(logged);
				expect((at != S::npos) == (tests[i] == 'o') && (at == S::npos || output().find(logged, at + 1) == S::npos), "line of a test");
			}
			for (int g = 0; g < 2; ++g) {
				int tests1 = 0;
				for (int i = 0; i < (int) tests.size(); ++i) tests1 += (i >= second) == (g == 1);
				expect(count["S" + std::to_string(g)] == tests1, "times set up");
			}
			for (auto & t : by) {
				S s; for (auto & x : t.second) s += x[0];
				for (size_t i = 0; i < s.size();) {
					expect(s[i] == 'S', "order within a thread");
					++i;
					int g = t.second[i - 1][1] - '0';
					if (i < s.size() && s[i] == 'r') { expect((atoi(t.second[i].c_str() + 1) >= second) == (g == 1), "order within a thread"); ++i; }
					if (i < s.size() && s[i] == 'D') { expect(t.second[i][1] - '0' == g, "order within a thread"); ++i; }
				}
			}
			expect((int) by.size() <= workers, "threads");
			std::multiset<S> got(reports().begin(), reports().end()), wanted;
			for (auto & w : want) if (!w.empty()) wanted.insert(w);
			expect(got == wanted, "report");
			expect(rc == (fails ? 1 : 0), "verdict");
			vs::outcome(all);
		}, [] (const std::vector<vs::Blocked> &) { return S("the run does not end"); });
	};
	const S kinds = "pftg";
	// One, two and three tests of every behaviour.
	for (char a : kinds) explore(S(1, a), 2, deep ? 3 : 2);
	for (char a : kinds) for (char b : kinds) explore(S() + a + b, 2, deep ? 3 : 2);
	for (S t : { "ppp", "fpt", "gpp", "pgp", "ptf", "fff", "opo" }) explore(t, 2, deep ? 2 : 1);
	for (S t : { "pp", "fg", "gp", "ff" }) explore(t, 3, deep ? 2 : 1);
	explore("pfp", 3, deep ? 1 : 0);
	explore("og", 2, deep ? 2 : 1, 1);
	explore("fp", 2, deep ? 2 : 1, 1);
	explore("ptg", 2, deep ? 2 : 1, 1);
	// Set-up and tear-down that fail.
	for (S u : { "fp", "pt", "tt" }) explore("pp", 2, deep ? 2 : 1, 1, u, "pp");
	for (S d : { "fp", "pt", "ii" }) explore("pf", 2, deep ? 2 : 1, 1, "pp", d);
	return ctx.finish();
}
