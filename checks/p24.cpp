// P24: the test runner reports every selected test once, with its own outcome, and its exit code is right.
#include "runner.hpp"

using namespace Run;

static vk::Ctx * C;
static const char * const models[] = { "SingleThreaded", "WorkerThreads", "WorkerProcesses", "ProcessPerTest" };

static void run(int model, unsigned workers, const std::vector<Test> & tests, std::vector<GroupSpec> groups = std::vector<GroupSpec>(3), std::vector<int> order = {}, unsigned runs = 1) {
	auto text = [&] {
		S s = S(models[model]) + " with " + std::to_string(workers) + " workers; tests:";
		for (size_t i = 0; i < tests.size() && i < 20; ++i) s += ' ' + fullName(tests[i]) + '=' + tests[i].body;
		if (tests.size() > 20) s += " ... " + std::to_string(tests.size());
		for (int g = 0; g < 3; ++g) if (groups[g].setup != 'p' || groups[g].teardown != 'p' || groups[g].models != 15) s += S("; ") + groupName(g) + ": set-up " + groups[g].setup + ", tear-down " + groups[g].teardown + ", models " + std::to_string(groups[g].models);
		if (!order.empty()) { s += "; ending in order"; for (int i : order) s += ' ' + std::to_string(i); }
		if (runs > 1) s += "; run " + std::to_string(runs) + " times";
		return s;
	};
	if (!C->begin(text)) return;
	Plan p;
	p.tests = tests; p.groups = groups; p.order = order; p.runs = runs;
	p.args = { "-e", models[model], "-c", std::to_string(workers) };
	auto o = execute(*C, p, 40);
	auto d = [&] { return describe(o) + "; log ends: " + vk::q(o.log.size() > 1500 ? o.log.substr(o.log.size() - 1500) : o.log); };
	C->check(o.ended, "hang", d);
	if (!o.ended) return;
	C->check(o.rc >= 0, "crash", d);

	// What each test should be reported as.
	std::map<S, S> want, got;
	std::map<S, unsigned> events;
	bool failed = false;
	S counts[4] = { "", "", "", "" };
	unsigned number[4] = { 0, 0, 0, 0 };
	auto index = [] (char c) { return c == 'S' ? 0 : c == 'I' ? 1 : c == 'F' ? 2 : 3; };
	for (size_t i = 0; i < tests.size(); ++i) {
		auto & g = groups[(size_t) tests[i].group];
		bool selected = g.models >> model & 1;
		char b = tests[i].body, r;
		S options;
		if (!selected) r = 'I';
		else {
			bool bodyRuns = g.setup == 'p';
			bool gone = ends(g.setup) || (bodyRuns && ends(b));
			if (ends(g.setup)) r = 'E';
			else if (g.setup != 'p') r = resultOf(g.setup);
			else r = resultOf(b);
			// A failing tear-down turns a success into a failure or an error; which of several reasons is reported is left open.
			if (!gone && g.teardown != 'p') {
				if (ends(g.teardown)) r = 'E';
				else if (r == 'S' || r == 'I') r = resultOf(g.teardown);
				else options = "FE";
			}
			++events["S" + std::to_string(tests[i].group)];
			if (bodyRuns) ++events[i < 12 ? "r" + std::to_string(i) : "m0"];
			// Whether the tear-down follows a set-up that failed is left open.
			if (!gone && g.setup == 'p') ++events["D" + std::to_string(tests[i].group)];
		}
		if (options.empty()) options = S(1, r);
		want[fullName(tests[i])] = options;
		failed = failed || options.find_first_of("FE") != S::npos;
		++number[index(r)];
	}
	bool known = true, once = true, right = true;
	std::map<S, unsigned> seen;
	for (auto & r : o.reported) {
		if (!want.count(r.first)) { known = false; continue; }
		if (++seen[r.first] > runs) once = false;
		if (want[r.first].find(r.second) == S::npos) right = false;
	}
	for (auto & w : want) if (seen[w.first] != runs) once = false;
	C->check(known, "unknown", d);
	C->check(once, "once", d);
	C->check(right, "outcome", d);
	C->check(o.rc == (failed ? 1 : 0), "exitCode", d);
	auto ran = o.counts();
	bool runOnce = true;
	for (auto & e : events) if (ran[e.first] != e.second * runs) runOnce = false;
	for (auto & e : ran) if (e.first[0] != 'D' && e.second != events[e.first] * runs) runOnce = false;
	C->check(runOnce, "ran", d);

	// The log names each test once before the summary, and the summary's numbers are right.
	if (runs == 1) {
		size_t end = o.log.find("COMPLETED TESTS");
		C->check(end != S::npos, "summary", d);
		if (end == S::npos) return;
		S before = o.log.substr(0, end), after = o.log.substr(end);
		bool lines = true;
		for (auto & t : tests) if (tests.size() <= 12) {
			S name = fullName(t);
			unsigned n = 0;
			for (size_t at = before.find(name); at != S::npos; at = before.find(name, at + 1)) { char c = before[at + name.size()]; if (!isalnum((unsigned char) c)) ++n; }
			bool selected = groups[(size_t) t.group].models >> model & 1;
			if (selected ? n != 1 : n > 1) lines = false;
		}
		C->check(lines, "log", d);
		auto figure = [&] (const char * what) { size_t at = after.find(what); return at == S::npos ? -1L : atol(after.c_str() + at + strlen(what)); };
		bool open = false;
		for (auto & w : want) if (w.second.size() > 1) open = true;
		long passed = figure("tests passed:"), ignored = figure("tests ignored:"), failures = figure("tests failed:"), errors = figure("tests errored:");
		bool ok = passed == (long) number[0] && ignored == (long) number[1];
		if (failed && !open) ok = ok && failures == (long) number[2] && errors == (long) number[3];
		if (failed && open) ok = ok && failures + errors == (long) (number[2] + number[3]);
		C->check(ok, "figures", d);
		if (failed) for (auto & w : want) if (w.second.find_first_of("FE") != S::npos) C->check(after.find(w.first) != S::npos, "failedList", d);
	}
	C->state(vk::hash(S(models[model]) + std::to_string(workers) + std::to_string(number[0]) + std::to_string(number[1]) + std::to_string(number[2]) + std::to_string(number[3])));
	C->nontrivial(vk::hash(text()));
	++C->traces;
	C->transitions += o.events.size() + o.reported.size();
}

// All sequences of exactly n of these behaviours.
template <typename F> static void each(const S & alphabet, size_t n, F f, S s = "") {
	if (s.size() == n) { f(s); return; }
	for (char c : alphabet) each(alphabet, n, f, s + c);
}

static std::vector<Test> make(const S & bodies, int split = 99) {
	std::vector<Test> t;
	for (size_t i = 0; i < bodies.size(); ++i) t.push_back({ (int) i < split ? 0 : (int) i < 2 * split ? 1 : 2, "t" + std::to_string(i), bodies[i] });
	return t;
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv); C = &ctx;
	bool deep = ctx.thorough();
	const S tame = "pftigLM", all = "pftigLMexqaksTn";

	// Without isolation.
	for (size_t n = 1; n <= (deep ? 4u : 3u); ++n) each(n < 3 ? tame + "oz" : deep ? "pftig" : "pftg", n, [&] (const S & b) {
		run(0, 1, make(b, n > 1 ? 2 : 99));
		for (unsigned w = 1; w <= 3; ++w) run(1, w, make(b, n > 1 ? 2 : 99));
	});
	// With isolation: what a test does, alone, next to others, with fewer and with more workers.
	for (int m : { 2, 3 }) {
		each(all, 1, [&] (const S & b) { for (unsigned w : { 1u, 2u, 8u }) run(m, w, make(b)); });
		each(deep ? all : "pftgLexaksn", 2, [&] (const S & b) { for (unsigned w = 1; w <= 2; ++w) run(m, w, make(b, b[0] < b[1] ? 1 : 99)); });
		each(deep ? "pfexk" : "pek", 3, [&] (const S & b) { for (unsigned w = 1; w <= (deep ? 3u : 2u); ++w) run(m, w, make(b, 2)); });
		if (deep) each("pek", 4, [&] (const S & b) { for (unsigned w = 1; w <= 3; ++w) run(m, w, make(b, 2)); });
	}
	// Every order in which three concurrent tests end.
	std::vector<int> order { 0, 1, 2 };
	do {
		for (int m : { 1, 2, 3 }) each(m == 1 ? "pft" : deep ? "pfekg" : "pke", 3, [&] (const S & b) { run(m, 3, make(b, 1), std::vector<GroupSpec>(3), order); });
	} while (std::next_permutation(order.begin(), order.end()));
	// Set-up and tear-down that fail or end the process.
	for (int m = 0; m < 4; ++m) each(m < 2 ? "pfti" : deep ? "pftekx" : "pfek", 2, [&] (const S & st) {
		for (char b : S(m < 2 ? "pftg" : "pfk")) {
			std::vector<GroupSpec> g(3);
			g[1].setup = st[0]; g[1].teardown = st[1];
			run(m, m ? 2 : 1, make(S("p") + b + "p", 1), g);
		}
	});
	// Groups that are not for every model.
	for (unsigned mask = 1; mask < 16; ++mask) for (int m = 0; m < 4; ++m) {
		std::vector<GroupSpec> g(3);
		g[1].models = mask;
		run(m, 2, make("pfp", 1), g);
		run(m, 2, make("ppp", 1), g);
		g[0].models = 15 & ~mask;
		if (g[0].models) run(m, 2, make("ftp", 1), g);
	}
	// More tests than the queue of results holds.
	for (int m = 0; m < 4; ++m) for (unsigned w : { m == 3 ? 3u : 1u, 4u }) {
		run(m, w, make(S(m == 3 && !deep ? 140 : 300, 'p')));
		run(m, w, make("LMpf" + S(m == 3 && !deep ? 60 : 200, 'p'), 100));
		if (m > 1) run(m, w, make("kepk" + S(m == 3 && !deep ? 60 : 150, 'p'), 100));
	}
	// No tests at all, and more than one run in a process.
	for (int m = 0; m < 4; ++m) {
		run(m, 2, {});
		for (const char * b : { "p", "pf", "pp" }) run(m, 2, make(b), std::vector<GroupSpec>(3), {}, 2);
		if (m > 1) run(m, 2, make("kpe"), std::vector<GroupSpec>(3), {}, 2);
	}
	return ctx.finish();
}
