// P26: the test runner selects exactly the tests its patterns match.
#include "runner.hpp"

using namespace Run;

static bool matches(const char * p, const char * t) {
	if (!*p) return !*t;
	if (*p == '*') return matches(p + 1, t) || (*t && matches(p, t + 1));
	return *t && (*p == '?' || *p == *t) && matches(p + 1, t + 1);
}

static vk::Ctx * C;

static void select(const std::vector<Test> & tests, const std::vector<S> & patterns, std::vector<S> args, bool namespaces, const char * model = nullptr) {
	auto text = [&] {
		S s = "tests:";
		for (auto & t : tests) s += ' ' + vk::q(fullName(t, namespaces));
		s += "; arguments:";
		for (auto & a : args) s += ' ' + vk::q(a);
		return s + (namespaces ? " with namespaces" : "") + (model ? S(" in ") + model : S());
	};
	if (!C->begin(text)) return;
	Plan p;
	p.tests = tests;
	if (namespaces) p.args.push_back("-n");
	if (model) { p.args.push_back("-e"); p.args.push_back(model); p.args.push_back("-c"); p.args.push_back("2"); }
	p.args.insert(p.args.end(), args.begin(), args.end());
	auto o = execute(*C, p);
	auto d = [&] { return describe(o) + "; log: " + vk::q(o.log.substr(0, 300)); };
	C->check(o.ended, "hang", d);
	C->check(o.rc == 0, "exit", d);
	std::vector<S> want[3];
	std::map<S, unsigned> events;
	size_t n = 0;
	for (size_t i = 0; i < tests.size(); ++i) {
		S name = fullName(tests[i], namespaces);
		bool hit = patterns.empty();
		for (auto & pat : patterns) hit = hit || matches(pat.c_str(), name.c_str());
		if (!hit) continue;
		want[tests[i].group].push_back(name);
		++events["r" + std::to_string(i)]; ++events["S" + std::to_string(tests[i].group)]; ++events["D" + std::to_string(tests[i].group)];
		++n;
	}
	std::vector<S> got[3];
	for (auto & r : o.reported) {
		int g = -1;
		for (int k = 0; k < 3; ++k) if (!r.first.compare(0, S(groupName(k, namespaces)).size() + 2, S(groupName(k, namespaces)) + "::")) g = k;
		C->check(g >= 0 && r.second == 'S', "result", d);
		if (g >= 0) got[g].push_back(r.first);
	}
	for (int g = 0; g < 3; ++g) C->check(got[g] == want[g], "selection", d);
	C->check(o.counts() == events, "run", d);
	// Set-up, test and tear-down follow each other in the same thread, for one test at a time.
	std::map<int, std::vector<S>> byThread;
	for (auto & e : o.events) byThread[e.second].push_back(e.first);
	for (auto & t : byThread) {
		bool ok = t.second.size() % 3 == 0;
		for (size_t i = 0; ok && i < t.second.size(); i += 3) {
			S s = t.second[i], r = t.second[i + 1], e = t.second[i + 2];
			ok = s[0] == 'S' && r[0] == 'r' && e[0] == 'D' && s.substr(1) == e.substr(1) && std::to_string(tests[(size_t) std::stoi(r.substr(1))].group) == s.substr(1);
		}
		C->check(ok, "around", d);
	}
	// In the single threaded model, the tests of a group run in registration order, one group after another.
	if (!model) {
		std::map<int, int> last;
		int group = -1;
		std::set<int> done;
		bool ok = true;
		for (auto & e : o.events) if (e.first[0] == 'r') {
			int i = std::stoi(e.first.substr(1)), g = tests[(size_t) i].group;
			if (g != group) { ok = ok && !done.count(g); done.insert(g); group = g; }
			ok = ok && (!last.count(g) || last[g] < i);
			last[g] = i;
		}
		C->check(ok, "order", d);
	}
	C->state(n);
	S k; for (auto & w : want) for (auto & x : w) k += x + '|';
	C->nontrivial(vk::hash(k));
	++C->traces;
	C->transitions += o.events.size();
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv); C = &ctx;
	bool deep = ctx.thorough();
	const std::vector<Test> names { { 0, "a", 'p' }, { 0, "ab", 'p' }, { 1, "a", 'p' }, { 0, "b", 'p' }, { 2, "aab", 'p' }, { 1, "ba", 'p' }, { 2, "b", 'p' }, { 0, "a", 'p' } };
	const std::vector<Test> odd { { 0, "a.b", 'p' }, { 0, "a+b", 'p' }, { 0, "axb", 'p' }, { 0, "aab", 'p' }, { 1, "a(1)", 'p' }, { 1, "a[0]", 'p' }, { 1, "a0", 'p' }, { 2, "a|b", 'p' }, { 2, "a^", 'p' }, { 2, "a$b", 'p' }, { 2, "a\\b", 'p' }, { 2, "{a}", 'p' } };
	// No pattern.
	for (auto & t : { names, odd }) for (bool ns : { false, true }) for (const char * m : { (const char *) nullptr, "SingleThreaded", "singlethreaded", "WorkerThreads", "WorkerProcesses", "ProcessPerTest" }) select(t, {}, {}, ns, m);
	// Every set of tests over two names and three groups.
	for (unsigned mask = 0; mask < 64; ++mask) {
		std::vector<Test> t;
		for (unsigned i = 0; i < 6; ++i) if (mask >> i & 1) t.push_back({ (int) (i % 3), i < 3 ? "a" : "b", 'p' });
		for (auto & pat : std::vector<S> { "*", "Alp*", "Alp::*", "*::a", "Beta::b" }) select(t, { pat }, { pat }, false);
	}
	// All patterns of a few characters, as a whole and behind a group's name.
	std::vector<S> bodies { "" }, wholes;
	for (size_t from = 0, len = 0; len < (deep ? 5u : 4u); ++len) {
		size_t to = bodies.size();
		for (; from < to; ++from) for (char c : S("ab*?")) bodies.push_back(bodies[from] + c);
	}
	for (auto & b : bodies) {
		for (auto & g : std::vector<S> { "Alpha::", "Alp::", "Alp*::", "*::", "?????::", "Al?*::", "*" }) { select(names, { g + b }, { g + b }, false); }
		if (!b.empty()) select(names, { b }, { b }, false);
	}
	for (size_t i = 0; i < bodies.size(); i += deep ? 1 : 7) for (auto & g : std::vector<S> { "Run::Alpha::", "Run::*::", "*::Beta::", "Alpha::", "*::" }) select(names, { g + bodies[i] }, { g + bodies[i] }, true);
	// Characters that mean something in regular expressions stand for themselves.
	for (auto & b : std::vector<S> { "a.b", "a+b", "a?b", "a.", "a(1)", "a[0]", "a(*", "a[*", "*)", "*]", "(", "[", "a|b", "a^", "a$b", "a\\b", "*\\*", "{a}", "a{2}b", "a+", ".*", ".", "^*", "*$", "*$*", "a[0-9]", "a|a0" })
		for (auto & g : std::vector<S> { "*::", "Alpha::", "Beta::", "Alp::" }) select(odd, { g + b }, { g + b }, false);
	// Lists of patterns, separated by blanks and commas, in one argument and in several.
	std::vector<S> some { "Alpha::a", "Alpha::*", "Alp::*", "*::b", "*a", "Beta::?ab", "nothing", "A*", "*::??" };
	for (auto & x : some) for (auto & y : some) {
		for (auto & sep : std::vector<S> { ",", " ", ", ", " , ", "  " }) select(names, { x, y }, { x + sep + y }, false);
		select(names, { x, y }, { x, y }, false);
	}
	for (auto & x : some) for (auto & y : some) for (auto & z : some) {
		if (!deep && (&x - &some[0] + &y - &some[0] + &z - &some[0]) % 3) continue;
		select(names, { x, y, z }, { x + "," + y + " " + z }, false);
		select(names, { x, y, z }, { x, y + "," + z }, false);
	}
	for (auto & x : some) for (const char * m : { "WorkerThreads", "WorkerProcesses", "ProcessPerTest" }) select(names, { x, "Alp::ba" }, { x, "Alp::ba" }, false, m);
	return ctx.finish();
}
