// P44: an assertion ends the process exactly when its condition is false; exceptions say what failed and where.
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
#include <boost/core/demangle.hpp>
#include <Balau/Dev/Assert.hpp>
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Exception/ContainerExceptions.hpp>
#include "vk.hpp"
using namespace vk;
using S = std::string;
using Balau::Assert;
Ctx * C;
// Runs f in a child: its standard error, and how it ended (-1: normally).
template <class F> int child(F f, S & err) {
	int p[2]; if (pipe(p)) abort();
	fflush(nullptr);
	pid_t pid = fork();
	if (!pid) { close(p[0]); dup2(p[1], 2); signal(SIGABRT, SIG_DFL); alarm(20); try { f(); } catch (...) { _exit(3); } _exit(0); }
	close(p[1]); char b[4096]; ssize_t n; err.clear();
	while ((n = read(p[0], b, sizeof b)) > 0) err.append(b, (size_t) n);
	close(p[0]);
	int st; waitpid(pid, &st, 0);
	return WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) == 0 ? -1 : 1000 + WEXITSTATUS(st);
}
template <class E> S thrown(const S & text, int & line, S & full) {
	try { line = __LINE__; ThrowBalauException(E, text); } catch (const E & e) { full = e.what(); if (toString(e) != full || e.fullMessage != full) return "what() and toString differ"; return e.message; }
	return "not thrown";
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	std::vector<S> texts; stringsUpTo({ "a", " ", "%s", "\n", "/", "\xc3\xa9", " - " }, ctx.thorough() ? 4 : 3, [&] (const S & t) { texts.push_back(t); });
	texts.push_back(S(5000, 'x'));
	for (int form = 0; form < 7; ++form) for (int value = 0; value < 2; ++value) {
		if (!ctx.begin([&] { return "assertions of form " + std::to_string(form) + ", condition " + (value ? "true" : "false"); })) continue;
		bool v = value; size_t step = form == 2 || form == 5 ? texts.size() : v ? 7 : 3;
		for (size_t k = 0; k < texts.size(); k += step) {
			const S & t = texts[k]; int tests = 0, messages = 0; S err;
			auto test = [&] { ++tests; return v; }; auto msg = [&] { ++messages; return t; };
			int r = child([&] {
				switch (form) {
					case 0: Assert::assertion(v, t.c_str()); break;
					case 1: Assert::assertion(v, msg); break;
					case 2: Assert::assertion(v); break;
					case 3: Assert::assertion(test, t.c_str()); break;
					case 4: Assert::assertion(test, msg); break;
					case 5: Assert::assertion(test); break;
					case 6: if (!v) Assert::fail(t.c_str()); break;
				}
				if ((form >= 3 && form <= 5 && tests != 1) || messages) _exit(9);   // It passed: the condition was evaluated once, the message not.
			}, err);
			S how = "form " + std::to_string(form) + ", condition " + (v ? "true" : "false") + ", message " + q(t);
			if (v && (r != -1 || !err.empty())) ctx.violation("assertion", how + ": ended " + std::to_string(r) + ", printed " + q(err));
			if (!v && r != SIGABRT) ctx.violation("assertion", how + ": the process was not aborted but ended " + std::to_string(r));
			if (!v && step != texts.size() && err.find(t) == S::npos) ctx.violation("assertion", how + ": printed " + q(err));
			++ctx.transitions; ctx.nontrivial(hash(how)); ctx.beat();
		}
	}
	using namespace Balau::Exception;
	if (ctx.begin([] { return S("exceptions"); })) {
		for (auto & t : texts) {
			auto one = [&] (const char * name, auto message, int line, const S & full) {
				S place = "p44.cpp:" + std::to_string(line);
				if (message != S(name) + " - " + t) ctx.violation("message", S(name) + " of " + q(t) + ": " + q(message));
				if (full.compare(0, place.size() + 3, place + " - ") || full.find(message) == S::npos) ctx.violation("what", S(name) + " of " + q(t) + " thrown at " + place + ": " + q(full));
				++ctx.transitions; ctx.nontrivial(hash(name + t));
			};
			int line; S full, m;
			m = thrown<IllegalArgumentException>(t, line, full); one("IllegalArgument", m, line, full);
			m = thrown<IllegalStateException>(t, line, full); one("IllegalState", m, line, full);
			m = thrown<UnsupportedOperationException>(t, line, full); one("UnsupportedOperation", m, line, full);
			m = thrown<NotImplementedException>(t, line, full); one("NotImplemented", m, line, full);
			m = thrown<ConversionException>(t, line, full); one("Conversion", m, line, full);
			m = thrown<BugException>(t, line, full); one("Bug", m, line, full);
			m = thrown<EmptyException>(t, line, full); one("Empty", m, line, full);
			m = thrown<SizeException>(t, line, full); one("Size", m, line, full);
			ctx.beat();
		}
		for (auto & a : texts) for (size_t k = 0; k < texts.size(); k += 5) {
			const S & b = texts[k];
			IllegalStateException x(Balau::SourceCodeLocation("a/b.cpp:1"), "", a), y(Balau::SourceCodeLocation("c.cpp:2"), "", b); IllegalArgumentException z(Balau::SourceCodeLocation("c.cpp:2"), "", a);
			if ((x == y) != (a == b) || x == static_cast<const BalauException &>(z)) ctx.violation("equality", "of exceptions of " + q(a) + " and " + q(b));
			if (S(x.what()) != "b.cpp:1 - IllegalState - " + a) ctx.violation("what", q(x.what()));
			IllegalStateException w("trace", a); if (S(w.what()) != "IllegalState - " + a + "\ntrace") ctx.violation("what", q(w.what()));
			IndexOutOfRangeException i("", a, k), j("", a, k + 1); if (i.index != k || i == j || !(i == i)) ctx.violation("index", q(i.what()));
			++ctx.transitions;
		}
	}
	ctx.finish();
	return 0;
}
