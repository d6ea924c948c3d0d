// P37: scope exit actions under every sequence of calls and every way of leaving the scope.
#include <exception>
#include <Balau/Type/OnScopeExit.hpp>
#include <Balau/Type/MovableOnScopeExit.hpp>
#include <stdexcept>
#include "vk.hpp"
using namespace vk;
using S = std::string;
Ctx * C;
struct Leave {};

template <class F> void run(const S & how, const S & want, F body) {
	S got; bool alive = true;
	body(got);
	alive = false; (void) alive;
	C->check(got == want, "scopeExit", [&] { return how + ": performed " + q(got) + ", expected " + q(want); });
	C->nontrivial(hash(how)); ++C->traces;
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	const size_t depth = ctx.thorough() ? 9 : 7;
	// c: clear, e: execute now, r: set another action. Exits: 0 end of scope, 1 exception, 2 return from within, 3 scope within the handling of another exception.
	const S alphabet = "cer";
	std::vector<S> all = { "" };
	for (size_t from = 0, len = 0; len < depth; ++len) { size_t to = all.size(); for (size_t i = from; i < to; ++i) for (char c : alphabet) all.push_back(all[i] + c); from = to; }
	for (auto & seq : all) for (int exit = 0; exit < 4; ++exit) {
		S how = "OnScopeExit: " + seq + " leaving by " + std::to_string(exit);
		if (!ctx.begin([&] { return how; })) continue;
		S want; char set = 'a', next = 'b';
		for (char c : seq) { if (c == 'c') set = 0; else if (c == 'r') set = next++; else { if (set) want += set; set = 0; } want += '.'; ++ctx.transitions; }
		want += '|'; if (set) want += set;
		run(how, want, [&] (S & log) {
			auto scope = [&] {
				Balau::OnScopeExit x([&log] { log += 'a'; });
				char n = 'b';
				for (char c : seq) { if (c == 'c') x.clear(); else if (c == 'e') x.executeNow(); else { x.rest([&log, n] { log += n; }); ++n; } log += '.'; }
				log += '|';
				if (exit == 1 || exit == 3) throw Leave();
				if (exit == 2) return;
			};
			if (exit == 3) { try { throw std::runtime_error("outer"); } catch (const std::runtime_error &) { try { scope(); } catch (const Leave &) {} } }
			else { try { scope(); } catch (const Leave &) {} }
		});
		ctx.state(hash(S(1, set)) + (uint64_t) exit);
	}
	// The movable version: c, e, m: moved to a new object, f: moved into a function that ends.
	all = { "" };
	const S alphabet2 = "cemf";
	for (size_t from = 0, len = 0; len < depth - 1; ++len) { size_t to = all.size(); for (size_t i = from; i < to; ++i) { if (all[i].find('f') != S::npos) continue; for (char c : alphabet2) all.push_back(all[i] + c); } from = to; }
	for (auto & seq : all) for (int exit = 0; exit < 2; ++exit) {
		S how = "MovableOnScopeExit: " + seq + " leaving by " + std::to_string(exit);
		if (!ctx.begin([&] { return how; })) continue;
		S want; bool set = true;
		for (char c : seq) { if (c == 'c') set = false; else if (c == 'e') { if (set) want += 'a'; set = false; } else if (c == 'f') { if (set) want += 'a'; set = false; } want += '.'; ++ctx.transitions; }
		want += '|'; if (set) want += 'a';
		run(how, want, [&] (S & log) {
			try {
				auto make = [&] { Balau::MovableOnScopeExit inner([&log] { log += 'a'; }); return inner; };
				auto x = std::make_unique<Balau::MovableOnScopeExit>(make());
				for (char c : seq) {
					if (c == 'c') x->clear(); else if (c == 'e') x->executeNow();
					else if (c == 'm') { auto y = std::make_unique<Balau::MovableOnScopeExit>(std::move(*x)); x = std::move(y); }
					else { [] (Balau::MovableOnScopeExit) {}(std::move(*x)); }
					log += '.';
				}
				log += '|';
				if (exit == 1) throw Leave();
			} catch (const Leave &) {}
		});
		ctx.state(100 + (uint64_t) set * 2 + (uint64_t) exit);
	}
	return ctx.finish();
}
