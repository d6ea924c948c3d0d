// Lazy value and single time executor: the code runs once whatever the schedule, everyone sees its effect, the matching
// destruction code runs exactly when the code has run, and a construction that throws leaves the next caller to try again.
#include <stdexcept>
#include <thread>
#include <Balau/Concurrent/LazyValue.hpp>
#include <Balau/Concurrent/SingleTimeExecutor.hpp>
#include "vsched.hpp"

using namespace Balau::Concurrent;

struct Payload { long a = 0, b = 0; };

void lazy(vk::Ctx & ctx, unsigned threads, unsigned uses, int throwing, bool destruct, bool garbage, vs::Bounds b) {
	std::string name = "lazy value: " + std::to_string(threads) + " threads, " + std::to_string(uses) + " uses each, first " + std::to_string(throwing) + " constructions throw" + (destruct ? ", destructor code" : "");
	vs::explore(ctx, name, b, [&] {
		int destructed = 0, tried = 0, constructed = 0, threw = 0, got = 0;
		long seen = 0;
		void * mem = operator new(sizeof(LazyValue<Payload>));
		std::memset(mem, garbage ? 0xff : 0, sizeof(LazyValue<Payload>));
		{
			typedef LazyValue<Payload> L;
			L * l = destruct ? new (mem) L([&] (Payload & p) { ++destructed; seen = p.a; }) : new (mem) L();
			if (l->isConstructed()) vs::fail("constructed too early", "");
			auto run = [&] {
				for (unsigned m = 0; m < uses; ++m) {
					try {
						Payload & p = (*l)([&] {
							int mine;
							{ vs::Quiet quiet; mine = ++tried; vs::event(mine); }
							vs::point();
							if (mine <= throwing) throw std::runtime_error("not yet");
							{ vs::Quiet quiet; ++constructed; if (constructed > 1) vs::fail("constructed twice", ""); }
							Payload q; q.a = 40 + mine; q.b = 2;
							return q;
						});
						if (p.a != 41 + throwing || p.b != 2) vs::fail("wrong value", "a user of the value sees " + std::to_string(p.a) + "," + std::to_string(p.b));
						vs::Quiet quiet;
						++got;
					} catch (const std::runtime_error &) { vs::Quiet quiet; ++threw; }
				}
			};
			std::vector<std::thread> ts;
			for (unsigned t = 1; t < threads; ++t) ts.emplace_back(run);
			run();
			for (auto & t : ts) t.join();
			int calls = (int) (threads * uses);
			int wantThrow = std::min(calls, throwing);
			if (threw != wantThrow || got != calls - wantThrow) vs::fail("exceptions", std::to_string(threw) + " calls threw, " + std::to_string(got) + " did not");
			bool want = calls > throwing;
			if (l->isConstructed() != want || constructed != (want ? 1 : 0)) vs::fail("constructed", "constructed " + std::to_string(constructed) + " times");
			{ std::lock_guard<std::mutex> lock(l->getMutex()); }
			l->~L();
			if (destructed != (destruct && want ? 1 : 0) || (destruct && want && seen != 41 + throwing)) vs::fail("destructor code", "ran " + std::to_string(destructed) + " times");
		}
		operator delete(mem);
	});
}

void executor(vk::Ctx & ctx, unsigned threads, unsigned uses, int throwing, int destruct, bool garbage, vs::Bounds b) {
	std::string name = "single time executor: " + std::to_string(threads) + " threads, " + std::to_string(uses) + " uses each, first " + std::to_string(throwing) + " runs throw" + (destruct ? ", destructor code" : "") + (garbage ? ", used memory" : "");
	vs::explore(ctx, name, b, [&] {
		int destructed = 0, tried = 0, threw = 0;
		long effect = 0;
		typedef SingleTimeExecutor S;
		void * mem = operator new(sizeof(S));
		std::memset(mem, garbage ? 0xff : 0, sizeof(S));
		std::function<void ()> code = [&] {
			int mine;
			{ vs::Quiet quiet; mine = ++tried; vs::event(mine); }
			vs::point();
			if (mine <= throwing) throw std::runtime_error("not yet");
			effect += 7;
		};
		S * s = destruct ? new (mem) S(code, [&] { ++destructed; }) : new (mem) S(code);
		if (s->hasExecuted()) vs::fail("executed too early", "");
		auto run = [&] {
			for (unsigned m = 0; m < uses; ++m) {
				try {
					(*s)();
					if (effect != 7) vs::fail("effect", "after a call the code's effect is " + std::to_string(effect) + " instead of 7");
				} catch (const std::runtime_error &) { vs::Quiet quiet; ++threw; }
			}
		};
		std::vector<std::thread> ts;
		for (unsigned t = 1; t < threads; ++t) ts.emplace_back(run);
		if (threads) run();
		for (auto & t : ts) t.join();
		int calls = (int) (threads * uses);
		bool want = calls > throwing;
		if (threw != std::min(calls, throwing)) vs::fail("exceptions", std::to_string(threw));
		if (effect != (want ? 7 : 0) || s->hasExecuted() != want) vs::fail("ran", "the code's effect is " + std::to_string(effect));
		{ std::lock_guard<std::mutex> lock(s->getMutex()); }
		s->~S();
		if (destructed != (destruct && want ? 1 : 0)) vs::fail("destructor code", "ran " + std::to_string(destructed) + " times");
		operator delete(mem);
	});
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	bool deep = ctx.thorough();
	for (unsigned threads = 1; threads <= (deep ? 4 : 3); ++threads) for (unsigned uses = 1; uses <= (deep ? 3 : 2); ++uses)
		for (int throwing = 0; throwing <= 2; ++throwing) for (int destruct = 0; destruct < 2; ++destruct) for (int garbage = 0; garbage < 2; ++garbage) {
			vs::Bounds b;
			b.preemptions = threads <= 2 ? 6 : threads == 3 ? 4 : 2;
			lazy(ctx, threads, uses, throwing, destruct, garbage, b);
			executor(ctx, threads, uses, throwing, destruct, garbage, b);
		}
	for (int destruct = 0; destruct < 2; ++destruct) for (int garbage = 0; garbage < 2; ++garbage) executor(ctx, 0, 0, 0, destruct, garbage, vs::Bounds());
	return ctx.finish();
}
