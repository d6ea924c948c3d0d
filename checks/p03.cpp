// Counting semaphore: linearisable to a counter whose decrement waits while it is zero; no wake-up is lost.
#include <thread>
#include <Balau/Concurrent/Semaphore.hpp>
#include "lin.hpp"

using Balau::Concurrent::Semaphore;
struct World { std::unique_ptr<Semaphore> s; lin::History h; int inside = 0, most = 0; };
enum { INC, DEC };

bool judge(const World & w, long init) {
	vs::Quiet quiet;
	return lin::linearisable(w.h, { init }, [] (lin::State & s, const lin::Op & o) {
		if (o.kind == INC) { ++s[0]; return true; }
		if (s[0] == 0) return false;
		--s[0];
		return true;
	}, [] (const lin::State & s, const lin::Op & o) { return o.kind == DEC && s[0] == 0; });
}

void scenario(vk::Ctx & ctx, unsigned init, const std::vector<std::string> & programs, vs::Bounds b) {
	std::string name = "count " + std::to_string(init) + ":";
	for (auto & p : programs) name += " " + p;
	World * w = nullptr;
	vs::explore(ctx, name, b, [&] {
		World world; w = &world;
		if (init) world.s.reset(new Semaphore(init)); else world.s.reset(new Semaphore());
		auto run = [&] (const std::string & p) {
			for (char c : p) {
				std::string t;
				{ vs::Quiet quiet; t = std::string(1, c); vs::label(t); }
				int i = world.h.begin(c == '+' ? INC : DEC, 0, t);
				if (c == '+') world.s->increment(); else world.s->decrement();
				world.h.end(i, 0, true);
			}
		};
		std::vector<std::thread> ts;
		for (size_t t = 1; t < programs.size(); ++t) ts.emplace_back([&, t] { run(programs[t]); });
		run(programs[0]);
		vs::label("joining");
		for (auto & t : ts) t.join();
		if (!judge(world, init)) vs::fail("not linearisable", world.h.str());
		// What the count is now: it can be taken exactly that often.
		long left = init;
		for (auto & p : programs) for (char c : p) left += c == '+' ? 1 : -1;
		for (long m = 0; m < left; ++m) world.s->decrement();
		std::thread extra([&] { int i = world.h.begin(DEC, 0, "-"); world.s->decrement(); world.h.end(i, 0, true); });
		{ int i = world.h.begin(INC, 0, "+"); world.s->increment(); world.h.end(i, 0, true); }
		extra.join();
		vs::Quiet quiet;
		ctx.nontrivial(vk::hash(name + world.h.str()));
	}, [&] (const std::vector<vs::Blocked> &) { return judge(*w, init) ? std::string() : "lost wakeup or deadlock:" + w->h.str(); });
}

// As a mutual exclusion: a semaphore that starts at n lets at most n threads in, and orders their memory accesses.
void exclusion(vk::Ctx & ctx, unsigned n, unsigned threads, unsigned rounds, vs::Bounds b) {
	vs::explore(ctx, "semaphore of " + std::to_string(n) + " around a section, " + std::to_string(threads) + " threads, " + std::to_string(rounds) + " rounds", b, [&] {
		Semaphore s(n);
		int shared = 0, inside = 0;
		auto run = [&] {
			for (unsigned m = 0; m < rounds; ++m) {
				s.decrement();
				{ vs::Quiet quiet; if (++inside > (int) n) vs::fail("too many inside", std::to_string(inside)); }
				if (n == 1) ++shared;
				vs::point();
				{ vs::Quiet quiet; --inside; }
				s.increment();
			}
		};
		std::vector<std::thread> ts;
		for (unsigned t = 0; t < threads; ++t) ts.emplace_back(run);
		for (auto & t : ts) t.join();
		if (n == 1 && shared != (int) (threads * rounds)) vs::fail("lost update", std::to_string(shared));
	});
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	bool deep = ctx.thorough();
	auto programs = [] (size_t len) {
		std::vector<std::string> r;
		std::function<void (std::string)> rec = [&] (std::string s) { if (!s.empty()) r.push_back(s); if (s.size() == len) return; for (char c : std::string("+-")) rec(s + c); };
		rec("");
		return r;
	};
	auto p3 = programs(deep ? 4 : 3), p2 = programs(2);
	for (unsigned init = 0; init <= 2; ++init) {
		vs::Bounds b;
		b.preemptions = deep ? 4 : 3; b.spurious = deep ? 2 : 1;
		for (size_t i = 0; i < p3.size(); ++i) for (size_t j = i; j < p3.size(); ++j) scenario(ctx, init, { p3[i], p3[j] }, b);
		b.preemptions = deep ? 3 : 2; b.spurious = 1;
		for (size_t i = 0; i < p2.size(); ++i) for (size_t j = i; j < p2.size(); ++j) for (size_t k = j; k < p2.size(); ++k) scenario(ctx, init, { p2[i], p2[j], p2[k] }, b);
		b.preemptions = deep ? 3 : 2; b.spurious = deep;
		for (auto & p : std::vector<std::vector<std::string>> { { "+", "+", "-", "-" }, { "++", "-", "-", "-" }, { "+++", "-", "-", "-" }, { "++", "++", "--", "--" }, { "-+", "-+", "-+", "+" }, { "+-", "+-", "-+", "-+" } })
			scenario(ctx, init, p, b);
	}
	vs::Bounds b;
	b.preemptions = 3; b.spurious = 1;
	exclusion(ctx, 1, 2, 2, b); exclusion(ctx, 1, 3, 1, b); exclusion(ctx, 2, 3, 1, b);
	b.preemptions = 2;
	exclusion(ctx, 1, 3, 2, b); exclusion(ctx, 2, 4, 1, b);
	return ctx.finish();
}
