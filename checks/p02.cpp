// Unbounded synchronised queue: linearisable to a FIFO queue whose dequeue throws when it is empty, and race free.
#include <thread>
#include <Balau/Container/SynchronizedQueue.hpp>
#include "lin.hpp"

using namespace Balau::Container;

struct Item {
	long v;
	Item() : v(0) {}
	explicit Item(long x) : v(x) {}
	Item(Item && o) noexcept : v(o.v) { o.v = -1; }
	Item & operator = (Item && o) noexcept { v = o.v; if (&o != this) o.v = -1; return *this; }
};

struct World { SynchronizedQueue<Item> q; lin::History h; };
enum { ENQ, DEQ, EMPTY };

void perform(World & w, char c, long value) {
	std::string text;
	{ vs::Quiet quiet; text = std::string(1, c) + (c == 'E' ? std::to_string(value) : ""); vs::label(text); }
	switch (c) {
		case 'E': { int i = w.h.begin(ENQ, value, text); w.q.enqueue(Item(value)); w.h.end(i, 0, true); break; }
		case 'D': {
			int i = w.h.begin(DEQ, 0, text);
			try { Item x = w.q.dequeue(); w.h.end(i, x.v, true); }
			catch (const Balau::Exception::EmptyException &) { w.h.end(i, 0, false); }
			break;
		}
		case 'e': { int i = w.h.begin(EMPTY, 0, text); bool r = w.q.empty(); w.h.end(i, r, true); break; }
	}
}

bool judge(const World & w, const lin::State & init) {
	vs::Quiet quiet;
	return lin::linearisable(w.h, init, [] (lin::State & s, const lin::Op & o) {
		switch (o.kind) {
			case ENQ: s.push_back(o.arg); return true;
			case DEQ: if (!o.ok) return s.empty(); if (s.empty() || s.front() != o.result) return false; s.erase(s.begin()); return true;
			case EMPTY: return s.empty() == (o.result != 0);
		}
		return false;
	}, [] (const lin::State &, const lin::Op &) { return false; });
}

void scenario(vk::Ctx & ctx, size_t prefill, const std::vector<std::string> & programs, vs::Bounds b) {
	std::string name = "holding " + std::to_string(prefill) + ":";
	for (auto & p : programs) name += " " + p;
	lin::State init;
	for (size_t m = 0; m < prefill; ++m) init.push_back(901 + (long) m);
	World * w = nullptr;
	vs::explore(ctx, name, b, [&] {
		World world; w = &world;
		for (size_t m = 0; m < prefill; ++m) world.q.enqueue(Item(901 + (long) m));
		std::vector<std::thread> ts;
		for (size_t t = 1; t < programs.size(); ++t) ts.emplace_back([&, t] { long v = 100 * (long) t; for (char c : programs[t]) perform(world, c, ++v); });
		long v = 0;
		for (char c : programs[0]) perform(world, c, ++v);
		vs::label("joining");
		for (auto & t : ts) t.join();
		for (size_t m = 0; m < 9; ++m) perform(world, 'D', 0);
		if (!judge(world, init)) vs::fail("not linearisable", world.h.str());
		vs::Quiet quiet;
		ctx.nontrivial(vk::hash(name + world.h.str()));
	}, [&] (const std::vector<vs::Blocked> &) { return "deadlock:" + w->h.str(); });
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	bool deep = ctx.thorough();
	vs::Bounds b;
	auto programs = [] (size_t len) {
		std::vector<std::string> r;
		std::function<void (std::string)> rec = [&] (std::string s) { if (s.size() == len) { r.push_back(s); return; } for (char c : std::string("EDe")) rec(s + c); };
		rec("");
		return r;
	};
	auto one = programs(1), two = programs(2), three = programs(3);
	for (size_t pre = 0; pre <= 2; ++pre) {
		b.preemptions = deep ? 5 : 4;
		for (size_t i = 0; i < three.size(); ++i) for (size_t j = i; j < three.size(); ++j) scenario(ctx, pre, { three[i], three[j] }, b);
		b.preemptions = deep ? 4 : 3;
		for (size_t i = 0; i < two.size(); ++i) for (size_t j = i; j < two.size(); ++j) for (size_t k = j; k < two.size(); ++k) scenario(ctx, pre, { two[i], two[j], two[k] }, b);
		for (auto & x : one) for (auto & y : one) for (auto & z : one) scenario(ctx, pre, { x, y, z, "ED" }, b);
	}
	return ctx.finish();
}
