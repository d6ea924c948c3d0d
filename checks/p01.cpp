// Bounded blocking queue: every client program of a bounded size, under every schedule within the bounds, is linearisable
// to a bounded FIFO queue, blocks exactly when it must, and is free of data races.
#include <chrono>
#include <optional>
#include <thread>
#include <Balau/Container/ArrayBlockingQueue.hpp>
#include "lin.hpp"

using namespace Balau::Container;

// Values that lose their content when they are moved from.
struct Item {
	long v;
	Item() : v(0) {}
	explicit Item(long x) : v(x) {}
	Item(Item && o) noexcept : v(o.v) { o.v = -1; }
	Item & operator = (Item && o) noexcept { v = o.v; if (&o != this) o.v = -1; return *this; }
	Item(const Item &) = delete;
};

enum Kind { ENQ, TRYENQ, TIMEDENQ, DEQ, TRYDEQ, TIMEDDEQ, FULL, EMPTY, NEGENQ, CBENQ };
const char * letters = "ETWDtwfeNC";

struct World {
	std::unique_ptr<ArrayBlockingQueue<Item>> q;
	lin::History h;
	size_t cap;
	int fullCalls[16] = { 0 }, spaceCalls[16] = { 0 };
};

void perform(World & w, char c, long value) {
	auto ms = std::chrono::milliseconds(10);
	std::string text = std::string(1, c) + (value ? std::to_string(value) : "");
	vs::label(text);
	uint64_t t0 = vs::now();
	switch (c) {
		case 'E': { int i = w.h.begin(ENQ, value, text); w.q->enqueue(Item(value)); w.h.end(i, 0, true); break; }
		case 'C': {
			int i = w.h.begin(CBENQ, value, text);
			int f = 0, s = 0; bool right = true;
			w.q->enqueue(Item(value), [&] (const Item & x) { ++f; right = right && x.v == value && s == 0; }, [&] (const Item & x) { ++s; right = right && x.v == value && f == 1; });
			w.h.end(i, f, true);
			if (f > 1 || s != f || !right) vs::fail("callbacks", "enqueue called queue-is-full " + std::to_string(f) + " and space-now-available " + std::to_string(s) + " times;" + w.h.str());
			break;
		}
		case 'T': { int i = w.h.begin(TRYENQ, value, text); bool r = w.q->tryEnqueue(Item(value)); w.h.end(i, 0, r); break; }
		case 'N': { int i = w.h.begin(TRYENQ, value, text); bool r = w.q->tryEnqueue(Item(value), std::chrono::milliseconds(-5)); w.h.end(i, 0, r); break; }
		case 'W': {
			int i = w.h.begin(TIMEDENQ, value, text);
			bool r = w.q->tryEnqueue(Item(value), ms);
			w.h.end(i, 0, r);
			if (!r && vs::now() - t0 < 10000000) vs::fail("timed enqueue gave up early", w.h.str());
			break;
		}
		case 'D': { int i = w.h.begin(DEQ, 0, text); Item x = w.q->dequeue(); w.h.end(i, x.v, true); break; }
		case 't': { int i = w.h.begin(TRYDEQ, 0, text); bool ok = value != 0; Item x = w.q->tryDequeue(ok); w.h.end(i, ok ? x.v : 0, ok); break; }
		case 'w': {
			int i = w.h.begin(TIMEDDEQ, 0, text);
			bool ok = false;
			Item x = w.q->tryDequeue(ms, ok);
			w.h.end(i, ok ? x.v : 0, ok);
			if (!ok && vs::now() - t0 < 10000000) vs::fail("timed dequeue gave up early", w.h.str());
			break;
		}
		// The overloads that report through the value alone: an empty queue gives a default value.
		case 'u': { int i = w.h.begin(TRYDEQ, 0, text); Item x = w.q->tryDequeue(); w.h.end(i, x.v, x.v != 0); break; }
		case 'v': { int i = w.h.begin(TIMEDDEQ, 0, text); Item x = w.q->tryDequeue(ms); w.h.end(i, x.v, x.v != 0); break; }
		case 'f': { int i = w.h.begin(FULL, 0, text); bool r = w.q->full(); w.h.end(i, r, true); break; }
		case 'e': { int i = w.h.begin(EMPTY, 0, text); bool r = w.q->empty(); w.h.end(i, r, true); break; }
	}
	vs::label("idle");
}

bool judge(const World & w, const lin::State & init) {
	size_t cap = w.cap;
	vs::Quiet quiet;
	return lin::linearisable(w.h, init, [cap] (lin::State & s, const lin::Op & o) {
		switch (o.kind) {
			case ENQ: if (s.size() >= cap) return false; s.push_back(o.arg); return true;
			// The queue-is-full callback says that the queue was full when the call took the lock: not at the point where it takes effect.
			case CBENQ: if (s.size() >= cap) return false; s.push_back(o.arg); return true;
			case TRYENQ: case TIMEDENQ: if (!o.ok) return s.size() >= cap; if (s.size() >= cap) return false; s.push_back(o.arg); return true;
			case DEQ: if (s.empty() || s.front() != o.result) return false; s.erase(s.begin()); return true;
			case TRYDEQ: case TIMEDDEQ: if (!o.ok) return s.empty(); if (s.empty() || s.front() != o.result) return false; s.erase(s.begin()); return true;
			case FULL: return (s.size() == cap) == (o.result != 0);
			case EMPTY: return s.empty() == (o.result != 0);
		}
		return false;
	}, [cap] (const lin::State & s, const lin::Op & o) {
		if (o.kind == ENQ || o.kind == CBENQ) return s.size() >= cap;
		if (o.kind == DEQ) return s.empty();
		return false;
	});
}

void scenario(vk::Ctx & ctx, size_t cap, size_t rotate, size_t prefill, const std::vector<std::string> & programs, vs::Bounds b) {
	std::string name = "capacity " + std::to_string(cap) + ", start " + std::to_string(rotate) + ", holding " + std::to_string(prefill) + ":";
	bool timed = false;
	for (auto & p : programs) { name += " " + p; timed = timed || p.find_first_of("Wwv") != std::string::npos; }
	if (!timed) b.timeouts = 0;
	World * w = nullptr;
	lin::State init;
	for (size_t m = 0; m < prefill; ++m) init.push_back(901 + (long) m);
	vs::explore(ctx, name, b, [&] {
		World world; w = &world;
		world.cap = cap;
		world.q.reset(new ArrayBlockingQueue<Item>((unsigned) cap));
		for (size_t m = 0; m < rotate; ++m) { world.q->enqueue(Item(800)); world.q->dequeue(); }
		for (size_t m = 0; m < prefill; ++m) world.q->enqueue(Item(901 + (long) m));
		std::vector<std::thread> ts;
		for (size_t t = 1; t < programs.size(); ++t) ts.emplace_back([&, t] { long v = 100 * (long) t; for (char c : programs[t]) { ++v; perform(world, c, strchr("ETWNC", c) ? v : 0); } });
		long v = 0;
		for (char c : programs[0]) { ++v; perform(world, c, strchr("ETWNC", c) ? v : 0); }
		vs::label("joining");
		for (auto & t : ts) t.join();
		// What is left in the queue belongs to the history.
		for (size_t m = 0; m <= cap; ++m) perform(world, 't', 0);
		if (!judge(world, init)) vs::fail("not linearisable", world.h.str());
		std::string o;
		for (auto & x : world.h.ops) o += x.ok ? std::to_string(x.result) + " " : "! ";
		ctx.nontrivial(vk::hash(name + world.h.str()));
	}, [&] (const std::vector<vs::Blocked> &) {
		return judge(*w, init) ? std::string() : "lost wakeup or deadlock:" + w->h.str();
	});
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	vs::Bounds b;
	bool deep = ctx.thorough();

	// One thread: every sequence of non-blocking operations, against the sequential queue.
	{
		std::string ops = "ETNWCDtwuvfe";
		size_t len = deep ? 6 : 5;
		vs::Bounds b1; b1.timeouts = 1;
		for (size_t cap = 1; cap <= 3; ++cap) for (size_t rot = 0; rot < cap; ++rot) {
			if (!ctx.begin([&] { return "all sequences of " + std::to_string(len) + " operations by one thread, capacity " + std::to_string(cap) + ", start " + std::to_string(rot); })) continue;
			std::string seq;
			std::function<void (size_t)> rec = [&] (size_t size) {
				if (seq.size() == len) {
					ArrayBlockingQueue<Item> q((unsigned) cap);
					lin::State s;
					long v = 0;
					for (size_t m = 0; m < rot; ++m) { q.enqueue(Item(800)); q.dequeue(); }
					auto bad = [&] { ctx.violation("sequential", "capacity " + std::to_string(cap) + " start " + std::to_string(rot) + " operations " + seq); };
					++ctx.traces;
					ctx.beat();
					for (char c : seq) {
						++v; ++ctx.transitions;
						bool full = s.size() == cap, empty = s.empty(), ok = true;
						int f = 0, sp = 0;
						auto fc = [&] (const Item & x) { f += x.v == v ? 1 : 100; };
						auto sc = [&] (const Item &) { ++sp; };
						Item x;
						switch (c) {
							case 'E': q.enqueue(Item(v)); s.push_back(v); break;
							case 'C': q.enqueue(Item(v), fc, sc); s.push_back(v); if (f || sp) bad(); break;
							case 'T': ok = q.tryEnqueue(Item(v)); if (ok == full) bad(); if (ok) s.push_back(v); break;
							case 'N': ok = q.tryEnqueue(Item(v), std::chrono::milliseconds(-1), fc, sc); if (ok == full || f != (full ? 1 : 0) || sp) bad(); if (ok) s.push_back(v); break;
							case 'W': ok = q.tryEnqueue(Item(v), std::chrono::milliseconds(0)); if (ok == full) bad(); if (ok) s.push_back(v); break;
							case 'D': x = q.dequeue(); if (x.v != s.front()) bad(); s.erase(s.begin()); break;
							case 't': ok = empty; x = q.tryDequeue(ok); if (ok == empty || (ok && x.v != s.front()) || (!ok && x.v != 0)) bad(); if (ok) s.erase(s.begin()); break;
							case 'w': ok = empty; x = q.tryDequeue(std::chrono::milliseconds(0), ok); if (ok == empty || (ok && x.v != s.front())) bad(); if (ok) s.erase(s.begin()); break;
							case 'u': x = q.tryDequeue(); if (x.v != (empty ? 0 : s.front())) bad(); if (!empty) s.erase(s.begin()); break;
							case 'v': x = q.tryDequeue(std::chrono::milliseconds(-3)); if (x.v != (empty ? 0 : s.front())) bad(); if (!empty) s.erase(s.begin()); break;
							case 'f': if (q.full() != full) bad(); break;
							case 'e': if (q.empty() != empty) bad(); break;
						}
						if (q.full() != (s.size() == cap) || q.empty() != s.empty()) bad();
						ctx.state(vk::hash(s.data(), s.size() * sizeof(long), cap * 8 + rot + 99));
					}
					return;
				}
				for (char c : ops) {
					if ((c == 'E' || c == 'C') && size == cap) continue;
					if (c == 'D' && size == 0) continue;
					seq += c;
					size_t n = size;
					if (strchr("ETNWC", c) && n < cap) ++n;
					if (strchr("Dtwuv", c) && n > 0) --n;
					rec(n);
					seq.pop_back();
				}
			};
			rec(0);
		}
	}

	// Two threads, every pair of programs of one or two operations; three threads, every multiset of short programs.
	auto programs = [] (const std::string & ops, size_t len) {
		std::vector<std::string> r;
		std::function<void (std::string)> rec = [&] (std::string s) { if (s.size() == len) { r.push_back(s); return; } for (char c : ops) rec(s + c); };
		rec("");
		return r;
	};
	for (size_t cap = 1; cap <= (deep ? 3 : 2); ++cap) for (size_t pre = 0; pre <= cap; ++pre) {
		std::vector<std::string> one = programs("ECTWDtwvfe", 1), two = programs("ETWDtwfe", 2);
		b.preemptions = 3; b.timeouts = 2; b.spurious = 1;
		for (auto & x : one) for (auto & y : one) scenario(ctx, cap, 0, pre, { x, y }, b);
		b.preemptions = deep ? 3 : 2; b.timeouts = 1; b.spurious = deep ? 1 : 0;
		for (size_t i = 0; i < two.size(); ++i) for (size_t j = i; j < two.size(); ++j) scenario(ctx, cap, cap > 1 ? 1 : 0, pre, { two[i], two[j] }, b);
		std::vector<std::string> small = programs("EDWwtT", 1);
		b.preemptions = 2; b.timeouts = 1; b.spurious = 1;
		for (size_t i = 0; i < small.size(); ++i) for (size_t j = i; j < small.size(); ++j) for (size_t k = j; k < small.size(); ++k) scenario(ctx, cap, cap - 1, pre, { small[i], small[j], small[k] }, b);
		// Four threads: producers and consumers that must wake each other.
		b.preemptions = deep ? 2 : 1; b.timeouts = deep ? 1 : 0; b.spurious = 0;
		for (auto & p : std::vector<std::vector<std::string>> { { "E", "E", "D", "D" }, { "EE", "EE", "DD", "DD" }, { "E", "E", "E", "DDD" }, { "D", "D", "D", "EEE" }, { "EE", "DD", "E", "D" },
			{ "W", "E", "w", "D" }, { "W", "W", "D", "D" }, { "E", "E", "w", "w" }, { "C", "C", "D", "D" } }) scenario(ctx, cap, 0, pre, p, b);
		if (deep) {
			std::vector<std::string> mid = programs("EDWw", 2);
			b.preemptions = 2; b.timeouts = 1; b.spurious = 0;
			for (size_t i = 0; i < mid.size(); ++i) for (size_t j = i; j < mid.size(); ++j) for (size_t k = j; k < mid.size(); ++k) scenario(ctx, cap, 0, pre, { mid[i], mid[j], mid[k] }, b);
		}
	}
	return ctx.finish();
}
