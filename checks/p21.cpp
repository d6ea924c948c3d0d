// Shared memory queue: under every schedule within the bounds, whichever handles the threads use (one object, or objects of
// their own opened by name as separate processes do), every object is delivered whole, once and in order; full and empty
// queues block blocking calls and make try calls report failure.
#include <chrono>
#include <cstdlib>
#include <ctime>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <boost/serialization/string.hpp>
#include <Balau/Serialization/SerializationMacros.hpp>
#include <Balau/Interprocess/SharedMemoryQueue.hpp>
#include "lin.hpp"

using namespace Balau;
using namespace Balau::Interprocess;

std::string bodyOf(long v, size_t n) { std::string s; for (size_t m = 0; m < n; ++m) s += (char) ('a' + (v * 7 + (long) m * 3) % 23); return s; }

struct Item {
	long v = 0;
	std::string body;
	Item() = default;
	Item(long x, size_t n) : v(x), body(bodyOf(x, n)) {}
	template <typename Archive> void serialize(Archive & a, unsigned int) { a & BoostSerialization(v) & BoostSerialization(body); }
	bool whole() const { return body == bodyOf(v, body.size()); }
};

typedef SharedMemoryQueue<Item> Queue;
const unsigned H = 16;

size_t archived(const Item & item) {
	std::ostringstream o;
	boost::archive::binary_oarchive a(o);
	a << boost::serialization::make_nvp("item", item);
	return o.str().size();
}

size_t base, payload;       // Bytes of an item without body, bytes per message without header.
unsigned buffer() { return (unsigned) (payload + H); }
size_t bodyFor(int chunks) { return (size_t) chunks * payload - base - 3; }

std::string queueName(int n = 0) { return "vkP21_" + std::to_string(getpid()) + "_" + std::to_string(n); }
void removeAll() {
	for (int n = 0; n < 4; ++n) {
		boost::interprocess::shared_memory_object::remove(queueName(n).c_str());
		boost::interprocess::shared_memory_object::remove((queueName(n) + "_queueState_memory").c_str());
	}
}

enum Kind { ENQ, TRYENQ, TIMEDENQ, DEQ, TRYDEQ, TIMEDDEQ, FULL, EMPTY };
enum Handles { ONE, OPENED, OPEN_OR_CREATE };
const char * handleText[] = { "one handle", "a handle per thread", "open or create by every thread" };

struct World {
	lin::History h;
	size_t cap = 0;
	bool oversize = false;
	long total = 0;
};

// Values: 1000 * priority + 100 * thread + position.
void perform(World & w, Queue & q, char c, long value) {
	auto ms = std::chrono::milliseconds(10);
	std::string text = std::string(1, c) + (value ? std::to_string(value) : "");
	vs::label(text);
	uint64_t t0 = vs::now();
	auto got = [&] (const Item & x) { if (!x.whole()) vs::fail("torn", "object " + std::to_string(x.v) + " arrived damaged;" + w.h.str()); return x.v; };
	switch (c) {
		case 'E': { int i = w.h.begin(ENQ, value, text); q.enqueue(Item(value, 3)); w.h.end(i, 0, true); break; }
		case 'H': { value += 1000; int i = w.h.begin(ENQ, value, text); q.enqueue(Item(value, 3), 1u); w.h.end(i, 0, true); break; }
		case 'B': { int i = w.h.begin(ENQ, value, text); q.enqueue(Item(value, bodyFor(2))); w.h.end(i, 0, true); break; }
		case 'C': { int i = w.h.begin(ENQ, value, text); q.enqueue(Item(value, bodyFor(3))); w.h.end(i, 0, true); break; }
		case 'T': { int i = w.h.begin(TRYENQ, value, text); bool r = q.tryEnqueue(Item(value, 3)); w.h.end(i, 0, r); break; }
		case 'P': { value += 1000; int i = w.h.begin(TRYENQ, value, text); bool r = q.tryEnqueue(Item(value, 3), 1u); w.h.end(i, 0, r); break; }
		case 'W': {
			int i = w.h.begin(TIMEDENQ, value, text);
			bool r = q.tryEnqueue(Item(value, 3), ms);
			w.h.end(i, 0, r);
			if (!r && vs::now() - t0 < 10000000) vs::fail("timed enqueue gave up early", w.h.str());
			if (!r && vs::now() - t0 > 1000000000) vs::fail("timed enqueue waited too long", w.h.str());
			break;
		}
		case 'D': { int i = w.h.begin(DEQ, 0, text); Item x = q.dequeue(); w.h.end(i, got(x), true); break; }
		case 't': { int i = w.h.begin(TRYDEQ, 0, text); bool ok = w.total++ & 1; Item x = q.tryDequeue(ok); w.h.end(i, ok ? got(x) : 0, ok); if (!ok && x.v) vs::fail("failed try gave an object", w.h.str()); break; }
		case 'w': {
			int i = w.h.begin(TIMEDDEQ, 0, text);
			bool ok = w.total++ & 1;
			Item x = q.tryDequeue(ms, ok);
			w.h.end(i, ok ? got(x) : 0, ok);
			if (!ok && vs::now() - t0 < 10000000) vs::fail("timed dequeue gave up early", w.h.str());
			if (!ok && vs::now() - t0 > 1000000000) vs::fail("timed dequeue waited too long", w.h.str());
			break;
		}
		case 'u': { int i = w.h.begin(TRYDEQ, 0, text); Item x = q.tryDequeue(); w.h.end(i, got(x), x.v != 0); break; }
		case 'v': { int i = w.h.begin(TIMEDDEQ, 0, text); Item x = q.tryDequeue(ms); w.h.end(i, got(x), x.v != 0); break; }
		case 'f': { int i = w.h.begin(FULL, 0, text); bool r = q.full(); w.h.end(i, r, true); break; }
		case 'e': { int i = w.h.begin(EMPTY, 0, text); bool r = q.empty(); w.h.end(i, r, true); break; }
	}
	vs::label("idle");
}

bool enter(lin::State & s, long v) {   // Higher priorities first, then first in first out.
	size_t at = s.size();
	while (at > 0 && s[at - 1] / 1000 < v / 1000) --at;
	s.insert(s.begin() + (long) at, v);
	return true;
}

bool judge(const World & w) {
	size_t cap = w.cap;
	bool over = w.oversize;
	vs::Quiet quiet;
	return lin::linearisable(w.h, {}, [cap, over] (lin::State & s, const lin::Op & o) {
		switch (o.kind) {
			case ENQ: if (!over && s.size() >= cap) return false; return enter(s, o.arg);
			case TRYENQ: case TIMEDENQ: if (!o.ok) return over || s.size() >= cap; if (!over && s.size() >= cap) return false; return enter(s, o.arg);
			case DEQ: if (s.empty() || s.front() != o.result) return false; s.erase(s.begin()); return true;
			// With objects of several messages, a try may find only a part of the next object.
			case TRYDEQ: case TIMEDDEQ: if (!o.ok) return over || s.empty(); if (s.empty() || s.front() != o.result) return false; s.erase(s.begin()); return true;
			case FULL: return over || (s.size() == cap) == (o.result != 0);
			case EMPTY: return over || s.empty() == (o.result != 0);
		}
		return false;
	}, [cap, over] (const lin::State & s, const lin::Op & o) {
		if (o.kind == ENQ) return over || s.size() >= cap;
		if (o.kind == DEQ) return s.empty();
		return false;
	});
}

void scenario(vk::Ctx & ctx, size_t cap, Handles handles, const std::vector<std::string> & programs, vs::Bounds b, const char * tz = "UTC0") {
	std::string name = "capacity " + std::to_string(cap) + ", " + handleText[handles] + (std::string(tz) == "UTC0" ? "" : std::string(", time zone ") + tz) + ":";
	bool timed = false, oversize = false;
	for (auto & p : programs) { name += " " + p; timed = timed || p.find_first_of("Wwv") != std::string::npos; oversize = oversize || p.find_first_of("BC") != std::string::npos; }
	if (!timed) b.timeouts = 0;
	World * w = nullptr;
	setenv("TZ", tz, 1); tzset();
	vs::explore(ctx, name, b, [&] {
		World world; w = &world;
		world.cap = cap; world.oversize = oversize;
		removeAll();
		std::string n = queueName();
		std::unique_ptr<Queue> first;
		if (handles != OPEN_OR_CREATE) first.reset(new Queue((unsigned) cap, buffer(), n));
		auto run = [&] (size_t t) {
			std::unique_ptr<Queue> mine;
			Queue * q = handles == OPEN_OR_CREATE ? nullptr : first.get();
			if (handles == OPENED && t) { mine.reset(new Queue(n)); q = mine.get(); }
			if (handles == OPEN_OR_CREATE) { (t ? mine : first).reset(new Queue(OpenOrCreateSelector(), (unsigned) cap, buffer(), n)); q = t ? mine.get() : first.get(); }
			long v = 100 * (long) t;
			for (char c : programs[t]) { ++v; perform(world, *q, c, strchr("EHBCTPW", c) ? v : 0); }
		};
		{
			std::vector<std::thread> ts;
			for (size_t t = 1; t < programs.size(); ++t) ts.emplace_back(run, t);
			run(0);
			vs::label("joining");
			for (auto & t : ts) t.join();
		}
		// What is left in the queue belongs to the history: thread 0's handle is the one that dequeued oversize objects.
		size_t left = 1;
		for (auto & o : world.h.ops) if (o.kind <= TIMEDENQ && o.ok) ++left;
		for (size_t m = 0; m < left; ++m) { perform(world, *first, 't', 0); if (!world.h.ops.back().ok) break; }
		if (world.h.ops.back().ok) vs::fail("more objects than were enqueued", world.h.str());
		if (!first->empty()) vs::fail("not empty in the end", world.h.str());
		size_t in = 0, out = 0;
		for (auto & o : world.h.ops) { in += o.kind <= TIMEDENQ && o.ok; out += o.kind >= DEQ && o.kind <= TIMEDDEQ && o.ok; }
		if (in != out) vs::fail("lost object", world.h.str());
		if (!judge(world)) vs::fail("not linearisable", world.h.str());
		ctx.nontrivial(vk::hash(name + world.h.str()));
	}, [&] (const std::vector<vs::Blocked> &) {
		return judge(*w) ? std::string() : "lost wakeup or deadlock:" + w->h.str();
	});
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	bool deep = ctx.thorough();
	base = archived(Item());
	payload = base + 8;
	if (payload + H < Queue::MinimumChunkSize) payload = Queue::MinimumChunkSize - H;
	removeAll();
	setenv("TZ", "UTC0", 1); tzset();

	vs::Bounds alone; alone.maxSteps = (size_t) 1 << 40; alone.timeouts = 0;
	auto chk = [] (bool ok, const char * key, auto detail) { if (!ok) vs::fail(key, detail()); };
	// Every size around the chunk boundaries, with every way to dequeue, through the same and through another handle.
	for (int chunk = 1; chunk <= 5; ++chunk) for (int way = 0; way < 5; ++way) for (int other = 0; other < 2; ++other) {
		auto text = [&] { return "objects of about " + std::to_string(chunk) + " messages, dequeued by " + std::string(1, "Dtwuv"[way]) + (other ? " of another handle" : ""); };
		vs::explore(ctx, text(), alone, [&, way, other, chunk] {
		removeAll();
		Queue a(8, buffer(), queueName());
		std::unique_ptr<Queue> o(other ? new Queue(queueName()) : nullptr);
		Queue & q = other ? *o : a;
		for (size_t n = (size_t) (chunk - 1) * payload; n < (size_t) chunk * payload + 3; ++n) {
			if (n < base) continue;
			size_t body = n - base;
			++ctx.traces; ctx.transitions += 4;
			bool ok = true;
			auto get = [&] () -> Item {
				switch (way) {
					case 0: return q.dequeue();
					case 1: ok = false; return q.tryDequeue(ok);
					case 2: ok = false; return q.tryDequeue(std::chrono::milliseconds(5), ok);
					case 3: return q.tryDequeue();
					default: return q.tryDequeue(std::chrono::milliseconds(5));
				}
			};
			a.enqueue(Item(5, body));
			a.enqueue(Item(6, 1));
			Item x = get(); bool ok1 = ok;
			Item y = get(); bool ok2 = ok;
			chk(ok1 && x.v == 5 && x.body == bodyOf(5, body) && ok2 && y.v == 6 && y.body == bodyOf(6, 1), "whole", [&] { return text() + ": " + std::to_string(n) + " bytes gave " + std::to_string(x.v) + " " + x.body + " and " + std::to_string(y.v); });
			bool last = true;
			Item z = q.tryDequeue(last);
			chk(!last && z.v == 0 && q.empty() && a.empty(), "empty", [&] { return text() + ": not empty after both objects were taken"; });
			bool fits = n <= payload;
			// What does not fit into one message is refused as a whole by the calls that must be atomic.
			bool threw = false, r = false;
			try { r = a.tryEnqueue(Item(7, body)); } catch (const Exception::SizeException &) { threw = true; }
			chk(threw != fits && r == fits, "try enqueue of oversize", [&] { return text() + ": " + std::to_string(n) + " bytes"; });
			if (r) { Item t = q.dequeue(); chk(t.v == 7 && t.whole(), "whole", [&] { return text() + " after tryEnqueue"; }); }
			chk(q.empty(), "partial try enqueue", [&] { return text() + ": a refused object left something in the queue"; });
			ctx.nontrivial(vk::hash(text()) + n);
		}
		});
	}
	// Constructors: default buffer sizes, refusal of oversize objects, too small buffers, sizes of existing queues.
	for (int c = 0; c < 8; ++c) {
		vs::explore(ctx, "constructor " + std::to_string(c), alone, [&, c] {
		removeAll();
		++ctx.traces;
		auto roundTrip = [&] (Queue & in, Queue & out, size_t body) {
			in.enqueue(Item(3, body)); in.enqueue(Item(4, 0));
			Item x = out.dequeue(), y = out.dequeue();
			chk(x.v == 3 && x.body == bodyOf(3, body) && y.v == 4 && out.empty(), "constructor", [&] { return "constructor " + std::to_string(c) + ", body of " + std::to_string(body); });
		};
		std::string n = queueName();
		switch (c) {
			case 0: { Queue q(8); for (size_t m = 0; m < 200; m += 7) roundTrip(q, q, m); boost::interprocess::shared_memory_object::remove(q.getName().c_str()); break; }
			case 1: { Queue q(8, buffer()); for (size_t m = 0; m < 200; m += 7) roundTrip(q, q, m); boost::interprocess::shared_memory_object::remove(q.getName().c_str()); break; }
			case 2: { Queue q(8, n); Queue r(n); chk(q.getName() == n && r.getName() == n, "name", [] { return std::string("getName"); }); for (size_t m = 0; m < 200; m += 7) { roundTrip(q, q, m); roundTrip(q, r, m); roundTrip(r, q, m); } break; }
			case 3: {
				Queue q(8, buffer(), n, true);
				for (size_t m = 0; m < 100; ++m) {
					bool threw = false;
					try { q.enqueue(Item(3, m)); } catch (const Exception::SizeException &) { threw = true; }
					chk(threw == (base + m > payload), "refuse oversize", [&] { return "body of " + std::to_string(m); });
					chk(q.empty() == threw, "refused object left something", [&] { return "body of " + std::to_string(m); });
					if (!threw) q.dequeue();
				}
				break;
			}
			case 4: for (unsigned m = 0; m < 64; ++m) for (int open = 0; open < 2; ++open) {
				bool threw = false;
				removeAll();
				try { if (open) Queue q(OpenOrCreateSelector(), 4, m, n); else Queue q(4, m, n); } catch (const Exception::SizeException &) { threw = true; }
				chk(threw == (m < Queue::MinimumChunkSize), "small buffer", [&] { return "buffer of " + std::to_string(m); });
			}
			break;
			case 5: { Queue q(OpenOrCreateSelector(), 8, n); Queue r(OpenOrCreateSelector(), 3, n); for (size_t m = 0; m < 200; m += 7) { roundTrip(q, q, m); roundTrip(q, r, m); roundTrip(r, q, m); } break; }
			case 6: { Queue q(8, buffer(), n); Queue r(OpenOrCreateSelector(), 2, buffer() + 57, n); for (size_t m = 0; m < 200; m += 7) { roundTrip(q, r, m); roundTrip(r, q, m); } break; }
			case 7: {
				// Capacity: exactly that many messages.
				for (unsigned cap = 1; cap <= 4; ++cap) {
					removeAll();
					Queue q(cap, buffer(), n); Queue r(OpenOrCreateSelector(), 9, buffer(), n);
					for (unsigned m = 0; m < cap; ++m) { chk(!q.full() && q.tryEnqueue(Item(1 + m, 0)) && !q.empty(), "capacity", [&] { return std::to_string(cap); }); }
					chk(q.full() && r.full() && !q.tryEnqueue(Item(77, 0)) && !r.tryEnqueue(Item(77, 0), std::chrono::milliseconds(3)), "capacity", [&] { return std::to_string(cap); });
					for (unsigned m = 0; m < cap; ++m) { Item x = r.dequeue(); chk(x.v == 1 + (long) m, "order", [&] { return std::to_string(cap); }); }
				}
				break;
			}
		}
		});
	}

	vs::Bounds b;
	// One thread: sequences of operations that cannot block for ever, against the sequential queue with priorities.
	{
		std::string ops = deep ? "EHTPWBtwuf" : "EHTWBtwu";
		size_t len = deep ? 6 : 5;
		for (const char * tz : { "UTC0", "XXX-3", "XXX+3" }) for (char c0 : ops) {
			vs::explore(ctx, "sequences of " + std::to_string(len) + " operations by one thread starting with " + std::string(1, c0) + ", time zone " + tz, alone, [&, tz, c0] {
			setenv("TZ", tz, 1); tzset();
			removeAll();
			size_t cap = 3;
			Queue q((unsigned) cap, buffer(), queueName());
			std::string seq(1, c0);
			size_t depth = std::string(tz) == "UTC0" ? len : 3;
			std::function<void ()> rec = [&] {
				if (seq.size() == depth) {
					struct E { long v; size_t n; };
					std::vector<E> model;
					long v = 0;
					auto used = [&] { size_t s = 0; for (auto & e : model) s += e.n; return s; };
					auto bad = [&] (const char * what) { vs::fail("sequential", std::string(what) + ": operations " + seq + ", time zone " + tz); };
					auto add = [&] (long x, size_t n) { size_t at = model.size(); while (at > 0 && model[at - 1].v / 1000 < x / 1000) --at; model.insert(model.begin() + (long) at, E { x, n }); };
					auto took = [&] (const Item & x, bool ok) {
						if (model.empty()) { if (ok || x.v) bad("dequeued from an empty queue"); return; }
						if (!ok) { bad("an object was not dequeued"); return; }
						if (x.v != model.front().v || !x.whole()) bad("wrong object");
						model.erase(model.begin());
					};
					++ctx.traces; ctx.beat();
					auto ms = std::chrono::milliseconds(1);
					bool skip = false;
					uint64_t start = vs::now();
					for (char c : seq) {
						++v; ++ctx.transitions;
						bool room = used() < cap;
						bool ok = v & 1;
						switch (c) {
							case 'E': if (room) { q.enqueue(Item(v, 2)); add(v, 1); } else skip = true; break;
							case 'H': if (room) { q.enqueue(Item(1000 + v, 2), 1u); add(1000 + v, 1); } else skip = true; break;
							case 'B': if (used() + 2 <= cap) { q.enqueue(Item(v, bodyFor(2))); add(v, 2); } else skip = true; break;
							case 'T': if (q.tryEnqueue(Item(v, 2)) != room) bad("tryEnqueue"); else if (room) add(v, 1); break;
							case 'P': if (q.tryEnqueue(Item(1000 + v, 2), 1u) != room) bad("tryEnqueue with priority"); else if (room) add(1000 + v, 1); break;
							case 'W': if (q.tryEnqueue(Item(v, 2), ms) != room) bad("timed tryEnqueue"); else if (room) add(v, 1); break;
							case 't': { Item x = q.tryDequeue(ok); took(x, ok); break; }
							case 'w': { Item x = q.tryDequeue(ms, ok); took(x, ok); break; }
							case 'u': { Item x = q.tryDequeue(); took(x, x.v != 0); break; }
							case 'f': if (q.full() == room || q.empty() != model.empty()) bad("full or empty"); break;
						}
						if (skip) break;
					}
					while (!model.empty() && !q.empty()) { Item x = q.dequeue(); took(x, true); }
					if (!model.empty() || !q.empty()) bad("not everything was delivered");
					if (vs::now() - start > 30000000000ull) bad("took too long");
					ctx.nontrivial(vk::hash(seq) ^ 0x77);
					return;
				}
				for (char c : ops) { seq += c; rec(); seq.pop_back(); }
			};
			rec();
			});
		}
	}

	// Objects of one message: any number of producers and consumers.
	b.preemptions = deep ? 3 : 2;
	b.timeouts = deep ? 2 : 1;
	b.split = true;
	for (Handles h : { ONE, OPENED, OPEN_OR_CREATE }) {
		std::vector<std::vector<std::string>> list { { "D", "E" }, { "DD", "E", "E" }, { "DD", "E", "H" }, { "t", "EE" }, { "w", "E" }, { "D", "TT" }, { "w", "W" } };
		if (h == ONE) { list.push_back({ "D", "D", "EE" }); list.push_back({ "DD", "EW" }); list.push_back({ "w", "D", "E" }); list.push_back({ "wu", "W" }); list.push_back({ "Dv", "PT" }); }
		if (deep) { list.push_back({ "DD", "EH", "E" }); list.push_back({ "DDD", "EE", "T" }); list.push_back({ "D", "D", "E", "E" }); list.push_back({ "Dw", "WW" }); list.push_back({ "wt", "EH" }); }
		vs::Bounds c = b;
		if (h == OPEN_OR_CREATE) { c.preemptions = deep ? 2 : 1; c.races = false; }   // Boost synchronises the creation with assembly that the race detector does not see.
		for (size_t cap = 1; cap <= (deep ? 2 : 1); ++cap) for (auto & p : list) {
			size_t threads = p.size();
			vs::Bounds d = c;
			if (threads > 2 && d.preemptions > 1) --d.preemptions;
			scenario(ctx, cap, h, p, d);
		}
	}
	// Objects of several messages: one consumer. With little capacity the producers take turns freely.
	{
		vs::Bounds c; c.split = true; c.timeouts = deep ? 2 : 1;
		c.preemptions = deep ? 3 : 2;
		for (Handles h : { ONE, OPENED }) for (size_t cap = 1; cap <= 3; ++cap) {
			scenario(ctx, cap, h, { "D", "B" }, c);
			scenario(ctx, cap, h, { "ttD", "B" }, c);
			scenario(ctx, cap, h, { "ww", "B" }, c);
			scenario(ctx, cap, h, { "tDu", "BE" }, c);
			scenario(ctx, cap, h, { "ttt", "C" }, c);
		}
		c.preemptions = deep ? 2 : 1;
		for (size_t cap = 1; cap <= (deep ? 3 : 2); ++cap) {
			scenario(ctx, cap, OPENED, { "DD", "B", "B" }, c);
			scenario(ctx, cap, OPENED, { "tDD", "B", "C" }, c);
			if (deep) scenario(ctx, cap, OPENED, { "twD", "C", "B" }, c);
			else { vs::Bounds d = c; d.preemptions = 0; scenario(ctx, cap, OPENED, { "twD", "B", "B" }, d); }
			scenario(ctx, cap, OPENED, { "DDD", "BE", "B" }, c);
		}
		// Three producers: an object that is long in coming while others pass.
		c.preemptions = deep ? 1 : 0;
		for (size_t cap = 1; cap <= 2; ++cap) {
			scenario(ctx, cap, OPENED, { "DDDD", "EE", "B", "B" }, c);
			if (deep) scenario(ctx, cap, OPENED, { "DDtD", "BE", "B", "C" }, c);
			if (deep) scenario(ctx, cap, ONE, { "tDwD", "EB", "B", "C" }, c);
		}
	}
	// Deadlines do not depend on the time zone.
	for (const char * tz : { "XXX-2", "XXX+2" }) { scenario(ctx, 1, ONE, { "D", "WW" }, b, tz); scenario(ctx, 1, ONE, { "ww", "W" }, b, tz); }
	removeAll();
	ctx.finish();
	return 0;
}
