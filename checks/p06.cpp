// Singletons of an injector asked for by several threads: every lazy singleton is constructed once and everyone gets that complete
// object, thread-local singletons are constructed once per thread, new instances are never shared; nothing races.
#include <boost/core/demangle.hpp>
#include <stdexcept>
#include <thread>
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <Balau/Application/Injectable.hpp>
#include <Balau/Application/Injector.hpp>
#include "vsched.hpp"

using namespace Balau;

enum Kind { A, B, C, D, T, U, N, W, Kinds };
struct World {
	int built[Kinds] = {}, destroyed[Kinds] = {}, throwing = 0, tried = 0;
	int children = 0, calls = 0;
	std::map<std::pair<int, int>, int> builtBy;
};
World * world;

// What every object is made of: written by its constructor, read by those who get it.
struct Body {
	int kind;
	long a = 0, b = 0;
	explicit Body(int k) : kind(k) {
		{ vs::Quiet quiet; vs::event(100 + k); ++world->built[k]; ++world->builtBy[{ k, vs::tid() }]; }
		a = 40 + k;
		vs::point();
		b = 2 + k;
	}
	virtual ~Body() { a = b = -1; vs::Quiet quiet; ++world->destroyed[kind]; }
	void use(const char * where) const {
		if (a != 40 + kind || b != 2 + kind) vs::fail("incomplete object", std::string(where) + ": object " + std::to_string(kind) + " is seen with " + std::to_string(a) + "," + std::to_string(b));
	}
};

struct NodeA : Body {
	NodeA() : Body(attempt()) {}
	static int attempt() {
		bool fail;
		{ vs::Quiet quiet; fail = ++world->tried <= world->throwing; vs::event(1); }
		vs::point();
		if (fail) throw std::runtime_error("not yet");
		return A;
	}
	BalauInjectTypes(NodeA)
};
struct NodeB : Body { std::shared_ptr<NodeA> a; explicit NodeB(std::shared_ptr<NodeA> a_) : Body(B), a(std::move(a_)) { a->use("B"); } BalauInjectTypes(NodeB, std::shared_ptr<NodeA>) };
struct NodeC : Body { std::shared_ptr<const NodeA> a; explicit NodeC(std::shared_ptr<const NodeA> a_) : Body(C), a(std::move(a_)) { a->use("C"); } BalauInjectTypes(NodeC, std::shared_ptr<const NodeA>) };
struct NodeD : Body {
	std::shared_ptr<NodeB> b; std::weak_ptr<NodeC> c;
	NodeD(std::shared_ptr<NodeB> b_, std::weak_ptr<NodeC> c_) : Body(D), b(std::move(b_)), c(std::move(c_)) {
		b->use("D");
		auto held = c.lock();
		if (!held) vs::fail("dependency gone", "a weakly injected singleton is gone");
		held->use("D");
		if (held->a != b->a) vs::fail("two objects", "the dependencies of D have different objects A");
	}
	BalauInjectTypes(NodeD, std::shared_ptr<NodeB>, std::weak_ptr<NodeC>)
};
// Per thread, on a lazy singleton.
struct NodeT : Body { std::shared_ptr<NodeA> a; int thread; explicit NodeT(std::shared_ptr<NodeA> a_) : Body(T), a(std::move(a_)) { a->use("T"); vs::Quiet quiet; thread = vs::tid(); } BalauInjectTypes(NodeT, std::shared_ptr<NodeA>) };
// A new instance for each request, on a lazy singleton.
struct NodeU : Body { std::shared_ptr<NodeB> b; explicit NodeU(std::shared_ptr<NodeB> b_) : Body(U), b(std::move(b_)) { b->use("U"); } BalauInjectTypes(NodeU, std::shared_ptr<NodeB>) };
// Named.
struct NodeN : Body { NodeN() : Body(N) {} BalauInjectTypes(NodeN) };
// Asks the injector while it is constructed.
struct NodeW : Body {
	std::shared_ptr<NodeB> b;
	explicit NodeW(std::shared_ptr<NodeB> b_) : Body(W), b(std::move(b_)) { b->use("W"); }
	explicit NodeW(std::weak_ptr<Injector> injector_) : NodeW(injector_.lock()->getShared<NodeB>()) {}
	BalauInjectTypes(NodeW, std::weak_ptr<Injector>)
};

struct Lower : ApplicationConfiguration {
	bool eager = false;
	void configure() const override {
		bind<NodeA>().toSingleton();
		bind<NodeB>().toSingleton();
		bind<NodeC>().toSingleton();
		bind<NodeN>("one").toSingleton();
		bind<NodeN>("two").toSingleton();
		bind<NodeT>().toThreadLocal();
	}
};
struct Upper : ApplicationConfiguration {
	void configure() const override {
		bind<NodeD>().toSingleton();
		bind<NodeU>().toUnique<NodeU>();
		bind<NodeW>().toSingleton();
	}
};
struct Empty : ApplicationConfiguration { void configure() const override {} };

enum Op { GetA, GetConstA, GetB, GetC, GetD, GetT, GetU, GetW, GetOne, GetTwo, Iterate, Child, Print, Ops };
const char * opNames[] = { "get A", "get const A", "get B", "get C", "get D", "get T", "new U", "get W", "get one", "get two", "iterate", "child", "print and register" };

struct Got {
	std::shared_ptr<const Body> op[Ops];
	std::vector<std::unique_ptr<NodeU>> unique;
	int threw = 0;
};

void scenario(vk::Ctx & ctx, const std::vector<std::vector<int>> & programs, int throwing, bool layered, vs::Bounds b) {
	std::string name = std::string(layered ? "bindings in parent and child, " : "one injector, ") + (throwing ? "first " + std::to_string(throwing) + " constructions of A throw, " : "");
	for (size_t t = 0; t < programs.size(); ++t) {
		if (t) name += " | ";
		for (size_t i = 0; i < programs[t].size(); ++i) name += std::string(i ? ", " : "") + opNames[programs[t][i]];
	}
	vs::explore(ctx, name, b, [&] {
		World w;
		world = &w;
		w.throwing = throwing;
		std::vector<Got> got(programs.size());
		bool asked[Ops] = {};
		for (auto & p : programs) for (int op : p) asked[op] = true;
		{
			std::shared_ptr<Injector> parent, injector;
			{
				vs::Quiet quiet;
				parent = layered ? Injector::create(Lower()) : Injector::create(Lower(), Upper());
				injector = layered ? parent->createChild(Upper()) : parent;
			}
			for (int k = 0; k < Kinds; ++k) if (w.built[k]) vs::fail("built too early", "object " + std::to_string(k) + " is built on creation");
			auto run = [&] (size_t t) {
				Got & mine = got[t];
				auto same = [&] (int op, std::shared_ptr<const Body> p) {
					if (!p) { vs::fail("null", "a request gives null"); return; }
					p->use(opNames[op]);
					if (mine.op[op] && mine.op[op] != p) vs::fail("two objects", std::string(opNames[op]) + ": a thread gets two different objects");
					mine.op[op] = std::move(p);
				};
				for (int op : programs[t]) {
					try {
						switch (op) {
							case GetA: same(op, injector->getShared<NodeA>()); break;
							case GetConstA: same(op, injector->getShared<const NodeA>()); break;
							case GetB: same(op, injector->getShared<NodeB>()); break;
							case GetC: same(op, injector->getShared<NodeC>()); break;
							case GetD: same(op, injector->getShared<NodeD>()); break;
							case GetT: same(op, injector->getShared<NodeT>()); break;
							case GetW: same(op, injector->getShared<NodeW>()); break;
							case GetOne: same(op, injector->getShared<NodeN>("one")); break;
							case GetTwo: same(op, injector->getShared<NodeN>("two")); break;
							case GetU: { auto u = injector->getUnique<NodeU>(); u->use("U"); u->b->use("U"); mine.unique.push_back(std::move(u)); } break;
							case Iterate: {
								int seen = 0;
								(layered ? parent : injector)->iterate<NodeA>(std::function<void (std::shared_ptr<NodeA>)>([&] (std::shared_ptr<NodeA> p) { ++seen; same(GetA, p); }));
								if (seen != 1) vs::fail("iterate", "iteration gives " + std::to_string(seen) + " objects");
							} break;
							case Child: {
								auto child = injector->createChild(Empty());
								same(GetB, child->getShared<NodeB>());
							} break;
							case Print: {
								if (!injector->hasBinding<std::shared_ptr<NodeD>>() || injector->hasBinding<std::shared_ptr<int>>()) vs::fail("has binding", "wrong answer");
								if (injector->printBindings(true).empty()) vs::fail("print", "nothing printed");
								injector->registerPreDestructionCall([&w] { ++w.calls; });
								vs::Quiet quiet;
								++w.children;
							} break;
						}
					} catch (const std::runtime_error &) { vs::Quiet quiet; ++mine.threw; }
				}
			};
			std::vector<std::thread> ts;
			for (size_t t = 1; t < programs.size(); ++t) ts.emplace_back(run, t);
			run(0);
			for (auto & t : ts) t.join();
			vs::Quiet quiet;
			int threw = 0;
			for (auto & g : got) threw += g.threw;
			if (threw > throwing) vs::fail("exceptions", "more requests threw than constructions");
			if (w.tried - w.built[A] != threw) vs::fail("exceptions", std::to_string(w.tried - w.built[A]) + " constructions threw but " + std::to_string(threw) + " requests");
			for (int k : { A, B, C, D, W }) if (w.built[k] > 1) vs::fail("built twice", "singleton " + std::to_string(k) + " is built " + std::to_string(w.built[k]) + " times");
			for (int op : { GetA, GetB, GetC, GetD, GetW, GetOne, GetTwo }) {
				std::shared_ptr<const Body> one;
				for (auto & g : got) if (g.op[op]) {
					if (one && one != g.op[op]) vs::fail("two objects", std::string(opNames[op]) + ": two threads have different objects");
					one = g.op[op];
				}
			}
			std::shared_ptr<const Body> a;
			for (auto & g : got) for (int op : { GetA, GetConstA }) if (g.op[op]) { if (a && a != g.op[op]) vs::fail("two objects", "the const promotion gives another object"); a = g.op[op]; }
			for (auto & g : got) if (g.op[GetT]) if (auto t = std::static_pointer_cast<const NodeT>(g.op[GetT]); a && t->a != a) vs::fail("two objects", "T has another A");
			if (asked[GetOne] && asked[GetTwo]) {
				for (auto & g : got) for (auto & h : got) if (g.op[GetOne] && g.op[GetOne] == h.op[GetTwo]) vs::fail("shared", "two names have the same object");
			}
			if (w.built[N] != (int) asked[GetOne] + (int) asked[GetTwo]) vs::fail("built twice", "named singletons are built " + std::to_string(w.built[N]) + " times");
			std::set<const void *> locals, uniques;
			int askedLocals = 0, askedUniques = 0;
			for (size_t t = 0; t < got.size(); ++t) {
				if (got[t].op[GetT]) {
					++askedLocals;
					locals.insert(got[t].op[GetT].get());
					int id = ((const NodeT *) got[t].op[GetT].get())->thread;
					if (id != (int) t) vs::fail("thread local", "thread " + std::to_string(t) + " has the object of thread " + std::to_string(id));
					if (w.builtBy[std::make_pair((int) T, (int) t)] != 1) vs::fail("thread local", "built " + std::to_string(w.builtBy[std::make_pair((int) T, (int) t)]) + " times in one thread");
				}
				for (auto & u : got[t].unique) { ++askedUniques; uniques.insert(u.get()); }
			}
			if ((int) locals.size() != askedLocals || w.built[T] != askedLocals) vs::fail("thread local", "threads share an object");
			if ((int) uniques.size() != askedUniques || w.built[U] != askedUniques) vs::fail("new instances", std::to_string(w.built[U]) + " objects were built for " + std::to_string(askedUniques) + " requests");
			for (int k : { A, B, C, D, N, W }) if (w.destroyed[k]) vs::fail("destroyed too early", "object " + std::to_string(k));
			std::string o;
			for (int k = 0; k < Kinds; ++k) o += std::to_string(w.built[k]);
			vs::outcome(o);
			a.reset();
			got.clear();
			injector.reset();
			parent.reset();
			if (w.calls != w.children) vs::fail("calls", std::to_string(w.children) + " registered calls, " + std::to_string(w.calls) + " made");
			for (int k = 0; k < Kinds; ++k) if (w.built[k] != w.destroyed[k]) vs::fail("destruction", "objects " + std::to_string(k) + " are built " + std::to_string(w.built[k]) + " times, destroyed " + std::to_string(w.destroyed[k]));
		}
		world = nullptr;
	});
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	bool th = ctx.thorough();
	vs::Bounds b;
	b.preemptions = th ? 3 : 2;
	// Two threads with one request each, all pairs.
	for (int layered = 0; layered < 2; ++layered) for (int x = 0; x < Ops; ++x) for (int y = x; y < Ops; ++y) {
		vs::Bounds deeper = b;
		deeper.preemptions = th ? 4 : 3;
		scenario(ctx, { { x }, { y } }, 0, layered, deeper);
		for (int throwing = 1; throwing < 3; ++throwing) scenario(ctx, { { x }, { y } }, throwing, layered, b);
	}
	// Two threads with two requests each.
	for (int x = 0; x < Ops; ++x) for (int y = 0; y < Ops; ++y) for (int z = x; z < Ops; ++z) for (int v = 0; v < Ops; ++v) {
		if (!th && (x > GetW || y > GetW || z > GetW || v > GetW || x == GetConstA || z == GetConstA)) continue;
		vs::Bounds two = b;
		two.preemptions = th ? 3 : 2;
		scenario(ctx, { { x, y }, { z, v } }, 0, (x + y + z + v) & 1, two);
	}
	// Three threads with one request each.
	for (int x = 0; x < Ops; ++x) for (int y = x; y < Ops; ++y) for (int z = y; z < Ops; ++z) for (int throwing = 0; throwing < 2; ++throwing) {
		vs::Bounds three = b;
		three.preemptions = th ? 3 : 2;
		scenario(ctx, { { x }, { y }, { z } }, throwing, (x + y + z) & 1, three);
	}
	return ctx.finish();
}
