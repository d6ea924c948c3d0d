// What an injector does from its creation to its destruction: eager singletons are built once, after what they depend on; the
// registered calls are made once each, in order, at the right moments; everything is destroyed once, no earlier than its last holder.
#include "p08.hpp"

using Calls = std::vector<std::string>;
Calls calls;                                   // Everything that happens, in order.
std::vector<std::string> wrong;                // What was found to be wrong within a call.
void expect(bool ok, const std::string & what) { if (!ok) wrong.push_back(what); }
std::string list(const Calls & c) { std::string r; for (auto & s : c) r += s + " "; return r; }
Calls only(const std::string & prefix) { Calls r; for (auto & s : calls) if (s.rfind(prefix, 0) == 0) r.push_back(s); return r; }
void reset() { calls.clear(); wrong.clear(); live.clear(); broken.clear(); total = 0; for (auto & b : builtCount) b = 0; }

// ---- graphs ----------------------------------------------------------------------------------------------------------------

struct Node { int scope; int deps; };

struct GraphConf : Conf {
	std::vector<Node> nodes;
	std::vector<int> order;
	std::function<void (const Injector &)> post;
	std::function<void ()> pre;
	void configure() const override {
		for (int n : order) ::items[0][n][nodes[n].deps][nodes[n].scope](*this);
		registerPostConstructionCall(post);
		registerPreDestructionCall(pre);
	}
};

Any * ask(const Injector & injector, int n, std::shared_ptr<void> & hold) {
	auto get = [&] (auto p) -> Any * { hold = p; return p.get(); };
	return n == 0 ? get(injector.getShared<Base<0>>()) : n == 1 ? get(injector.getShared<Base<1>>()) : get(injector.getShared<Base<2>>());
}

void graphs(vk::Ctx & ctx) {
	const std::vector<std::vector<int>> orders = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
	for (int m = 0; m < 8 * 8 * 8; ++m) {
		int deps[3] = { m & 7, m >> 3 & 7, m >> 6 & 7 };
		// Reachability; configurations with cycles are not created (P08).
		int reach[3] = { deps[0], deps[1], deps[2] };
		for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (reach[i] >> j & 1) reach[i] |= reach[j];
		if (reach[0] & 1 || reach[1] & 2 || reach[2] & 4) continue;
		for (int s = 0; s < 8; ++s) for (auto & order : orders) for (int first = -1; first < 3; ++first) for (int second = -1; second < (first < 0 ? 0 : 3); ++second) {
			if (!ctx.begin([&] { return "nodes depending on " + std::to_string(deps[0]) + " " + std::to_string(deps[1]) + " " + std::to_string(deps[2]) + ", eager " + std::to_string(s) + ", bound in the order "
				+ std::to_string(order[0]) + std::to_string(order[1]) + std::to_string(order[2]) + ", then asked for " + std::to_string(first) + " and " + std::to_string(second) + " (held)"; })) continue;
						reset();
			int eager = s;
			for (int i = 0; i < 3; ++i) if (s >> i & 1) eager |= reach[i];
			auto exactly = [&] (int set, const char * when) {
				for (int i = 0; i < 3; ++i) expect(builtCount[i] == (set >> i & 1), std::string(when) + ": node " + std::to_string(i) + " has been built " + std::to_string(builtCount[i]) + " times");
				expect((int) live.size() == __builtin_popcount(set), std::string(when) + ": " + std::to_string(live.size()) + " objects are alive");
			};
			int have = eager;
			std::shared_ptr<void> held, other;
			{
				auto shared = std::make_shared<GraphConf>();
				auto & conf = *shared;
				for (int i = 0; i < 3; ++i) conf.nodes.push_back({ s >> i & 1 ? Eager : Lazy, deps[i] });
				conf.order = order;
				conf.post = [&] (const Injector &) { calls.push_back("post"); exactly(eager, "post-construction call"); };
				conf.pre = [&] { calls.push_back("pre"); exactly(have, "pre-destruction call"); };
				std::shared_ptr<Injector> injector;
				if (s & 1 && order[0] == 0) {
					injector = Injector::create(conf);
				} else {
					injector = Injector::create(std::vector<std::shared_ptr<InjectorConfiguration>> { shared });
				}
				expect(calls == Calls { "post" }, "after creation the calls were " + list(calls));
				exactly(eager, "after creation");
				for (int n : { first, second }) if (n >= 0) {
					Any * p = ask(*injector, n, n == second ? held : other);
					expect(live.count(p) && p->node == n, "asking gave something else");
					std::shared_ptr<void> again;
					expect(ask(*injector, n, again) == p, "asking again gave another object");
					have |= 1 << n | reach[n];
					exactly(have, "after asking");
				}
				if (second >= 0 && first != second) other.reset();
				if (first == second) other.reset();
				if (second < 0) other.reset();
				exactly(have, "before destruction");
				injector.reset();
			}
			expect(calls == Calls { "post", "pre" }, "after destruction the calls were " + list(calls));
			int kept = second >= 0 ? 1 << second | reach[second] : 0;
			expect((int) live.size() == __builtin_popcount(kept), "after the injector " + std::to_string(live.size()) + " objects are alive, which should be " + std::to_string(__builtin_popcount(kept)));
			held.reset();
			expect(live.empty() && total == 0, "objects remain when nobody holds them");
			expect(broken.empty(), broken);
			ctx.check(wrong.empty(), wrong.empty() ? "" : "graph: " + wrong[0].substr(0, wrong[0].find(':')), [&] { return wrong[0]; });
			++ctx.traces;
			ctx.transitions += 8;
			ctx.state(m * 8 + s);
		}
	}
}

// ---- registered calls ------------------------------------------------------------------------------------------------------

struct Thing : Any { explicit Thing(int n) : Any(n) { built(); } };
struct EagerThing : Thing { EagerThing() : Thing(0) { calls.push_back("eager built"); } ~EagerThing() override { calls.push_back("eager destroyed"); } BalauInjectTypes(EagerThing) };
struct LazyThing : Thing { LazyThing() : Thing(1) { calls.push_back("lazy built"); } ~LazyThing() override { calls.push_back("lazy destroyed"); } BalauInjectTypes(LazyThing) };

int registering;                               // What the constructor below registers.
void usable(const Injector & injector, const std::string & where);
struct Registering : Thing {
	std::weak_ptr<Injector> weak;
	explicit Registering(std::weak_ptr<Injector> injector_) : Thing(2), weak(std::move(injector_)) {
		auto injector = weak.lock();
		expect((bool) injector, "the weak pointer to the injector is empty within a constructor");
		if (!injector) return;
		for (int i = 0; i < 2; ++i) {
			if (registering & 1) injector->registerPostConstructionCall([i] (const Injector & j) { calls.push_back("post c" + std::to_string(i)); usable(j, "post c"); });
			if (registering & 2) injector->registerPreDestructionCall([i] { calls.push_back("pre c" + std::to_string(i)); expect(live.size() >= 2, "pre c: singletons are already gone"); });
		}
		if (registering & 4) injector->registerStaticSingleton(&self());
	}
	static std::shared_ptr<Registering> & self() { static std::shared_ptr<Registering> p; return p; }
	~Registering() override { calls.push_back("registering destroyed"); }
	BalauInjectTypes(Registering, std::weak_ptr<Injector>)
};

bool registeringBound;
bool secondInChild;
bool childMade;
bool validating;                               // Whether validation makes pre-destruction calls is left open.
void usable(const Injector & injector, const std::string & where) {
	expect(only("eager built").size() == 1 && only("eager destroyed").empty(), where + ": the eager singleton is not there");
	if (registeringBound && (!secondInChild || childMade)) expect(builtCount[2] == 1, where + ": the second eager singleton is not there");
	expect(injector.hasBinding<std::shared_ptr<EagerThing>>("e"), where + ": no binding");
	expect(live.count(injector.getShared<EagerThing>("e").get()), where + ": the injector gives something else");
	expect(live.count(injector.getShared<LazyThing>("l").get()), where + ": the injector gives something else");
}

std::shared_ptr<EagerThing> staticEager[2];
std::shared_ptr<LazyThing> staticLazy;
std::shared_ptr<const EagerThing> staticConst;
struct Boom {};

struct Things : ApplicationConfiguration {
	void configure() const override {
		bind<EagerThing>("e").toEagerSingleton();
		bind<LazyThing>("l").toSingleton();
	}
};

enum What { Post, Pre, StaticEager, StaticLazy, StaticOther, PostRegisters, Constructor, Items };
const char * itemNames[] = { "post", "pre", "static eager", "static lazy", "second static eager", "post registering pre", "constructor" };

struct CallsConf : ApplicationConfiguration {
	std::string name;
	std::vector<int> what;
	bool things = false;
	std::vector<std::shared_ptr<CallsConf>> extra;
	void configure() const override {
		if (things) {
			bind<EagerThing>("e").toEagerSingleton();
			bind<LazyThing>("l").toSingleton();
		}
		for (size_t i = 0; i < what.size(); ++i) {
			std::string id = name + std::to_string(i);
			switch (what[i]) {
				case Post: registerPostConstructionCall([id] (const Injector & j) { calls.push_back("post " + id); usable(j, "post"); }); break;
				case Pre: registerPreDestructionCall([id] { calls.push_back("pre " + id); expect(validating || (!only("eager built").empty() && only("eager destroyed").empty() && only("lazy destroyed").empty()), "pre: singletons are already gone"); }); break;
				case StaticEager: registerStaticSingleton(&staticEager[0], "e"); break;
				case StaticOther: registerStaticSingleton(&staticEager[1], "e"); break;
				case StaticLazy: registerStaticSingleton(&staticLazy, "l"); break;
				case PostRegisters: registerPostConstructionCall([id] (const Injector & j) {
					calls.push_back("post " + id);
					usable(j, "post");
					j.registerPreDestructionCall([id] { calls.push_back("pre r" + id); expect(only("eager destroyed").empty(), "pre: singletons are already gone"); });
				}); break;
				case Constructor: bind<Registering>().toEagerSingleton(); break;
			}
		}
		for (auto & e : extra) addConfiguration(*e);
	}
};

void registered(vk::Ctx & ctx) {
	// How the items are divided: all in one, the last ones in a second configuration, in an extra configuration, or in the child.
	for (int division = 0; division < 4; ++division)
	for (int creation = 0; creation < 4; ++creation)         // variadic, vector; validated before; created twice
	for (int after = 0; after < 3; ++after)                  // nothing; registers a call on the injector; holds the lazy singleton
	for (size_t length = 0; length <= (ctx.thorough() ? 4u : 3u); ++length) vk::sequences(Items, length, [&] (const std::vector<int> & seq) {
		if (std::count(seq.begin(), seq.end(), (int) Constructor) > 1) return;
		if (division && seq.size() < 2) return;
		int kinds = std::count(seq.begin(), seq.end(), (int) Constructor) ? 8 : 1;
		for (registering = 0; registering < kinds; ++registering) {
			if (!ctx.begin([&] {
				std::string s = std::string("items") ;
				for (int i : seq) s += std::string(", ") + itemNames[i];
				static const char * divisions[] = { "in one configuration", "the last in a second configuration", "the last in an extra configuration", "the last in a child" };
				static const char * creations[] = { "variadic", "vector", "variadic, validated before", "vector, created twice" };
				return s + "; " + divisions[division] + "; " + creations[creation] + "; after " + std::to_string(after) + "; constructor registers " + std::to_string(registering);
			})) continue;
						reset();
			registeringBound = std::count(seq.begin(), seq.end(), (int) Constructor);
			for (auto & p : staticEager) p.reset();
			staticLazy.reset();
			Registering::self().reset();
			auto one = std::make_shared<CallsConf>(), two = std::make_shared<CallsConf>();
			one->name = "a";
			two->name = "b";
			one->things = true;
			one->what = seq;
			size_t parentItems = seq.size();
			if (division) {
				two->what = { seq.back() };
				one->what.pop_back();
				if (division == 3) --parentItems;
			}
			if (division == 2) one->extra = { two };
			bool constructorInChild = division == 3 && seq.back() == Constructor;
			secondInChild = constructorInChild;
			childMade = false;
			bool vec = creation & 1;
			auto make = [&] (const std::shared_ptr<Injector> & parent, const std::vector<std::shared_ptr<CallsConf>> & confs) -> std::shared_ptr<Injector> {
				if (!vec) {
					if (confs.size() == 2) return parent ? parent->createChild(*confs[0], *confs[1]) : Injector::create(*confs[0], *confs[1]);
					return parent ? parent->createChild(*confs[0]) : Injector::create(*confs[0]);
				}
				std::vector<std::shared_ptr<InjectorConfiguration>> v(confs.begin(), confs.end());
				return parent ? parent->createChild(v) : Injector::create(v);
			};
			auto expected = [&] (bool post, const std::string & name, const std::vector<int> & what) {
				Calls r;
				for (size_t i = 0; i < what.size(); ++i) {
					if (post ? what[i] == Post || what[i] == PostRegisters : what[i] == Pre) r.push_back((post ? "post " : "pre ") + name + std::to_string(i));
				}
				return r;
			};
			auto compare = [&] (const std::string & prefix, const Calls & want, const char * when) {
				auto got = only(prefix);
				expect(got == want, std::string(when) + ": the calls " + prefix + "... were " + list(got) + "instead of " + list(want));
			};
			auto happened = [&] (bool post, bool parentToo, bool childToo, const char * when) {
				const char * p = post ? "post " : "pre ";
				compare(std::string(p) + "a", parentToo ? expected(post, "a", one->what) : Calls(), when);
				compare(std::string(p) + "b", (division == 3 ? childToo : parentToo) ? expected(post, "b", two->what) : Calls(), when);
				if (!post) {
					for (auto & [conf, did] : { std::make_pair(one, parentToo), std::make_pair(two, division == 3 ? childToo : parentToo) }) {
						Calls r;
						for (size_t i = 0; i < conf->what.size(); ++i) if (did && conf->what[i] == PostRegisters) r.push_back("pre r" + conf->name + std::to_string(i));
						compare("pre r" + conf->name, r, when);
					}
				}
				bool c = registeringBound && registering & (post ? 1 : 2) && (constructorInChild ? childToo : parentToo);
				compare(std::string(p) + "c", c ? Calls { std::string(p) + "c0", std::string(p) + "c1" } : Calls(), when);
			};
			auto statics = [&] (const Injector & injector, bool parentToo, bool childToo, const char * when) {
				auto set = [&] (int item) {
					bool inOne = std::count(one->what.begin(), one->what.end(), item), inTwo = std::count(two->what.begin(), two->what.end(), item);
					return (inOne && parentToo) || (inTwo && (division == 3 ? childToo : parentToo));
				};
				for (int k = 0; k < 2; ++k) expect(staticEager[k] == (set(k ? StaticOther : StaticEager) ? injector.getShared<EagerThing>("e") : nullptr), std::string(when) + ": the static pointer to the eager singleton is wrong");
				expect(staticLazy == (set(StaticLazy) ? injector.getShared<LazyThing>("l") : nullptr), std::string(when) + ": the static pointer to the lazy singleton is wrong");
				bool self = registeringBound && registering & 4 && (constructorInChild ? childToo : parentToo);
				expect((bool) Registering::self() == self, std::string(when) + ": the static pointer registered by a constructor is wrong");
			};
			for (int round = 0; round < (creation == 3 ? 2 : 1); ++round) {
				calls.clear();
				live.clear();
				childMade = false;
				for (auto & b : builtCount) b = 0;
				std::vector<std::shared_ptr<CallsConf>> confs { one };
				if (division == 1) confs.push_back(two);
				if (creation == 2) {
					validating = true;
					if (division == 3) Injector::validateChild(Injector::validate(*one), *two);
					else if (division == 1) Injector::validate(*one, *two);
					else Injector::validate(*one);
					validating = false;
					expect(total == 0 && only("post").empty(), "validation builds or calls something");
					calls.clear();
				}
				auto parent = make(nullptr, confs);
				happened(true, true, false, "after creation");
				happened(false, false, false, "after creation");
				statics(*parent, true, false, "after creation");
				std::shared_ptr<Injector> child;
				if (division == 3) {
					childMade = true;
					child = make(parent, { two });
					happened(true, true, true, "after creation of the child");
					happened(false, false, false, "after creation of the child");
					statics(*child, true, true, "after creation of the child");
				}
				auto & last = child ? child : parent;
				std::shared_ptr<LazyThing> held;
				if (after == 1) last->registerPreDestructionCall([] { calls.push_back("pre x"); expect(only("eager destroyed").empty(), "pre x: singletons are already gone"); });
				if (after == 2) held = last->getShared<LazyThing>("l");
				expect(builtCount[0] == 1 && builtCount[1] <= 1, "built more than once");
				if (child) {
					auto keep = parent->getShared<EagerThing>("e");
					if (round == 0 && creation == 1) parent.reset();      // The child keeps it.
					expect(only("pre").empty() && only("eager destroyed").empty(), "the parent of an injector is destroyed before it");
					keep.reset();
					auto p = child;
					child.reset();
					expect(only("pre").empty(), "an injector that is held is destroyed");
					auto parentHeld = parent;
					p.reset();
					happened(false, !parentHeld, true, "after destruction of the child");
					compare("pre x", after == 1 ? Calls { "pre x" } : Calls(), "after destruction of the child");
					parentHeld.reset();
				}
				parent.reset();
				happened(false, true, true, "after destruction");
				happened(true, true, true, "after destruction");
				compare("pre x", after == 1 ? Calls { "pre x" } : Calls(), "after destruction");
				expect(!staticEager[0] && !staticEager[1] && !staticLazy && !Registering::self(), "a static pointer is still set after destruction");
				expect(only("eager destroyed").size() == 1, "the eager singleton is not destroyed with the injector");
				expect(only("eager built").size() == 1 && only("lazy built").size() <= 1, "built more than once");
				expect(only("lazy destroyed").size() == (held ? 0 : only("lazy built").size()), "the lazy singleton is destroyed too early or not at all");
				if (held) expect(live.count(held.get()), "the held singleton is not alive");
				held.reset();
				expect(only("lazy destroyed").size() == only("lazy built").size(), "the lazy singleton is not destroyed by its last holder");
				expect(total == 0 && live.empty(), "objects remain");
			}
			expect(broken.empty(), broken);
			ctx.check(wrong.empty(), wrong.empty() ? "" : "calls: " + wrong[0].substr(0, wrong[0].find(':')), [&] { return wrong[0] + "\n  what happened: " + list(calls); });
			++ctx.traces;
			ctx.transitions += seq.size() + 3;
			ctx.state(std::hash<std::string>()(list(calls)));
		}
		registering = 0;
	});
}

// ---- creation that fails on the way ------------------------------------------------------------------------------------------

int throwAt;                                   // The constructor or call that throws.
template <int I> struct Fragile : Base<I> {
	explicit Fragile() { this->built(); if (throwAt == I) throw Boom(); }
	BalauInjectTypes(Fragile)
};
template <int I, int J> struct FragileOn : Base<I> {
	std::shared_ptr<Base<J>> dep;
	explicit FragileOn(std::shared_ptr<Base<J>> dep_) : dep(std::move(dep_)) { this->built(); if (throwAt == I) throw Boom(); }
	BalauInjectTypes(FragileOn, std::shared_ptr<Base<J>>)
};
struct FragileConf : ApplicationConfiguration {
	int lazies = 0;
	int throwingCall = -1;
	void configure() const override {
		if (lazies & 1) bind<Base<0>>().toSingleton<Fragile<0>>(); else bind<Base<0>>().toEagerSingleton<Fragile<0>>();
		if (lazies & 2) bind<Base<1>>().toSingleton<FragileOn<1, 0>>(); else bind<Base<1>>().toEagerSingleton<FragileOn<1, 0>>();
		if (lazies & 4) bind<Base<2>>().toSingleton<FragileOn<2, 1>>(); else bind<Base<2>>().toEagerSingleton<FragileOn<2, 1>>();
		for (int i = 0; i < 3; ++i) registerPostConstructionCall([this, i] (const Injector &) { calls.push_back("post " + std::to_string(i)); if (i == throwingCall) throw Boom(); });
	}
};

void failing(vk::Ctx & ctx) {
	for (int lazies = 0; lazies < 8; ++lazies) for (int at = -1; at < 3; ++at) for (int call = -1; call < 3; ++call) for (int vec = 0; vec < 2; ++vec) for (int tries = 1; tries <= 3; ++tries) {
		if (!ctx.begin([&] { return "chain of three, lazy " + std::to_string(lazies) + ", construction " + std::to_string(at) + " throws, call " + std::to_string(call) + " throws, " + (vec ? "vector" : "variadic") + ", " + std::to_string(tries) + " requests"; })) continue;
				reset();
		throwAt = at;
		auto conf = std::make_shared<FragileConf>();
		conf->lazies = lazies;
		conf->throwingCall = call;
		// The chain is 2 -> 1 -> 0: node n is built on creation when it or a dependant is eager.
		int highest = -1;
		for (int i = 0; i < 3; ++i) if (!(lazies >> i & 1)) highest = i;
		bool fails = at >= 0 && at <= highest;
		std::shared_ptr<Injector> injector;
		bool threw = false;
		try { injector = vec ? Injector::create(std::vector<std::shared_ptr<InjectorConfiguration>> { conf }) : Injector::create(*conf); } catch (const Boom &) { threw = true; }
		bool shouldThrow = fails || call >= 0;
		expect(threw == shouldThrow, threw ? "creation throws without reason" : "creation does not pass on the exception");
		Calls want;
		if (!fails) for (int i = 0; i < 3 && (call < 0 || i <= call); ++i) want.push_back("post " + std::to_string(i));
		expect(calls == want, "calls: " + list(calls) + "instead of " + list(want));
		if (threw) expect(total == 0, "objects remain after creation failed");
		else {
			// A lazy singleton whose construction throws is tried again by the next request.
			for (int t = 0; t < tries; ++t) {
				bool requestThrew = false;
				if (t == 1) throwAt = -1;
				bool expectThrow = throwAt >= 0;
				try { auto p = injector->getShared<Base<2>>(); expect(live.count(p.get()), "asking gave something else"); } catch (const Boom &) { requestThrew = true; }
				expect(requestThrew == expectThrow, requestThrew ? "the request throws without reason" : "the request does not pass on the exception");
				expect((int) live.size() == (expectThrow ? throwAt : 3), std::to_string(live.size()) + " objects are alive after the request");
			}
			injector.reset();
			expect(total == 0, "objects remain");
		}
		ctx.check(wrong.empty(), wrong.empty() ? "" : "failing: " + wrong[0].substr(0, wrong[0].find(':')), [&] { return wrong[0]; });
		++ctx.traces;
		ctx.transitions += 3;
		ctx.state(4000000 + lazies * 16 + at + 1);
	}
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	fillFlavour<0>(std::make_integer_sequence<int, 3>());
	failing(ctx);
	registered(ctx);
	graphs(ctx);
	return ctx.finish();
}
