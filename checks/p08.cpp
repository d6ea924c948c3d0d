// Injector graph validation: every configuration of three nodes (absent, or bound in the parent, the child or both; lazy,
// eager or thread-local; any set of dependencies; shared, const promoted, weak promoted and unique dependencies) is either
// rejected with the documented exception before anything is built, or built in dependency order, once.
#include "p08.hpp"

struct Node { int where = 0; int mask = 0; int scope = 0; };     // where: bit set of the levels
static const char * whereNames[] = { "absent", "in the parent", "in the child", "in both", "in the grandchild", "in the parent and grandchild", "in the child and grandchild", "in all three" };
static const char * scopeNames[] = { "lazy", "eager", "thread-local", "unique" };
static const char * flavourNames[] = { "shared", "shared const", "weak", "shared, unique for node 2" };

struct Graph {
	int flavour; int n; Node nodes[4];
	std::string text() const {
		std::string t = std::string(flavourNames[flavour]) + " dependencies:";
		for (int i = 0; i < n; ++i) {
			t += " node " + std::to_string(i) + " " + whereNames[nodes[i].where];
			if (!nodes[i].where) { t += ";"; continue; }
			t += std::string(" ") + scopeNames[nodes[i].scope] + " needs {";
			for (int j = 0; j < n; ++j) if (nodes[i].mask >> j & 1) t += std::to_string(j);
			t += "};";
		}
		return t;
	}
	bool at(int i, int level) const { return nodes[i].where >> level & 1; }
	// The level at which a request made at the given level is satisfied, or -1.
	int find(int i, int level) const { for (; level >= 0; --level) if (at(i, level)) return level; return -1; }
	bool missing(int level) const {
		for (int i = 0; i < n; ++i) if (at(i, level)) for (int j = 0; j < n; ++j) if ((nodes[i].mask >> j & 1) && find(j, level) < 0) return true;
		return false;
	}
	bool reaches(int from, int to, int level, int depth) const {
		for (int j = 0; j < n; ++j) if ((nodes[from].mask >> j & 1) && find(j, level) == level) {
			if (j == to || (depth < n && reaches(j, to, level, depth + 1))) return true;
		}
		return false;
	}
	bool cyclic(int level) const {
		for (int i = 0; i < n; ++i) if (at(i, level) && reaches(i, i, level, 0)) return true;
		return false;
	}
};

// What has been built, according to the model.
struct Built {
	const Graph & g;
	bool done[2][4] = {};
	int count[4] = {};
	void get(int i, int level) {       // (level of the binding itself)
		if (g.nodes[i].scope != Unique && done[level][i]) return;
		for (int j = 0; j < g.n; ++j) if (g.nodes[i].mask >> j & 1) get(j, g.find(j, level));
		done[level][i] = true;
		++count[i];
	}
	void create(int level) { for (int i = 0; i < g.n; ++i) if (g.at(i, level) && g.nodes[i].scope == Eager) get(i, level); }
};

static std::string attempt(const std::function<void ()> & f) {
	try { f(); return "accepted"; }
	catch (const Exception::MissingDependencyException &) { return "missing"; }
	catch (const Exception::CyclicDependencyException &) { return "cyclic"; }
	catch (const Exception::DuplicateBindingException &) { return "duplicate"; }
	catch (const Exception::SharedInjectorException &) { return "shared injector"; }
	catch (const std::exception & e) { return std::string("other exception: ") + e.what(); }
}

template <int I> const Any * getOne(const Injector & injector) { return injector.getShared<Base<I>>().get(); }
static const Any * getShared(const Injector & injector, int i) {
	switch (i) { case 0: return getOne<0>(injector); case 1: return getOne<1>(injector); case 2: return getOne<2>(injector); default: return getOne<3>(injector); }
}

static void one(vk::Ctx & ctx, const Graph & g) {
	broken.clear();
	live.clear();
	total = 0;
	std::fill(builtCount, builtCount + 4, 0);
	auto fail = [&] (const std::string & what, const std::string & detail = "") { ctx.violation(what + " " + g.text(), g.text() + " " + what + " " + detail); };
	auto conf = [&] (int level) {
		auto c = std::make_shared<Conf>();
		for (int i = 0; i < g.n; ++i) if (g.at(i, level)) c->items.push_back(items[g.flavour][i][g.nodes[i].mask][g.nodes[i].scope]);
		return c;
	};
	auto expectVerdict = [&] (const std::string & verdict, int level, const char * what) {
		ctx.transitions += 1;
		bool m = g.missing(level), c = g.cyclic(level);
		bool ok = (m && verdict == "missing") || (c && verdict == "cyclic") || (!m && !c && verdict == "accepted");
		if (!ok) fail(std::string(what) + " " + (level ? "child" : "parent") + " configuration is " + verdict, m ? "expected missing" : c ? "expected cyclic" : "expected accepted");
		return ok && verdict == "accepted";
	};
	auto nothingBuilt = [&] (const char * what) { if (total) fail(std::string(what) + " builds something"); };
	std::string outcome;
	{
		std::shared_ptr<Injector> parent, child;
		std::optional<Injector::ValidationParent> vp;
		std::string v = attempt([&] { vp = Injector::validate({ std::static_pointer_cast<InjectorConfiguration>(conf(0)) }); });
		expectVerdict(v, 0, "validate:");
		nothingBuilt("validate");
		auto c0 = conf(0);
		std::string r = attempt([&] { parent = Injector::create(*c0); });
		bool accepted = expectVerdict(r, 0, "create:");
		outcome = r;
		Built model{ g };
		auto compare = [&] (const char * when) {
			if (!broken.empty()) { fail(broken + " " + when); return; }
			for (int i = 0; i < g.n; ++i) if (builtCount[i] != model.count[i]) {
				fail(std::string("node ") + std::to_string(i) + " built " + std::to_string(builtCount[i]) + " times " + when, "expected " + std::to_string(model.count[i]));
				return;
			}
		};
		if (!accepted) nothingBuilt("rejected creation");
		else {
			model.create(0);
			compare("after creation of the parent");
			auto c1 = conf(1);
			int before = total;
			std::string vc = attempt([&] { Injector::validateChild(*vp, { std::static_pointer_cast<InjectorConfiguration>(conf(1)) }); });
			expectVerdict(vc, 1, "validate:");
			std::string rc = attempt([&] { child = parent->createChild(*c1); });
			bool childAccepted = expectVerdict(rc, 1, "create:");
			outcome += ", child " + rc;
			if (!childAccepted) { if (total != before) fail("rejected creation of the child builds something"); }
			else {
				model.create(1);
				compare("after creation of the child");
			}
			// Each shared binding supplies one instance, the one of the nearest level, with the dependencies of its own level.
			const Any * inst[2][4] = {};
			for (int level = 0; level <= (child ? 1 : 0) && broken.empty(); ++level) {
				const Injector & injector = level ? *child : *parent;
				for (int i = 0; i < g.n; ++i) {
					if (g.nodes[i].scope == Unique || g.find(i, level) < 0) continue;
					const Any * p = getShared(injector, i);
					int owner = g.find(i, level);
					model.get(i, owner);
					ctx.transitions += 1;
					if (!p || !live.count(p) || p->node != i) { fail("request supplies a wrong instance"); return; }
					if (inst[owner][i] && inst[owner][i] != p) { fail("two instances of a singleton"); return; }
					if (!inst[owner][i] && owner != level) { fail("the child does not supply the instance of the parent"); return; }
					inst[owner][i] = p;
					if (level == 1 && owner == 1 && inst[0][i] == p) { fail("the child's own binding is not used"); return; }
				}
				compare("after requests");
			}
			for (int level = 0; level <= (child ? 1 : 0); ++level) for (int i = 0; i < g.n; ++i) if (g.at(i, level) && inst[level][i]) {
				for (int j = 0; j < g.n; ++j) {
					const Any * d = inst[level][i]->deps[j];
					bool needs = g.nodes[i].mask >> j & 1;
					if (needs != (d != nullptr)) { fail("dependencies are not what was declared"); return; }
					if (needs && g.nodes[j].scope != Unique && d != inst[g.find(j, level)][j]) { fail("a dependency is not the instance that the injector supplies"); return; }
				}
			}
		}
	}
	if (!broken.empty()) fail(broken);
	if (total || !live.empty()) fail("something is not destroyed with the injectors");
	ctx.outcome(outcome);
	ctx.state(vk::hash(outcome + std::to_string(builtCount[0]) + std::to_string(builtCount[1]) + std::to_string(builtCount[2]) + g.text()));
	ctx.nontrivial(vk::hash(g.text()));
}

static void enumerate(vk::Ctx & ctx, int flavour, int n, int scopes, int wheres, int masks) {
	// All kinds of one node.
	std::vector<Node> kinds{ Node() };
	for (int w = 1; w <= 3; ++w) if (wheres >> w & 1) for (int m = 0; m < masks; ++m) {
		if (masks == 16 && m == 15) continue;                      // (at most three dependencies)
		for (int s = 0; s < scopes; ++s) { Node k; k.where = w; k.mask = m; k.scope = s; kinds.push_back(k); }
	}
	Graph g{ flavour, n, {} };
	std::function<void (int)> rec = [&] (int i) {
		if (i == n) { if (ctx.begin([&] { return g.text(); })) one(ctx, g); return; }
		for (auto & k : kinds) {
			g.nodes[i] = k;
			if (flavour == 3 && i == 2 && k.where) { if (k.scope != 0) continue; g.nodes[i].scope = Unique; }
			rec(i + 1);
		}
	};
	rec(0);
}

// Three levels: each node bound in any of the levels.
static void chain(vk::Ctx & ctx, int scope) {
	const int wheres = 1 << 3;
	Graph g{ 0, 3, {} };
	for (int w = 0; w < wheres * wheres * wheres; ++w) for (int m = 0; m < 512; ++m) {
		bool skip = false, deep = false;
		for (int i = 0; i < 3; ++i) {
			g.nodes[i] = Node{ w >> 3 * i & 7, m >> 3 * i & 7, scope };
			skip |= !g.nodes[i].where && g.nodes[i].mask;      // (absent nodes have no dependencies)
			if (!ctx.thorough()) skip |= __builtin_popcount(g.nodes[i].where) > 1;
			deep |= (g.nodes[i].where & 4) != 0;
		}
		if (skip || !deep) continue;
		if (!ctx.begin([&] { return std::string(scope == Lazy ? "three levels, lazy: " : "three levels, eager: ") + g.text(); })) continue;
		broken.clear();
		live.clear();
		total = 0;
		std::fill(builtCount, builtCount + 4, 0);
		auto fail = [&] (const std::string & what) { ctx.violation("three levels: " + what + " " + g.text(), g.text() + " " + what); };
		auto conf = [&] (int level) {
			auto c = std::make_shared<Conf>();
			for (int i = 0; i < 3; ++i) if (g.at(i, level)) c->items.push_back(items[0][i][g.nodes[i].mask][scope]);
			return c;
		};
		std::string outcome = "three levels: ";
		{
			std::vector<std::shared_ptr<Injector>> in;
			std::optional<Injector::ValidationParent> vp;
			for (int level = 0; level < 3; ++level) {
				bool mi = g.missing(level), cy = g.cyclic(level);
				auto v = attempt([&] {
					std::vector<std::shared_ptr<InjectorConfiguration>> confs{ conf(level) };
					auto next = level ? Injector::validateChild(*vp, confs) : Injector::validate(confs);
					vp.emplace(next);
				});
				int before = total;
				auto c = conf(level);
				auto r = attempt([&] { in.push_back(level ? in.back()->createChild(*c) : Injector::create(*c)); });
				ctx.transitions += 2;
				for (auto & x : { v, r }) {
					bool ok = (mi && x == "missing") || (cy && x == "cyclic") || (!mi && !cy && x == "accepted");
					if (!ok) fail("level " + std::to_string(level) + " is " + x + ", expected " + (mi ? "missing" : cy ? "cyclic" : "accepted"));
				}
				outcome += r + " ";
				if (r != "accepted" || v != "accepted") { if (total != before) fail("a rejected configuration builds something"); break; }
			}
			const Any * inst[3][4] = {};
			for (int level = 0; level < (int) in.size(); ++level) for (int i = 0; i < 3; ++i) {
				int owner = g.find(i, level);
				if (owner < 0) continue;
				const Any * p = getShared(*in[level], i);
				ctx.transitions += 1;
				if (!p || !live.count(p) || p->node != i || (owner != level && inst[owner][i] != p)) { fail("request supplies a wrong instance"); break; }
				for (int l = 0; l < owner; ++l) if (inst[l][i] == p) fail("the instance of a farther level is supplied");
				inst[owner][i] = p;
			}
			for (int level = 0; level < (int) in.size(); ++level) for (int i = 0; i < 3; ++i) if (g.at(i, level) && inst[level][i]) for (int j = 0; j < 3; ++j) {
				const Any * d = inst[level][i]->deps[j];
				bool needs = g.nodes[i].mask >> j & 1;
				if (needs != (d != nullptr) || (needs && d != inst[g.find(j, level)][j])) fail("a dependency is not the instance of the nearest level");
			}
		}
		if (!broken.empty()) fail(broken);
		if (total || !live.empty()) fail("something is not destroyed with the injectors");
		ctx.outcome(outcome);
		ctx.state(vk::hash(outcome + g.text()));
		ctx.nontrivial(vk::hash(g.text()));
	}
}

// A binding given twice, and dependencies on the injector itself.
struct V1 { std::weak_ptr<Injector> i; BalauInjectConstruct(V1, i) };
struct V2 { std::weak_ptr<const Injector> i; BalauInjectConstruct(V2, i) };
struct V3 { std::shared_ptr<Injector> i; BalauInjectConstruct(V3, i) };
struct V4 { std::shared_ptr<const Injector> i; BalauInjectConstruct(V4, i) };
template <typename T, int K> struct InjConf : ApplicationConfiguration {
	void configure() const override {
		if constexpr (K == 0) bind<T>().toSingleton();
		else if constexpr (K == 1) bind<T>().toEagerSingleton();
		else bind<T>().toThreadLocal();
	}
};
template <typename T, int K> void injected(vk::Ctx & ctx, const char * name, bool strong) {
	static const char * kinds[] = { "lazy singleton", "eager singleton", "thread-local" };
	std::string text = std::string(kinds[K]) + " with a " + name + " member";
	if (!ctx.begin([&] { return text; })) return;
	std::shared_ptr<Injector> injector;
	auto validation = attempt([&] { Injector::validate(InjConf<T, K>()); });
	auto r = attempt([&] { injector = Injector::create(InjConf<T, K>()); });
	ctx.check(r == validation, "validate and create disagree on " + text, [&] { return validation + " / " + r; });
	if (strong) ctx.check(r == "shared injector", "strong injector in " + text, [&] { return r; });
	else {
		ctx.check(r == "accepted", "weak injector in " + text, [&] { return r; });
		if (injector) {
			std::weak_ptr<Injector> w = injector;
			std::shared_ptr<const Injector> got;
			if constexpr (std::is_same_v<T, V1> || std::is_same_v<T, V2>) got = injector->getShared<T>()->i.lock();
			ctx.check(got == injector, "the injected injector is not the injector: " + text, [] { return std::string(); });
			got.reset();
			injector.reset();
			ctx.check(w.expired(), "the injector outlives its owners: " + text, [] { return std::string(); });
		}
	}
	ctx.nontrivial(vk::hash(text));
	ctx.outcome("injector injection " + r);
}
template <typename T> void injectedAll(vk::Ctx & ctx, const char * name, bool strong) { injected<T, 0>(ctx, name, strong); injected<T, 1>(ctx, name, strong); injected<T, 2>(ctx, name, strong); }

static void duplicates(vk::Ctx & ctx) {
	// Two bindings of one key: in one configuration, in two, in an extra one; by every pair of scopes; the same key in parent and child is fine.
	struct Extra : Conf { const Conf * e; void configure() const override { Conf::configure(); addConfiguration(*e); } };
	for (int s1 = 0; s1 < 3; ++s1) for (int s2 = 0; s2 < 3; ++s2) for (int form = 0; form < 5; ++form) for (int other = 0; other < 2; ++other) {
		std::string text = "duplicate " + std::to_string(s1) + std::to_string(s2) + " form " + std::to_string(form) + (other ? " of different nodes" : "");
		if (!ctx.begin([&] { return text; })) continue;
		total = 0; live.clear(); broken.clear();
		Conf a, b;
		a.items.push_back(items[0][0][0][s1]);
		(form == 0 ? a : b).items.push_back(items[0][other ? 1 : 0][0][s2]);
		auto run = [&] (bool validate) {
			return attempt([&] {
				std::vector<std::shared_ptr<InjectorConfiguration>> v{ std::make_shared<Conf>(), std::make_shared<Conf>() };
				static_cast<Conf &>(*v[0]).items = a.items;
				static_cast<Conf &>(*v[1]).items = b.items;
				Extra x; x.items = a.items; x.e = &b;
				switch (form) {
					case 0: validate ? (void) Injector::validate(a) : (void) Injector::create(a); break;
					case 1: validate ? (void) Injector::validate(a, b) : (void) Injector::create(a, b); break;
					case 2: validate ? (void) Injector::validate(v) : (void) Injector::create(v); break;
					case 3: validate ? (void) Injector::validate(x) : (void) Injector::create(x); break;
					case 4: if (validate) Injector::validateChild(Injector::validate(a), b); else Injector::create(a)->createChild(b); break;
				}
			});
		};
		std::string want = other || form == 4 ? "accepted" : "duplicate";
		auto v = run(true), r = run(false);
		ctx.check(v == want && r == want, text, [&] { return "validate: " + v + ", create: " + r + ", expected " + want; });
		ctx.check(total == 0 && broken.empty(), text + ": instances left", [&] { return broken; });
		ctx.nontrivial(vk::hash(text));
		ctx.outcome("bound twice: " + r);
	}
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	fill0();
	fill1();
	fill2();
	fill3();
	duplicates(ctx);
	injectedAll<V1>(ctx, "weak injector", false);
	injectedAll<V2>(ctx, "weak const injector", false);
	injectedAll<V3>(ctx, "shared injector", true);
	injectedAll<V4>(ctx, "shared const injector", true);
	enumerate(ctx, 0, 3, 3, 14, 8);
	for (int f = 1; f <= 3; ++f) enumerate(ctx, f, 3, 2, 14, 8);
	chain(ctx, Lazy);
	chain(ctx, Eager);
	if (ctx.thorough()) {
		fill4();
		fill5();
		enumerate(ctx, 0, 4, 2, 2, 16);                            // Four nodes in one injector.
	}
	return ctx.finish();
}
