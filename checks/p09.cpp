// Injector binding resolution: every request is answered by the nearest binding with the key, const requests by the nearest
// const binding of the hierarchy or else the nearest non-const one, absent ones by the default or the documented exception.
#include "p09.hpp"

// What the hierarchy holds: id of the binding of (level, kind, name), or -1.
struct Model {
	int levels = 1;
	std::map<std::tuple<int, int, std::string>, int> ids;
	int find(int level, Kind k, const std::string & n) const {
		for (; level >= 0; --level) { auto i = ids.find({ level, k, n }); if (i != ids.end()) return i->second; }
		return -1;
	}
	int promoted(int level, Kind c, Kind k, const std::string & n) const { int i = find(level, c, n); return i >= 0 ? i : find(level, k, n); }
};

static int idOf(const std::function<int ()> & f) {
	try { return f(); }
	catch (const Exception::NoBindingException &) { return -1; }
	catch (...) { return -99; }
}

struct Queries {
	vk::Ctx & ctx;
	const Model & m;
	const std::function<std::string ()> & text;
	const Injector & in;
	int level;
	std::string name;

	void expect(int got, int want, const char * what) {
		ctx.transitions += 1;
		if (got != want) ctx.violation(std::string(what) + " " + text(), text() + ": " + what + " \"" + name + "\" at level " + std::to_string(level) + " supplies " + std::to_string(got) + ", expected " + std::to_string(want));
	}
	void shared() {
		int s = m.find(level, S, name), c = m.promoted(level, SC, S, name);
		expect(idOf([&] { return in.getShared<X>(name)->id; }), s, "getShared");
		expect(idOf([&] { return in.getShared<const X>(name)->id; }), c, "getShared const");
		expect(idOf([&] { return in.getInstance<std::shared_ptr<X>>(name)->id; }), s, "getInstance shared");
		expect(idOf([&] { return in.getInstance<const std::shared_ptr<X>>(name)->id; }), s, "getInstance const shared");
		expect(idOf([&] { return in.getInstance<std::shared_ptr<const X>>(name)->id; }), c, "getInstance shared const");
		expect(idOf([&] { return in.getInstance<const std::shared_ptr<const X>>(name)->id; }), c, "getInstance const shared const");
		expect(idOf([&] { return in.getInstance<std::weak_ptr<X>>(name).lock()->id; }), s, "getInstance weak");
		expect(idOf([&] { return in.getInstance<std::weak_ptr<const X>>(name).lock()->id; }), c, "getInstance weak const");
		if (s >= 0) expect(in.getShared<X>(name).get() == in.getShared<X>(name).get(), 1, "getShared twice");
		auto d = std::make_shared<X>(777);
		expect(idOf([&] { return in.getShared<X>(name, d)->id; }), s < 0 ? 777 : s, "getShared with default");
		if (name.empty()) expect(idOf([&] { return in.getShared<X>(d)->id; }), s < 0 ? 777 : s, "unnamed getShared with default");
		int calls = 0;
		std::function<std::shared_ptr<X> ()> supplier = [&] { ++calls; return d; };
		expect(idOf([&] { return in.getShared<X>(name, supplier)->id; }), s < 0 ? 777 : s, "getShared with supplier");
		expect(calls, s < 0, "calls of the supplier of a shared instance");
		expect(idOf([&] { auto p = in.getSharedOrNull<X>(name); return p ? p->id : -1; }), s, "getSharedOrNull");
		expect(in.hasBinding<std::shared_ptr<X>>(name), s >= 0, "hasBinding shared");
		bool hc = in.hasBinding<std::shared_ptr<const X>>(name);
		if (m.find(level, SC, name) >= 0) expect(hc, 1, "hasBinding shared const");
		else if (c < 0) expect(hc, 0, "hasBinding shared const");
	}
	void reference() {
		int r = m.find(level, R, name), c = m.promoted(level, RC, R, name);
		expect(idOf([&] { return in.getReference<X>(name).id; }), r, "getReference");
		expect(idOf([&] { return in.getReference<const X>(name).id; }), c, "getReference const");
		expect(idOf([&] { return in.getInstance<X &>(name).id; }), r, "getInstance reference");
		expect(idOf([&] { return in.getInstance<const X &>(name).id; }), c, "getInstance const reference");
		if (r >= 0) expect(&in.getReference<X>(name) == &in.getReference<X>(name), 1, "getReference twice");
		X d(777);
		expect(idOf([&] { return in.getReference<X>(name, d).id; }), r < 0 ? 777 : r, "getReference with default");
		if (name.empty()) expect(idOf([&] { return in.getReference<X>(d).id; }), r < 0 ? 777 : r, "unnamed getReference with default");
		expect(in.hasBinding<X &>(name), r >= 0, "hasBinding reference");
		bool hc = in.hasBinding<const X &>(name);
		if (m.find(level, RC, name) >= 0) expect(hc, 1, "hasBinding const reference");
		else if (c < 0) expect(hc, 0, "hasBinding const reference");
	}
	void value() {
		int v = m.find(level, V, name);
		expect(idOf([&] { return in.getValue<X>(name).id; }), v, "getValue");
		expect(idOf([&] { return in.getInstance<X>(name).id; }), v, "getInstance value");
		expect(idOf([&] { const X x = in.getInstance<X>(name); return x.id; }), v, "getInstance const value");
		X d(777);
		expect(idOf([&] { return in.getValue<X>(name, d).id; }), v < 0 ? 777 : v, "getValue with default");
		int calls = 0;
		std::function<X ()> supplier = [&] { ++calls; return d; };
		expect(idOf([&] { return in.getValue<X>(name, supplier).id; }), v < 0 ? 777 : v, "getValue with supplier");
		expect(calls, v < 0, "calls of the supplier of a value");
		if (name.empty()) {
			expect(idOf([&] { return in.getValue<X>(d).id; }), v < 0 ? 777 : v, "unnamed getValue with default");
			expect(idOf([&] { return in.getValue<X>(supplier).id; }), v < 0 ? 777 : v, "unnamed getValue with supplier");
		}
		expect(in.hasBinding<X>(name), v >= 0, "hasBinding value");
	}
	void unique() {
		int u = m.find(level, U, name), ud = m.find(level, UD, name);
		expect(idOf([&] { return in.getUnique<X>(name)->id; }), u, "getUnique");
		expect(idOf([&] { return in.getInstance<std::unique_ptr<X>>(name)->id; }), u, "getInstance unique");
		expect(idOf([&] { const std::unique_ptr<X> p = in.getInstance<std::unique_ptr<X>>(name); return p->id; }), u, "getInstance const unique");
		expect(idOf([&] { std::unique_ptr<const X> p = in.getUnique<X>(name); return p->id; }), u, "getUnique as const");
		if (u >= 0) expect(in.getUnique<X>(name) != in.getUnique<X>(name), 1, "getUnique twice is new");
		expect(idOf([&] { return in.getUnique<X, Plain<X>>(name)->id; }), ud, "getUnique with deleter");
		expect(in.hasBinding<std::unique_ptr<X>>(name), u >= 0, "hasBinding unique");
		expect((in.hasBinding<std::unique_ptr<X, Plain<X>>>(name)), ud >= 0, "hasBinding unique with deleter");
	}
	void all(bool sh, bool ref, bool val, bool un) { if (sh) shared(); if (ref) reference(); if (val) value(); if (un) unique(); }
};

// Bit sets over (level, kind, name).
static void hierarchy(vk::Ctx & ctx, const char * group, int levels, const std::vector<Kind> & kinds, const std::vector<std::string> & names) {
	int bits = levels * (int) kinds.size() * (int) names.size();
	bool sh = false, ref = false, val = false, un = false;
	for (auto k : kinds) { sh |= k == S || k == SC; ref |= k == R || k == RC; val |= k == V; un |= k == U || k == UD; }
	for (long set = 0; set < 1L << bits; ++set) {
		std::function<std::string ()> text = [&] {
			std::string t = group;
			long b = set;
			for (int l = 0; l < levels; ++l) for (auto k : kinds) for (auto & n : names) { if (b & 1) t += std::string("; level ") + std::to_string(l) + " " + kindNames[k] + " \"" + n + "\""; b >>= 1; }
			return t;
		};
		if (!ctx.begin(text)) continue;
		Model m;
		m.levels = levels;
		std::vector<std::shared_ptr<Conf>> conf;
		long b = set;
		int id = 10;
		for (int l = 0; l < levels; ++l) {
			conf.push_back(std::make_shared<Conf>());
			for (auto k : kinds) for (auto & n : names) {
				if (b & 1) { int i = k == UD ? l % 2 : id; conf.back()->add(k, n, i); m.ids[{ l, k, n }] = i; id += 10; }
				b >>= 1;
			}
		}
		std::vector<std::shared_ptr<Injector>> in;
		std::string r = attempt([&] {
			for (int l = 0; l < levels; ++l) in.push_back(l ? in.back()->createChild(*conf[l]) : Injector::create(*conf[0]));
		});
		if (!ctx.check(r == "accepted", "creation of " + text(), [&] { return r; })) continue;
		auto asked = names;
		asked.push_back("absent");
		for (int l = 0; l < levels; ++l) for (auto & n : asked) Queries{ ctx, m, text, *in[l], l, n }.all(sh, ref, val, un);
		if (sh) {
			// Iteration over the shared bindings of the root, in any order.
			std::multiset<int> seen, want;
			in[0]->iterate<X>(std::function<void (std::shared_ptr<X>)>([&] (std::shared_ptr<X> p) { seen.insert(p->id); }));
			for (auto & e : m.ids) if (std::get<0>(e.first) == 0 && std::get<1>(e.first) == S) want.insert(e.second);
			ctx.check(seen == want, "iteration " + text(), [] { return std::string(); });
		}
		if (levels == 3) {
			// The middle injector as a prototype of children of another parent, which holds the bindings of the last level.
			auto other = Injector::create(*conf[2]);
			Model pm;
			for (auto & e : m.ids) { int l = std::get<0>(e.first); if (l) pm.ids[{ l == 1 ? 1 : 0, std::get<1>(e.first), std::get<2>(e.first) }] = e.second; }
			auto c1 = other->createChild(in[1]), c2 = other->createChild(in[1]);
			for (auto & n : asked) Queries{ ctx, pm, text, *c1, 1, n }.all(sh, ref, val, un);
			for (auto & n : asked) if (pm.find(1, S, n) >= 0) ctx.check(c1->getShared<X>(n) == c2->getShared<X>(n), "prototype children share " + text(), [] { return std::string(); });
		}
		ctx.nontrivial(vk::hash(text()));
		ctx.state(vk::hash(text()));
	}
	ctx.outcome(group);
}

// Many bindings: each is found, under its own name only, whatever the number of bindings.
static void many(vk::Ctx & ctx, int n) {
	for (auto kind : { V, S }) {
		auto text = std::to_string(n) + " " + kindNames[kind] + " bindings";
		if (!ctx.begin([&] { return text; })) continue;
		Conf conf;
		for (int i = 0; i < n; ++i) conf.add(kind, "n" + std::to_string(i), i);
		std::shared_ptr<Injector> in, child;
		std::string r = attempt([&] { in = Injector::create(conf); child = in->createChild(Conf()); });
		if (!ctx.check(r == "accepted", "creation with " + text, [&] { return r; })) continue;
		for (auto & injector : { in, child }) for (int i = -1; i <= n; ++i) {
			auto name = i < 0 ? std::string() : "n" + std::to_string(i);
			int want = i < 0 || i == n ? -1 : i;
			int got = idOf([&] { return kind == V ? injector->getValue<X>(name).id : injector->getShared<X>(name)->id; });
			bool has = kind == V ? injector->hasBinding<X>(name) : injector->hasBinding<std::shared_ptr<X>>(name);
			bool other = kind == V ? injector->hasBinding<std::shared_ptr<X>>(name) : injector->hasBinding<X>(name);
			ctx.transitions += 3;
			if (!ctx.check(got == want && has == (want >= 0) && !other, "binding " + name + " of " + text
				, [&] { return "supplies " + std::to_string(got) + (has ? ", is" : ", is not") + " said to be there" + (other ? ", and so is another kind" : ""); })) break;
		}
		if (kind == S) {
			std::multiset<int> seen, want;
			in->iterate<X>(std::function<void (std::shared_ptr<X>)>([&] (std::shared_ptr<X> p) { seen.insert(p->id); }));
			for (int i = 0; i < n; ++i) want.insert(i);
			ctx.check(seen == want, "iteration over " + text, [&] { return std::to_string(seen.size()) + " seen"; });
		}
		ctx.nontrivial(vk::hash(text));
		ctx.state(vk::hash(text));
	}
	ctx.outcome("many bindings");
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	bool deep = ctx.thorough();
	const std::vector<std::pair<const char *, std::vector<Kind>>> groups = { { "shared bindings", { S, SC } }, { "reference bindings", { R, RC } }, { "value and unique bindings", { V, U } }, { "unique bindings with deleter", { U, UD } } };
	for (auto & [group, kinds] : groups) {
		if (deep) hierarchy(ctx, (std::string(group) + " in three levels").c_str(), 3, kinds, { "", "n" });
		else {
			hierarchy(ctx, (std::string(group) + " in three levels").c_str(), 3, kinds, { "" });
			hierarchy(ctx, (std::string(group) + " in three levels").c_str(), 3, kinds, { "n" });
			hierarchy(ctx, (std::string(group) + " in two levels").c_str(), 2, kinds, { "", "n" });
		}
	}
	hierarchy(ctx, "all kinds in one injector", 1, { V, U, UD, R, RC, S, SC }, deep ? std::vector<std::string>{ "", "n" } : std::vector<std::string>{ "n" });
	hierarchy(ctx, "names in two levels", 2, { S }, { "", "n", "N", "nn", " " });
	hierarchy(ctx, "names in two levels", 2, { V }, { "", "n", "N", "nn", " " });
	if (deep) hierarchy(ctx, "all kinds in two levels", 2, { V, U, R, RC, S, SC }, { "n" });
	for (int n = 0; n <= (deep ? 400 : 150); ++n) many(ctx, n);
	for (int n : { 699, 700, 701, 702, 703, 716, 717, 718, 719, 1023, 1024, 1025, 1432, 1433, 1434, 1435, 1436, 2000, 2867, 2868, 2869, 5000 }) many(ctx, n);
	members(ctx);
	macros(ctx);
	return ctx.finish();
}
