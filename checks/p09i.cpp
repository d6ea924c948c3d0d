// Injected members: creation succeeds exactly when the binding can be resolved, and the member is what a request supplies.
// Also every way of binding: what is new for each request, what is one instance, how often providers are called.
#include "p09.hpp"

template <typename T> int idIn(const T & x) { return x.id; }
template <typename T, typename D> int idIn(const std::unique_ptr<T, D> & p) { return p->id; }
template <typename T> int idIn(const std::shared_ptr<T> & p) { return p->id; }
template <typename T> int idIn(const std::weak_ptr<T> & p) { return p.lock()->id; }

// A class with one member of the type.
template <typename M> struct Has {
	M m;
	explicit Has(std::remove_const_t<M> m_) : m(static_cast<std::remove_const_t<M> &&>(m_)) {}
	int id() const { return idIn(m); }
	BalauInjectNamed(Has, m, "n")
};
template <typename M> struct HasConf : Conf {
	void configure() const override { Conf::configure(); bind<Has<M>>().toSingleton(); }
};
template <typename M> struct EagerConf : Conf {
	void configure() const override { Conf::configure(); bind<Has<M>>().toEagerSingleton(); }
};
struct MemberKind { const char * name; std::vector<Kind> kinds; };

template <typename M> static void member(vk::Ctx & ctx, const char * name, const std::vector<Kind> & preference) {
	// Bindings of the parent and the child, as sets of kinds.
	std::vector<Kind> kinds{ V, U, R, RC, S, SC };
	for (int parent = 0; parent < 64; ++parent) for (int child = 0; child < 64; ++child) for (int place = 0; place < 2; ++place) {
		if (!place && child) continue;                  // (the class is bound in the parent, which does not see the child)
		auto text = [&] {
			std::string t = std::string(name) + " member bound in the " + (place ? "child" : "parent") + "; parent:";
			for (int k = 0; k < 6; ++k) if (parent >> k & 1) t += std::string(" ") + kindNames[kinds[k]] + ",";
			t += " child:";
			for (int k = 0; k < 6; ++k) if (child >> k & 1) t += std::string(" ") + kindNames[kinds[k]] + ",";
			return t;
		};
		if (!ctx.begin(text)) continue;
		int want = -1;
		for (auto p : preference) {
			int k = (int) (std::find(kinds.begin(), kinds.end(), p) - kinds.begin());
			if (want < 0 && place && (child >> k & 1)) want = 200 + k;
			if (want < 0 && (parent >> k & 1)) want = 100 + k;
		}
		for (int eager = 0; eager < 2; ++eager) {
			int got = -1;
			std::string r = attempt([&] {
				HasConf<M> h; EagerConf<M> e; Conf plain;
				Conf & with = eager ? (Conf &) e : (Conf &) h;
				Conf & pc = place ? plain : with;
				for (int k = 0; k < 6; ++k) if (parent >> k & 1) pc.add(kinds[k], "n", 100 + k);
				if (place) for (int k = 0; k < 6; ++k) if (child >> k & 1) with.add(kinds[k], "n", 200 + k);
				std::shared_ptr<Injector> p = place ? Injector::create(plain) : eager ? Injector::create(e) : Injector::create(h);
				std::shared_ptr<Injector> c = place ? (eager ? p->createChild(e) : p->createChild(h)) : p;
				got = c->getShared<Has<M>>()->id();
				ctx.transitions += 1;
			});
			ctx.check(r == (want < 0 ? "missing" : "accepted") && got == want, std::string(eager ? "eager " : "") + text(), [&] { return r + ", member is " + std::to_string(got) + ", expected " + std::to_string(want); });
		}
		ctx.nontrivial(vk::hash(text()));
		ctx.outcome(std::string(name) + (want < 0 ? ": missing" : ": resolved"));
	}
}

// Ways of binding.
static int made, alive, providerMade, providerAlive, providerCalls;
struct B { int serial = ++made; B() { ++alive; } B(const B & o) : serial(o.serial) { ++alive; } B(B && o) noexcept : serial(o.serial) { ++alive; } B & operator = (const B &) = default; virtual ~B() { --alive; } BalauInjectTypes(B) };
struct D : B { BalauInjectTypes(D) };
struct Count { Count() { ++providerMade; ++providerAlive; } Count(const Count &) = delete; ~Count() { --providerAlive; } };
struct ValueProvider : Count { B operator () () const { ++providerCalls; return B(); } BalauInjectTypes(ValueProvider) };
struct UniqueProvider : Count { std::unique_ptr<B> operator () () const { ++providerCalls; return std::unique_ptr<B>(new D()); } BalauInjectTypes(UniqueProvider) };
struct SharedProvider : Count { std::shared_ptr<B> operator () () const { ++providerCalls; return std::shared_ptr<B>(new D()); } BalauInjectTypes(SharedProvider) };
template <int> struct Deleter { static int calls; template <typename T> void operator () (T * p) const { ++calls; delete p; } };
template <int I> int Deleter<I>::calls = 0;

struct WayConf : ApplicationConfiguration {
	int way;
	explicit WayConf(int way_) : way(way_) {}
	void configure() const override {
		auto & b = bind<B>("w");
		switch (way) {
			case 0: b.toValue(); break;
			case 1: b.toValue(B()); break;
			case 2: b.toValueProvider([] { ++providerCalls; return B(); }); break;
			case 3: b.toValueProvider<ValueProvider>(); break;
			case 4: b.toValueProvider(std::make_shared<ValueProvider>()); break;
			case 5: b.toUnique<D>(); break;
			case 6: b.toUniqueProvider([] { ++providerCalls; return std::unique_ptr<B>(new D()); }); break;
			case 7: b.toUniqueProvider<UniqueProvider>(); break;
			case 8: b.toUniqueProvider(std::make_shared<UniqueProvider>()); break;
			case 9: b.toSingleton(); break;
			case 10: b.toSingleton<D>(); break;
			case 11: b.toSingleton<D, Deleter<0>>(); break;
			case 12: b.toSingleton(std::shared_ptr<B>(new D())); break;
			case 13: b.toSingleton((B *) new D()); break;
			case 14: b.toSingleton<Deleter<0>>((B *) new D()); break;
			case 15: b.toSingletonProvider<SharedProvider>(); break;
			case 16: b.toSingletonProvider(std::make_shared<SharedProvider>()); break;
			case 17: b.toSingletonProvider([] { ++providerCalls; return std::shared_ptr<B>(new D()); }); break;
			case 18: b.toEagerSingleton(); break;
			case 19: b.toEagerSingleton<D>(); break;
			case 20: b.toEagerSingleton<D, Deleter<0>>(); break;
			case 21: b.toThreadLocal(); break;
			case 22: b.toThreadLocal<D>(); break;
			default: b.toThreadLocal<D, Deleter<0>>(); break;
		}
	}
};
static void ways(vk::Ctx & ctx) {
	static const char * names[] = { "value of the class", "value prototype", "value provider function", "value provider class", "value provider object", "unique", "unique provider function"
		, "unique provider class", "unique provider object", "singleton of the class", "singleton", "singleton with deleter", "singleton object", "singleton pointer", "singleton pointer with deleter"
		, "singleton provider class", "singleton provider object", "singleton provider function", "eager singleton of the class", "eager singleton", "eager singleton with deleter"
		, "thread-local of the class", "thread-local", "thread-local with deleter" };
	// Requests are made in all patterns of up to four over injector, child and prototype child.
	for (int way = 0; way < 24; ++way) for (int requests = 0; requests <= 4; ++requests) for (int pattern = 0; pattern < (requests ? (int) std::pow(3, requests) : 1); ++pattern) {
		auto text = [&] { return std::string(names[way]) + ", " + std::to_string(requests) + " requests, pattern " + std::to_string(pattern); };
		if (!ctx.begin(text)) continue;
		made = alive = providerMade = providerAlive = providerCalls = 0;
		Deleter<0>::calls = 0;
		auto bad = [&] (const std::string & what) { ctx.violation(std::string(names[way]) + ": " + what, text() + ": " + what + "; made " + std::to_string(made) + ", alive " + std::to_string(alive) + ", providers " + std::to_string(providerAlive) + " of " + std::to_string(providerMade) + ", calls " + std::to_string(providerCalls)); };
		bool value = way < 5, uniq = way >= 5 && way < 9, shared = way >= 9;
		bool provider = (way >= 2 && way <= 4) || (way >= 6 && way <= 8) || (way >= 15 && way <= 17);
		bool given = way == 1 || (way >= 12 && way <= 14);
		bool atCreation = given || (way >= 15 && way <= 20);
		try {
			auto injector = [&] { WayConf c(way); return Injector::create(c); }();
			auto child = injector->createChild(Conf());
			auto proto = injector->createChild(Conf());
			auto pc = injector->createChild(proto);
			int m0 = made;
			if (m0 != (atCreation ? 1 : 0)) bad("made " + std::to_string(m0) + " at creation");
			if (provider && (way < 15 || way > 17 ? providerCalls != 0 : providerCalls != 1)) bad("provider called " + std::to_string(providerCalls) + " times at creation");
			if (way >= 15 && way <= 16 && providerAlive) bad("single use provider kept");
			{
				std::vector<std::shared_ptr<B>> s; std::vector<std::unique_ptr<B>> u; std::vector<B> v;
				v.reserve(8);
				for (int i = 0, p = pattern; i < requests; ++i, p /= 3) {
					const Injector & in = p % 3 == 0 ? *injector : p % 3 == 1 ? *child : *pc;
					ctx.transitions += 1;
					if (shared) s.push_back(in.getShared<B>("w"));
					else if (uniq) u.push_back(in.getUnique<B>("w"));
					else v.push_back(in.getValue<B>("w"));
				}
				for (auto & p : s) if (!p || p != s[0]) bad("two instances of a singleton");
				std::set<int> serials;
				for (auto & x : v) serials.insert(x.serial);
				for (auto & x : u) serials.insert(x ? x->serial : 0);
				if ((uniq || (value && way != 1)) && (int) serials.size() != requests) bad("instance not new for each request");
				if (way == 1 && requests && serials.size() != 1) bad("value is not a copy of the prototype");
				if (shared && made != (atCreation || requests ? 1 : 0)) bad("singleton made several times");
				if ((value || uniq) && provider && providerCalls != requests) bad("provider not called once for each request");
				if (providerMade > 1) bad("provider made several times");
				if (uniq && alive != requests) bad("instances alive");
			}
			if (shared && alive != (atCreation || requests ? 1 : 0)) bad("singleton not kept alive");
			std::weak_ptr<Injector> w = injector;
			pc.reset(); proto.reset(); child.reset(); injector.reset();
			if (!w.expired()) bad("injector not destroyed");
		} catch (const std::exception & e) { bad(std::string("exception ") + e.what()); }
		if (alive) bad("instances left after the injector");
		if (providerAlive) bad("provider left after the injector");
		if (way == 11 || way == 14 || way == 20 || way == 23) if (Deleter<0>::calls != (made ? 1 : 0)) bad("deleter called " + std::to_string(Deleter<0>::calls) + " times");
		ctx.nontrivial(vk::hash(text()));
		ctx.outcome(names[way]);
	}
}

void members(vk::Ctx & ctx) {
	member<X>(ctx, "value", { V });
	member<const X>(ctx, "const value", { V });
	member<std::unique_ptr<X>>(ctx, "unique", { U });
	member<const std::unique_ptr<X>>(ctx, "const unique", { U });
	member<std::unique_ptr<const X>>(ctx, "unique const", { U });
	member<X &>(ctx, "reference", { R });
	member<const X &>(ctx, "const reference", { RC, R });
	member<std::shared_ptr<X>>(ctx, "shared", { S });
	member<const std::shared_ptr<X>>(ctx, "const shared", { S });
	member<std::shared_ptr<const X>>(ctx, "shared const", { SC, S });
	member<const std::shared_ptr<const X>>(ctx, "const shared const", { SC, S });
	member<std::weak_ptr<X>>(ctx, "weak", { S });
	member<const std::weak_ptr<X>>(ctx, "const weak", { S });
	member<std::weak_ptr<const X>>(ctx, "weak const", { SC, S });
	member<const std::weak_ptr<const X>>(ctx, "const weak const", { SC, S });
	ways(ctx);
}
