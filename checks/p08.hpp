#pragma once
// Nodes of injector graphs, shared by the parts of p08.
#include <boost/core/demangle.hpp>
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <Balau/Application/Injectable.hpp>
#include <Balau/Application/Injector.hpp>
#include <set>
#include <thread>
#include "vk.hpp"

using namespace Balau;

inline std::set<const void *> live;
inline std::string broken;
inline int builtCount[4];
inline int total = 0;

struct Any {
	int node;
	const Any * deps[4] = { nullptr, nullptr, nullptr, nullptr };
	explicit Any(int node_) : node(node_) {}
	virtual ~Any() { if (!live.erase(this)) broken = "destroyed twice"; --total; }
	void built() {
		for (auto * d : deps) if (d && !live.count(d)) broken = "built with a dependency that is not alive";
		live.insert(this);
		++builtCount[node];
		++total;
	}
	void dep(int j, const Any * d) { if (!d) broken = "built with a null dependency"; deps[j] = d; }
};
template <int I> struct Base : Any { Base() : Any(I) {} };
template <typename T> const Any * raw(const std::shared_ptr<T> & p) { return p.get(); }
template <typename T> const Any * raw(const std::weak_ptr<T> & p) { return p.lock().get(); }
template <typename T> const Any * raw(const std::unique_ptr<T> & p) { return p.get(); }

template <int F> struct Flavour {
	template <int J> using Dep = std::conditional_t<F == 0, std::shared_ptr<Base<J>>, std::conditional_t<F == 1, std::shared_ptr<const Base<J>>
		, std::conditional_t<F == 2, std::weak_ptr<Base<J>>, std::conditional_t<J == 2, std::unique_ptr<Base<J>>, std::shared_ptr<Base<J>>>>>>;
	template <int I, int M> struct Impl;
	template <int I> struct Impl<I, 0> : Base<I> { Impl() { this->built(); } BalauInjectTypes(Impl) };
	#define ONE(M, A) \
	template <int I> struct Impl<I, M> : Base<I> { Dep<A> a; \
		explicit Impl(Dep<A> a_) : a(std::move(a_)) { this->dep(A, raw(a)); this->built(); } BalauInjectTypes(Impl, Dep<A>) };
	#define TWO(M, A, B) \
	template <int I> struct Impl<I, M> : Base<I> { Dep<A> a; Dep<B> b; \
		Impl(Dep<A> a_, Dep<B> b_) : a(std::move(a_)), b(std::move(b_)) { this->dep(A, raw(a)); this->dep(B, raw(b)); this->built(); } \
		BalauInjectTypes(Impl, Dep<A>, Dep<B>) };
	#define THREE(M, A, B, C) \
	template <int I> struct Impl<I, M> : Base<I> { Dep<A> a; Dep<B> b; Dep<C> c; \
		Impl(Dep<A> a_, Dep<B> b_, Dep<C> c_) : a(std::move(a_)), b(std::move(b_)), c(std::move(c_)) \
			{ this->dep(A, raw(a)); this->dep(B, raw(b)); this->dep(C, raw(c)); this->built(); } \
		BalauInjectTypes(Impl, Dep<A>, Dep<B>, Dep<C>) };
	ONE(1, 0) ONE(2, 1) ONE(4, 2) ONE(8, 3)
	TWO(3, 0, 1) TWO(5, 0, 2) TWO(6, 1, 2) TWO(9, 0, 3) TWO(10, 1, 3) TWO(12, 2, 3)
	THREE(7, 0, 1, 2) THREE(11, 0, 1, 3) THREE(13, 0, 2, 3) THREE(14, 1, 2, 3)
};

enum Scope { Lazy, Eager, Local, Unique };
struct Conf : ApplicationConfiguration {
	std::vector<void (*)(const Conf &)> items;
	void configure() const override { for (auto f : items) f(*this); }
	template <int F, int I, int M, int S> static void item(const Conf & c) {
		using T = typename Flavour<F>::template Impl<I, M>;
		if constexpr (S == Lazy) c.bind<Base<I>>().template toSingleton<T>();
		else if constexpr (S == Eager) c.bind<Base<I>>().template toEagerSingleton<T>();
		else if constexpr (S == Local) c.bind<Base<I>>().template toThreadLocal<T>();
		else c.bind<Base<I>>().template toUnique<T>();
	}
};
using Item = void (*)(const Conf &);
// Indexed by flavour, node, dependencies, scope.
inline Item items[4][4][16][4];
template <int F, int I, int M> void fill() {
	items[F][I][M][Lazy] = &Conf::item<F, I, M, Lazy>;
	items[F][I][M][Eager] = &Conf::item<F, I, M, Eager>;
	if constexpr (F == 0 && I < 3 && M < 8) items[F][I][M][Local] = &Conf::item<F, I, M, Local>;
	if constexpr (F == 3 && I == 2) items[F][I][M][Unique] = &Conf::item<F, I, M, Unique>;
}
template <int F, int I, int ... M> void fillNode(std::integer_sequence<int, M ...>) { (fill<F, I, M>(), ...); }
template <int F, int ... I> void fillFlavour(std::integer_sequence<int, I ...>) { (fillNode<F, I>(std::make_integer_sequence<int, 8>()), ...); }

void fill0();
void fill1();
void fill2();
void fill3();
void fill4();
void fill5();
using Above7 = std::integer_sequence<int, 8, 9, 10, 11, 12, 13, 14>;
