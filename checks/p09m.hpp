#pragma once
// Written by tools/gen_p09.py. Injection macros of every number of dependencies: each member gets its own dependency, and
// each dependency is part of the validation.
#include "p09.hpp"
#include <Balau/Application/InjectableHeader.hpp>
#include <Balau/Application/InjectableBody.hpp>

template <int I> struct Tag { int v = -1; };
struct Made { virtual ~Made() = default; virtual std::vector<int> all() const = 0; };

struct MConf : ApplicationConfiguration {
	int omit; bool named;
	void (*extra)(const MConf &);
	MConf(int omit_, bool named_, void (*extra_)(const MConf &)) : omit(omit_), named(named_), extra(extra_) {}
	template <typename T> BindingBuilder<T, std::default_delete<T>> & b(const std::string & n = "") const { return bind<T>(n); }
	void configure() const override;
};
void macroCase(vk::Ctx & ctx, const char * form, int n, bool named, void (*bind)(const MConf &), std::vector<int> (*value)(const Injector &));
template <typename T> static void macro(vk::Ctx & ctx, const char * form, int n, bool named) {
	macroCase(ctx, form, n, named
		, [] (const MConf & c) { c.b<Made>().template toUnique<T>(); c.b<T>().toValue(); }
		, [] (const Injector & i) { return i.getValue<T>().all(); });
}
void macros0(vk::Ctx & ctx);
void macros1(vk::Ctx & ctx);
void macros2(vk::Ctx & ctx);
void macros3(vk::Ctx & ctx);
void macros4(vk::Ctx & ctx);
void macros5(vk::Ctx & ctx);
void macros6(vk::Ctx & ctx);
void macros7(vk::Ctx & ctx);
void macros8(vk::Ctx & ctx);
void macros9(vk::Ctx & ctx);
