#pragma once
// Shared by the parts of p09.
#include <boost/core/demangle.hpp>
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <Balau/Application/Injectable.hpp>
#include <Balau/Application/Injector.hpp>
#include <list>
#include "vk.hpp"
using namespace Balau;
// Injection macros (p09m.cpp).
void macros(vk::Ctx & ctx);
// Injected members (p09i.cpp).
void members(vk::Ctx & ctx);

struct X { int id; explicit X(int id_ = -1) : id(id_) {} virtual ~X() = default; };
template <typename T> struct Plain { void operator () (T * p) const { delete p; } };
struct PX : X { explicit PX(int id_) : X(id_) {} };

inline std::string attempt(const std::function<void ()> & f) {
	try { f(); return "accepted"; }
	catch (const Exception::MissingDependencyException &) { return "missing"; }
	catch (const Exception::CyclicDependencyException &) { return "cyclic"; }
	catch (const Exception::DuplicateBindingException &) { return "duplicate"; }
	catch (const Exception::SharedInjectorException &) { return "shared injector"; }
	catch (const Exception::NoBindingException &) { return "no binding"; }
	catch (const std::exception & e) { return std::string("other exception: ") + e.what(); }
}

enum Kind { V, U, UD, R, RC, S, SC, Kinds };          // Value, unique, unique with a deleter, reference, const reference, shared, shared const.
inline const char * kindNames[] = { "value", "unique", "unique with deleter", "reference", "const reference", "shared", "shared const" };

struct Conf : ApplicationConfiguration {
	mutable std::list<PX> targets;                     // Referenced objects.
	std::vector<std::function<void (const Conf &)>> items;
	void configure() const override { for (auto & f : items) f(*this); }
	void add(Kind kind, const std::string & name, int id) {
		items.push_back([=] (const Conf & c) {
			switch (kind) {
				case V: c.bind<X>(name).toValue(X(id)); break;
				case U: c.bind<X>(name).toUniqueProvider([id] { return std::unique_ptr<X>(new PX(id)); }); break;
				case UD: c.bindUD(name, id); break;
				case R: targets.emplace_back(id); c.bind<X>(name).toReference(targets.back()); break;
				case RC: targets.emplace_back(id); c.bind<const X>(name).toReference(targets.back()); break;
				case S: c.bind<X>(name).toSingleton(std::shared_ptr<X>(new PX(id))); break;
				default: c.bind<const X>(name).toSingleton(std::shared_ptr<const X>(new PX(id))); break;
			}
		});
	}
	static int & lastUD() { static int x; return x; }
	template <int N> struct UDX : X { UDX() : X(N) {} BalauInjectTypes(UDX) };
	void bindUD(const std::string & name, int id) const {
		// (No instance can be supplied with a custom deleter, so the identity is the type's.)
		switch (id % 10) {
			case 0: bind<X, Plain<X>>(name).toUnique<UDX<0>>(); break;
			default: bind<X, Plain<X>>(name).toUnique<UDX<1>>(); break;
		}
	}
};
