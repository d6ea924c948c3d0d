// Environment configuration: every property is bound to the value of its source converted to its specified type, or else to its
// default, at exactly its place in the hierarchy.
#include <boost/core/demangle.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <Balau/Application/Injector.hpp>
#include <filesystem>
#include <fstream>
#include <list>
#include "vk.hpp"

// A custom polymorphic type and a custom value type.
struct Shape { virtual ~Shape() = default; virtual std::unique_ptr<Shape> clone() const = 0; virtual std::string text() const = 0; };
struct Circle : Shape { std::unique_ptr<Shape> clone() const override { return std::unique_ptr<Shape>(new Circle); } std::string text() const override { return "circle"; } };
struct Square : Shape { std::unique_ptr<Shape> clone() const override { return std::unique_ptr<Shape>(new Square); } std::string text() const override { return "square"; } };
struct Pair { int a = 0, b = 0; };
inline void fromString(std::unique_ptr<Shape> & d, std::string_view v) {
	if (v == "circle") d.reset(new Circle); else if (v == "square") d.reset(new Square); else throw std::runtime_error("no shape");
}
inline void fromString(Pair & d, std::string_view v) {
	if (v.size() != 3 || v[1] != '/') throw std::runtime_error("no pair");
	d.a = v[0] - '0'; d.b = v[2] - '0';
}

using namespace Balau;

// A specification or, with children, a group of them.
struct Spec { std::string name, type; bool hasDefault = false; std::string def; std::vector<Spec> children; };
using Specs = std::vector<Spec>;

std::string textOf(const Specs & specs, const std::string & indent = "") {
	std::string r;
	for (auto & s : specs) {
		if (s.type.empty()) r += indent + s.name + " {\n" + textOf(s.children, indent + "\t") + indent + "}\n";
		else r += indent + s.name + " : " + s.type + (s.hasDefault ? " = " + s.def : "") + "\n";
	}
	return r;
}

struct Hard : EnvironmentConfiguration {
	Specs specs;
	template <typename ... A> explicit Hard(Specs specs_, const A & ... a) : EnvironmentConfiguration(a ...), specs(std::move(specs_)) {}
	template <typename T, typename F> Impl::PropertyBindingBuilderFactoryPtr typed(const Spec & s, F convert) const {
		return s.hasDefault ? value<T>(s.name, (T) convert(s.def)) : value<T>(s.name);
	}
	Impl::PropertyBindingBuilderFactoryPtr make(const Spec & s) const {
		if (s.type.empty()) {
			std::vector<Impl::PropertyBindingBuilderFactoryPtr> c;
			for (auto & child : s.children) c.push_back(make(child));
			switch (c.size()) { case 1: return group(s.name, c[0]); case 2: return group(s.name, c[0], c[1]); default: return group(s.name, c[0], c[1], c[2]); }
		}
		auto i = [] (const std::string & t) { return std::stoll(t); };
		auto f = [] (const std::string & t) { return std::stod(t); };
		if (s.type == "byte") return typed<signed char>(s, i);
		if (s.type == "short") return typed<short>(s, i);
		if (s.type == "int") return typed<int>(s, i);
		if (s.type == "long") return typed<long long>(s, i);
		if (s.type == "unsigned byte") return typed<unsigned char>(s, i);
		if (s.type == "unsigned short") return typed<unsigned short>(s, i);
		if (s.type == "unsigned int") return typed<unsigned int>(s, i);
		if (s.type == "unsigned long") return typed<unsigned long long>(s, [] (const std::string & t) { return std::stoull(t); });
		if (s.type == "float") return typed<float>(s, f);
		if (s.type == "double") return typed<double>(s, f);
		if (s.type == "char") return typed<char>(s, [] (const std::string & t) { return t[0]; });
		if (s.type == "boolean") return typed<bool>(s, [] (const std::string & t) { return t == "true"; });
		if (s.type == "string") return s.hasDefault ? value<std::string>(s.name, s.def) : value(s.name);
		if (s.type == "pair") return s.hasDefault ? value<Pair>(s.name, Pair { s.def[0] - '0', s.def[2] - '0' }) : value<Pair>(s.name);
		if (s.type == "shape") {
			UniquePropertyCloner<Shape> cloner = [] (const std::unique_ptr<const Shape> & p) { return p->clone(); };
			if (!s.hasDefault) return unique<Shape>(s.name, cloner);
			std::unique_ptr<Shape> d;
			fromString(d, s.def);
			return unique<Shape>(s.name, cloner, std::move(d));
		}
		if (!s.hasDefault) return unique<Resource::Uri>(s.name);
		return unique<Resource::Uri>(s.name, std::unique_ptr<Resource::Uri>(new Resource::File(s.def.substr(5))));
	}
	void configure() const override { for (auto & s : specs) make(s); }
};

// ---- What an injector or a composite holds under a name, as text. -----------------------------------------------------------

std::string show(const std::string & v) { return v; }
std::string show(const Pair & p) { return std::to_string(p.a) + "/" + std::to_string(p.b); }
std::string show(char c) { return std::string(1, c); }
std::string show(bool b) { return b ? "true" : "false"; }
template <typename T> std::string show(T v) { std::ostringstream s; s.precision(17); s << +v; return s.str(); }

std::string rawOf(const Resource::Uri & u) { auto r = u.toRawString(); return r[0] == '/' ? "file:" + r : r; }

struct InInjector {
	const Injector & in;
	using V = std::string_view;      // (A name as a string would be taken as a default value of a string.)
	template <typename T> bool has(const std::string & n) const { return in.hasBinding<T>(V(n)); }
	template <typename T> T get(const std::string & n) const { return in.getValue<T>(V(n)); }
	template <typename T> bool hasU(const std::string & n) const { return in.hasBinding<std::unique_ptr<T>>(V(n)); }
	template <typename T> std::unique_ptr<T> getU(const std::string & n) const { return in.getUnique<T>(V(n)); }
	bool hasC(const std::string & n) const { return in.hasBinding<std::shared_ptr<EnvironmentProperties>>(n); }
	std::shared_ptr<EnvironmentProperties> getC(const std::string & n) const { return in.getShared<EnvironmentProperties>(n); }
};
struct InComposite {
	const EnvironmentProperties & in;
	template <typename T> bool has(const std::string & n) const { return in.hasValue<T>(n); }
	template <typename T> T get(const std::string & n) const { return in.getValue<T>(n); }
	template <typename T> bool hasU(const std::string & n) const { return in.hasUnique<T>(n); }
	template <typename T> std::unique_ptr<T> getU(const std::string & n) const { return in.getUnique<T>(n); }
	bool hasC(const std::string & n) const { return in.hasComposite(n); }
	std::shared_ptr<EnvironmentProperties> getC(const std::string & n) const { return in.getComposite(n); }
};

const std::vector<std::string> names = { "p", "q", "g", "h", "z", "r" };
using Found = std::map<std::string, std::string>;      // Path to "type=value" items.

template <typename T, typename In> void probe(const In & in, const std::string & n, const char * type, std::string & r) { if (in.template has<T>(n)) r += std::string(r.empty() ? "" : " ") + type + "=" + show(in.template get<T>(n)); }
template <typename In> int look(const In & in, const std::string & prefix, Found & found, std::string & error) {
	int count = 0;
	for (auto & n : names) {
		std::string r;
		probe<signed char>(in, n, "byte", r); probe<short>(in, n, "short", r); probe<int>(in, n, "int", r); probe<long long>(in, n, "long", r);
		probe<unsigned char>(in, n, "unsigned byte", r); probe<unsigned short>(in, n, "unsigned short", r); probe<unsigned int>(in, n, "unsigned int", r); probe<unsigned long long>(in, n, "unsigned long", r);
		probe<float>(in, n, "float", r); probe<double>(in, n, "double", r); probe<char>(in, n, "char", r); probe<bool>(in, n, "boolean", r); probe<std::string>(in, n, "string", r); probe<Pair>(in, n, "pair", r);
		if (in.template hasU<Resource::Uri>(n)) {
			auto a = in.template getU<Resource::Uri>(n), b = in.template getU<Resource::Uri>(n);
			if (!a || !b || a == b) error = "a unique property is not a new object: " + n; else r += "uri=" + rawOf(*a);
			if (a && b && a->toRawString() != b->toRawString()) error = "a unique property changes: " + n;
		}
		if (in.template hasU<Shape>(n)) { auto a = in.template getU<Shape>(n), b = in.template getU<Shape>(n); r += a && b && a != b ? "shape=" + a->text() : "shape=broken"; }
		if (!r.empty()) { found[prefix + n] = r; ++count; for (size_t i = r.find('='); i != std::string::npos && i < r.size(); ++i) {} }
		if (in.hasC(n)) {
			++count;
			auto c = in.getC(n);
			found[prefix + n + "{"] = "";
			int inside = look(InComposite { *c }, prefix + n + ".", found, error);
			int items = 0;
			for (auto item : *c) {
				++items;
				if (std::find(names.begin(), names.end(), std::string(item.getName())) == names.end()) error = "unknown property " + std::string(item.getName());
				if (item.isComposite() != c->hasComposite(item.getName()) && !item.template isValue<int>()) { /* (a value beside a composite of the same name) */ }
				if (item.template isValue<int>() && item.template getValue<int>() != c->template getValue<int>(item.getName())) error = "iteration gives another value";
				if (item.template isValue<std::string>() && item.template getValue<std::string>() != c->template getValue<std::string>(item.getName())) error = "iteration gives another value";
				if (item.template isUnique<Resource::Uri>() && item.template getUnique<Resource::Uri>()->toRawString() != c->template getUnique<Resource::Uri>(item.getName())->toRawString()) error = "iteration gives another value";
				if (item.isComposite() && item.getComposite() != c->getComposite(item.getName())) error = "iteration gives another composite";
			}
			if (items != inside && error.empty()) error = "iteration gives " + std::to_string(items) + " items, " + std::to_string(inside) + " are there";
			if (c->empty() != (items == 0)) error = "empty() is wrong";
			if (c->template getValue<int>("absent", 77) != 77 || c->template hasValue<int>("absent") || c->getCompositeOrNull("absent") || c->hasComposite("absent")) error = "an absent property is there";
			try { c->template getValue<int>("absent"); error = "an absent property is there"; } catch (const Exception::NoBindingException &) {}
		}
	}
	return count;
}
std::string list(const Found & f) { std::string r; for (auto & [k, v] : f) r += k + (v.empty() ? "" : " " + v) + "; "; return r; }

struct Result { bool threw = false; std::string what, error; Found found; };
Result observe(const std::function<std::shared_ptr<Injector> ()> & make) {
	Result r;
	try {
		auto in = make();
		look(InInjector { *in }, "", r.found, r.error);
	} catch (const std::exception & e) { r.threw = true; r.what = e.what(); }
	return r;
}

std::shared_ptr<Resource::Uri> uriOf(const std::string & text) { return std::shared_ptr<Resource::Uri>(new Resource::StringUri(text)); }
using Uris = std::vector<std::shared_ptr<Resource::Uri>>;

// The expectation for a value text of a type: "" when it must be refused.
std::string converted(const std::string & type, const std::string & text) {
	if (type == "string") return "string=" + text;
	if (type == "uri") return text.rfind("file:", 0) == 0 ? "uri=" + text : "?";
	if (type == "boolean") return text == "true" || text == "false" ? "boolean=" + text : text == "text" || text == "7" ? "" : "?";
	if (type == "int") { char * end; long v = std::strtol(text.c_str(), &end, 10); return !text.empty() && !*end && v >= INT_MIN && v <= INT_MAX ? "int=" + std::to_string(v) : ""; }
	return "?";
}

// ---- One property specified and given in every way, at three depths, beside others. -------------------------------------------

void onePlace(vk::Ctx & ctx) {
	const std::vector<Spec> alternatives = { {}, { "", "int" }, { "", "int", true, "5" }, { "", "string" }, { "", "string", true, "x" }, { "", "uri", true, "file:/q" }, { "", "boolean", true, "true" }, { "", "", false, "", { { "z", "int", true, "9" } } } };
	const std::vector<std::string> values = { "", "7", "text", "file:/zz", "true", "{" };
	const int N = (int) alternatives.size();
	for (int depth = 0; depth < 3; ++depth) for (int sibling = 0; sibling < 5; ++sibling)
	for (int s1 = 0; s1 < N; ++s1) for (int s2 = 0; s2 < N; ++s2) for (int s3 = 0; s3 < N; ++s3) for (size_t v = 0; v < values.size(); ++v) {
		auto describe = [&] { return "depth " + std::to_string(depth) + ", specifications " + std::to_string(s1) + " " + std::to_string(s2) + " " + std::to_string(s3) + ", value " + std::to_string(v) + ", sibling " + std::to_string(sibling); };
		if (!ctx.begin(describe)) continue;
		// Around the property: g or g.h, and a sibling that is only in some of the sources.
		Specs sources[3];
		int which[3] = { s1, s2, s3 };
		for (int k = 0; k < 3; ++k) {
			Specs inner;
			if (which[k]) { Spec s = alternatives[which[k]]; s.name = "p"; inner.push_back(s); }
			if (sibling == 1 && k == 0) inner.push_back({ "q", "int", true, "11" });
			if (sibling == 2 && k == 2) inner.push_back({ "q", "int", true, "12" });
			if (sibling == 4 && k == 1) inner.insert(inner.begin(), { "q", "string", true, "s" });
			if (inner.empty()) continue;
			if (depth == 2) inner = { { "h", "", false, "", inner } };
			if (depth >= 1) inner = { { "g", "", false, "", inner } };
			sources[k] = inner;
		}
		std::string inside;
		if (v == 5) inside = "p {\n z = 3\n}\n"; else if (v) inside = "p = " + values[v] + "\n";
		if (sibling >= 3) inside += "q = 13\n";
		bool composites = !inside.empty();
		if (composites && depth == 2) inside = "h {\n" + inside + "}\n";
		if (composites && depth >= 1) inside = "g {\n" + inside + "}\n";
		auto result = observe([&] { return Injector::create(Hard(sources[2], Uris { uriOf(inside) }, Uris { uriOf(textOf(sources[0])), uriOf(textOf(sources[1])) })); });
		std::string prefix = depth == 0 ? "" : depth == 1 ? "g." : "g.h.";
		// The model.
		Spec effective;
		bool conflict = false, specified = false, openDefault = false;
		for (int w : which) if (w) {
			if (specified && (w == 7) != effective.type.empty()) conflict = true;
			if (specified && effective.hasDefault && !alternatives[w].hasDefault && w != 7) openDefault = true;
			effective = alternatives[w];
			specified = true;
			if (effective.hasDefault) openDefault = false;
		}
		if (specified) { if ((v == 5) != effective.type.empty() && v) conflict = true; }
		++ctx.traces;
		ctx.transitions += 5;
		ctx.state(vk::hash(textOf(sources[0]) + "|" + textOf(sources[1]) + "|" + textOf(sources[2]) + "|" + inside));
		if (!result.error.empty()) { ctx.violation("inconsistent: " + result.error, describe() + ": " + result.error); continue; }
		auto detail = [&] { return describe() + "\n specifications:\n" + textOf(sources[0]) + "--\n" + textOf(sources[1]) + "-- (in code)\n" + textOf(sources[2]) + "values:\n" + inside + "bound: " + list(result.found) + (result.threw ? "threw " + result.what : ""); };
		if (conflict) continue;                              // How contradictory sources are refused is left open.
		std::string p = result.found.count(prefix + "p") ? result.found[prefix + "p"] : "", q = result.found.count(prefix + "q") ? result.found[prefix + "q"] : "";
		std::string expected;
		if (v == 5) expected = "";
		else if (v) expected = converted(specified ? effective.type : "string", values[v]);
		else if (specified && effective.hasDefault) expected = converted(effective.type, effective.def);
		if (v && v != 5 && expected == "?") continue;
		if (v && v != 5 && expected.empty()) { ctx.check(result.threw, "a value that does not convert is accepted", detail); continue; }
		if (!ctx.check(!result.threw, "creation fails", detail)) continue;
		if (!(openDefault && !v)) ctx.check(p == expected, p.empty() ? "property missing" : "wrong property", detail);
		std::string z = specified && effective.type.empty() ? (v == 5 ? "int=3" : "int=9") : v == 5 ? "string=3" : "";
		ctx.check((result.found.count(prefix + "p.z") ? result.found[prefix + "p.z"] : "") == z, "nested property", detail);
		std::string wantQ = sibling == 0 ? "" : sibling == 1 ? "int=11" : sibling == 2 ? "int=12" : sibling == 3 ? "string=13" : "string=13";
		ctx.check(q == wantQ, "sibling property", detail);
		// Nothing else, and no composite without content.
		for (auto & [k, t] : result.found) {
			bool ok = k == prefix + "p" || k == prefix + "q" || k == prefix + "p.z" || (k == prefix + "p{" && !z.empty());
			if (depth >= 1 && k == "g{") ok = composites || result.found.count(prefix + "p") || result.found.count(prefix + "q") || !z.empty();
			if (depth == 2 && k == "g.h{") ok = composites || result.found.count(prefix + "p") || result.found.count(prefix + "q") || !z.empty();
			ctx.check(ok, "a property from nowhere", detail);
		}
	}
	ctx.outcome("one property in every source");
}

// ---- Every type. ---------------------------------------------------------------------------------------------------------------

void types(vk::Ctx & ctx) {
	struct Type { const char * name; long long min; unsigned long long max; };
	const std::vector<Type> integers = { { "byte", SCHAR_MIN, SCHAR_MAX }, { "short", SHRT_MIN, SHRT_MAX }, { "int", INT_MIN, INT_MAX }, { "long", LLONG_MIN, LLONG_MAX },
		{ "unsigned byte", 0, UCHAR_MAX }, { "unsigned short", 0, USHRT_MAX }, { "unsigned int", 0, UINT_MAX }, { "unsigned long", 0, ULLONG_MAX } };
	std::vector<std::string> texts = { "0", "1", "5", "-1", "x", "1x", "1.5", "99999999999999999999999" };
	for (auto & t : integers) for (long d = -1; d <= 1; ++d) { __int128 hi = (__int128) t.max + d, lo = (__int128) t.min + d; for (auto v : { hi, lo }) { std::string s; bool neg = v < 0; __int128 a = neg ? -v : v; do s.insert(s.begin(), (char) ('0' + (int) (a % 10))); while (a /= 10); texts.push_back(neg ? "-" + s : s); } }
	std::sort(texts.begin(), texts.end());
	texts.erase(std::unique(texts.begin(), texts.end()), texts.end());
	struct Case { std::string type, text, expected; };
	std::vector<Case> cases;
	for (auto & t : integers) for (auto & s : texts) {
		bool number = s.find_first_not_of("-0123456789") == std::string::npos;
		__int128 v = 0;
		for (char c : s) if (c != '-' && v < ((__int128) 1 << 100)) v = v * 10 + (c - '0');
		if (s[0] == '-') v = -v;
		bool ok = number && v >= (__int128) t.min && v <= (__int128) t.max;
		cases.push_back({ t.name, s, ok ? std::string(t.name) + "=" + s : "" });
	}
	for (std::string t : { "float", "double" }) for (std::string s : { "0", "1.5", "-0.25", "12.5e-3", "1e3" }) { double v = std::stod(s); cases.push_back({ t, s, t + "=" + (t == "float" ? show((float) v) : show(v)) }); }
	for (std::string t : { "float", "double", "boolean" }) for (std::string s : { "x", "1.5x", "e" }) cases.push_back({ t, s, "" });
	for (std::string s : { "true", "false" }) cases.push_back({ "boolean", s, "boolean=" + s });
	for (std::string s : { "a", "7", "=" }) cases.push_back({ "char", s, "char=" + s });
	for (std::string s : { "a b", "a=b", "=", "a = b", "=a", "a=", "a==b", "a= =b", "true", "17", "x:y", "string = z" }) cases.push_back({ "string", s, "string=" + s });
	for (std::string s : { "file:/a/b", "http://h/p?a=b", "http://h/p?a=b&c=d" }) cases.push_back({ "uri", s, "uri=" + s });
	for (std::string s : { "circle", "square" }) cases.push_back({ "shape", s, "shape=" + s });
	cases.push_back({ "shape", "line", "" });
	for (std::string s : { "1/2", "0/9" }) cases.push_back({ "pair", s, "pair=" + s });
	cases.push_back({ "pair", "12", "" });
	for (auto & c : cases) for (int depth = 0; depth < 2; ++depth) for (int how = 0; how < 4; ++how) {
		// A value under a specification of a file or of the code; a default of a file or of the code.
		auto describe = [&] { return c.type + " " + vk::q(c.text) + ", depth " + std::to_string(depth) + ", way " + std::to_string(how); };
		if (how == 3 && c.expected.empty()) continue;
		if (how == 3 && c.type == "uri" && c.text[0] != 'f') continue;
		if (!ctx.begin(describe)) continue;
		Spec s { "p", c.type };
		if (how >= 2) { s.hasDefault = true; s.def = c.text; }
		Specs specs = { s };
		std::string value = how < 2 ? "p = " + c.text + "\n" : "";
		if (depth) { specs = { { "g", "", false, "", specs } }; if (how < 2) value = "g {\n" + value + "}\n"; }
		auto result = observe([&] { return how & 1 ? Injector::create(Hard(specs, Uris { uriOf(value) })) : Injector::create(EnvironmentConfiguration(Uris { uriOf(value) }, Uris { uriOf(textOf(specs)) })); });
		auto detail = [&] { return describe() + " bound: " + list(result.found) + result.error + (result.threw ? "threw " + result.what : ""); };
		std::string key = "type " + c.type + (how < 2 ? "" : " default");
		if (c.expected.empty()) ctx.check(result.threw, key + ": what does not convert is accepted", detail);
		else ctx.check(!result.threw && result.error.empty() && result.found == (depth ? Found { { "g{", "" }, { "g.p", c.expected } } : Found { { "p", c.expected } }), key, detail);
		++ctx.traces;
		++ctx.transitions;
		ctx.state(vk::hash(describe()));
	}
	// Specifications that are not.
	for (std::string t : { "integer", "Int", "", "int int", "= 5", "unsigned" }) for (int depth = 0; depth < 2; ++depth) for (int given = 0; given < 2; ++given) {
		auto describe = [&] { return "unknown type " + vk::q(t) + ", depth " + std::to_string(depth) + ", given " + std::to_string(given); };
		if (!ctx.begin(describe)) continue;
		std::string spec = "p : " + t + "\n", value = given ? "p = 5\n" : "";
		if (depth) { spec = "g {\n" + spec + "}\n"; value = "g {\n" + value + "}\n"; }
		auto result = observe([&] { return Injector::create(EnvironmentConfiguration(Uris { uriOf(value) }, Uris { uriOf(spec) })); });
		ctx.check(result.threw, "an unknown type is accepted", [&] { return describe() + ": " + list(result.found); });
		++ctx.traces;
	}
	ctx.outcome("types");
}

// ---- Several value sources. ---------------------------------------------------------------------------------------------------

void sources(vk::Ctx & ctx) {
	const std::vector<std::string> paths = { "p", "g.p", "g.h.p", "q" };
	for (int files = 1; files <= 3; ++files) {
		int bits = files == 3 ? 3 : 4;
		for (int set = 0; set < 1 << files * bits; ++set) for (int spec = 0; spec < 3; ++spec) {
			auto describe = [&] { return std::to_string(files) + " value sources with " + std::to_string(set) + ", specification " + std::to_string(spec); };
			if (!ctx.begin(describe)) continue;
			Uris uris;
			Found want;
			for (int f = 0; f < files; ++f) {
				auto has = [&] (int i) { return i < bits && set >> (f * bits + i) & 1; };
				auto line = [&] (int i) { if (!has(i)) return std::string(); want[paths[(size_t) i]] = (spec ? "int=" : "string=") + std::to_string(f * 10 + i); return paths[(size_t) i].substr(paths[(size_t) i].rfind('.') + 1) + " = " + std::to_string(f * 10 + i) + "\n"; };
				std::string t = line(0), g = line(1), h = line(2), q = line(3);
				if (!h.empty()) g += "h {\n" + h + "}\n";
				if (!g.empty()) t += "g {\n" + g + "}\n";
				uris.push_back(uriOf(t + q));
				if (!g.empty()) want["g{"] = "";
				if (!h.empty()) want["g.h{"] = "";
			}
			Specs specs;
			if (spec) {
				bool d = spec == 2;
				specs = { { "p", "int", d, "90" }, { "g", "", false, "", { { "h", "", false, "", { { "p", "int", d, "92" } } }, { "p", "int", d, "91" } } }, { "q", "int", d, "93" } };
				if (d) for (size_t i = 0; i < 4; ++i) want.insert({ paths[i], "int=" + std::to_string(90 + i) });
				if (d) { want["g{"] = ""; want["g.h{"] = ""; }
			}
			auto result = observe([&] { return Injector::create(EnvironmentConfiguration(uris, spec ? Uris { uriOf(textOf(specs)) } : Uris())); });
			ctx.check(!result.threw && result.error.empty() && result.found == want, "several value sources", [&] { return describe() + " bound: " + list(result.found) + " instead of " + list(want) + result.error + result.what; });
			++ctx.traces;
			++ctx.transitions;
			ctx.state(vk::hash(describe()));
		}
	}
	ctx.outcome("several value sources");
}

// ---- Includes. -----------------------------------------------------------------------------------------------------------------

void includes(vk::Ctx & ctx) {
	// A chain of files, each including the next from the same directory, from one below or above, or by its absolute path; at the
	// top level or within a composite.
	int depth = ctx.thorough() ? 4 : 3;
	std::string base = ctx.scratch + "/inc";
	int chains = 1;
	for (int i = 0; i < depth; ++i) chains *= 4;
	for (int chain = 0; chain < chains; ++chain) for (int nested = 0; nested < 1 << depth; ++nested) for (int specs = 0; specs < 2; ++specs) {
		auto describe = [&] { return "chain " + std::to_string(chain) + ", within composites " + std::to_string(nested) + (specs ? ", specifications" : ", values"); };
		if (!ctx.begin(describe)) continue;
		std::filesystem::remove_all(base);
		std::filesystem::path dir = base + "/a/b/c/d/e";
		std::filesystem::create_directories(dir);
		auto root = dir / "f0";
		Found want;
		std::string prefix;
		int c = chain, n = nested;
		for (int i = 0; i <= depth; ++i) {
			auto file = dir / ("f" + std::to_string(i));
			std::ofstream o(file);
			std::string name = names[(size_t) i % 2 ? 1 : 0];
			// Names repeat at deeper levels only when within a composite; so use one name per file.
			name = std::vector<std::string> { "p", "q", "z", "r", "h" }[(size_t) i];
			std::string v = std::to_string(i + 40);
			o << name << (specs ? " : int = " : " = ") << v << "\n";
			want[prefix + name] = (specs ? "int=" : "string=") + v;
			if (i == depth) break;
			std::string ref;
			switch (c % 4) {
				case 0: ref = ""; break;
				case 1: ref = "s" + std::to_string(i) + "/"; dir = dir / ("s" + std::to_string(i)); break;
				case 2: ref = "../"; dir = dir.parent_path(); break;
				default: dir = std::filesystem::path(base) / ("t" + std::to_string(i)); ref = dir.string() + "/"; break;
			}
			std::filesystem::create_directories(dir);
			c /= 4;
			std::string line = "@" + ref + "f" + std::to_string(i + 1) + "\n";
			if (n & 1) { o << "g {\n" << line << "}\n"; prefix += "g."; want[prefix.substr(0, prefix.size() - 1) + "{"] = ""; }
			else o << line;
			n >>= 1;
		}
		auto result = observe([&] {
			std::shared_ptr<Resource::Uri> file(new Resource::File(root.string()));
			return specs ? Injector::create(EnvironmentConfiguration(Uris { uriOf("") }, Uris { file })) : Injector::create(EnvironmentConfiguration(file));
		});
		ctx.check(!result.threw && result.error.empty() && result.found == want, specs ? "includes of specifications" : "includes of values", [&] { return describe() + " bound: " + list(result.found) + " instead of " + list(want) + result.error + result.what; });
		++ctx.traces;
		++ctx.transitions;
		ctx.state(vk::hash(describe()));
	}
	std::filesystem::remove_all(base);
	ctx.outcome("includes");
}

// ---- Ways of construction and repeated use. ----------------------------------------------------------------------------------

void uses(vk::Ctx & ctx) {
	const std::string values = "p = 3\ng {\n\tp = 4\n\th {\n\t\tq = text\n\t}\n}\n";
	const Specs fileSpecs = { { "p", "int" }, { "r", "uri", true, "file:/d" }, { "g", "", false, "", { { "p", "int" }, { "q", "int", true, "8" } } } };
	const Specs moreSpecs = { { "p", "long" }, { "g", "", false, "", { { "h", "", false, "", { { "p", "boolean", true, "true" } } } } } };
	const Specs hardSpecs = { { "q", "uri", true, "file:/hard" }, { "z", "shape", true, "square" }, { "g", "", false, "", { { "r", "uri", true, "file:/inner" } } } };
	auto file = [&] (const std::string & name, const std::string & text) { std::string p = ctx.scratch + "/" + name; std::ofstream(p) << text; return p; };
	for (int construction = 0; construction < 9; ++construction) for (int hard = 0; hard < 2; ++hard) for (int use = 0; use < 6; ++use) {
		auto describe = [&] { return "constructor " + std::to_string(construction) + (hard ? ", specifications in code" : "") + ", use " + std::to_string(use); };
		if (!ctx.begin(describe)) continue;
		std::string v = file("values", values), s1 = file("spec1", textOf(fileSpecs)), s2 = file("spec2", textOf(moreSpecs));
		bool one = construction >= 3, two = construction >= 6;
		Found want = { { "p", two ? "long=3" : one ? "int=3" : "string=3" }, { "g{", "" }, { "g.p", one ? "int=4" : "string=4" }, { "g.h{", "" }, { "g.h.q", "string=text" } };
		if (one) { want["r"] = "uri=file:/d"; want["g.q"] = "int=8"; }
		if (two) want["g.h.p"] = "boolean=true";
		if (hard) { want["q"] = "uri=file:/hard"; want["z"] = "shape=square"; want["g.r"] = "uri=file:/inner"; }
		Specs code = hard ? hardSpecs : Specs();
		auto make = [&] () -> std::shared_ptr<EnvironmentConfiguration> {
			std::shared_ptr<Resource::Uri> fv(new Resource::File(v)), f1(new Resource::File(s1)), f2(new Resource::File(s2));
			switch (construction) {
				case 0: return std::make_shared<Hard>(code, values);
				case 1: return std::make_shared<Hard>(code, Resource::File(v));
				case 2: return std::make_shared<Hard>(code, fv);
				case 3: return std::make_shared<Hard>(code, values, textOf(fileSpecs));
				case 4: return std::make_shared<Hard>(code, Resource::File(v), Resource::StringUri(textOf(fileSpecs)));
				case 5: return std::make_shared<Hard>(code, std::vector<Resource::File> { Resource::File(v) }, std::vector<Resource::File> { Resource::File(s1) });
				case 6: return std::make_shared<Hard>(code, Resource::File(v), Resource::File(s1), Resource::File(s2));
				case 7: return std::make_shared<Hard>(code, fv, f1, f2);
				default: return std::make_shared<Hard>(code, Uris { fv }, Uris { f1, f2 });
			}
		};
		std::vector<std::string> wrong;
		for (int round = 0; round < (use >= 4 ? 3 : 1); ++round) {
			static std::shared_ptr<EnvironmentConfiguration> conf;
			if (!round) try { conf = make(); } catch (const std::exception & e) { wrong.push_back(std::string("construction throws ") + e.what()); break; }
			auto result = observe([&] {
				std::vector<std::shared_ptr<InjectorConfiguration>> vec { conf };
				switch (use) {
					case 0: return Injector::create(*conf);
					case 1: return Injector::create(vec);
					case 2: Injector::validate(*conf); return Injector::create(*conf);
					case 3: { auto parent = Injector::create(); return parent->createChild(*conf); }
					case 4: return Injector::create(*conf);
					default: Injector::validate(vec); return Injector::create(vec);
				}
			});
			if (result.threw || !result.error.empty() || result.found != want) wrong.push_back("round " + std::to_string(round) + " bound: " + list(result.found) + " instead of " + list(want) + result.error + result.what);
		}
		ctx.check(wrong.empty(), use >= 2 && use != 3 ? "repeated use" : "construction", [&] { return describe() + ": " + wrong[0]; });
		++ctx.traces;
		++ctx.transitions;
		ctx.state(vk::hash(describe()));
	}
	// Defaults of requests.
	if (ctx.begin([] { return std::string("requests with defaults"); })) {
		auto in = Injector::create(EnvironmentConfiguration(std::string("g {\n p = 5\n u = file:/a\n}\n"), std::string("g {\n p : int\n u : uri\n}\n")));
		auto g = in->getShared<EnvironmentProperties>("g");
		auto d = [] { return std::unique_ptr<Resource::Uri>(new Resource::File("/dflt")); };
		ctx.check(g->getValue<int>("p", 9) == 5 && g->getValue<int>("q", 9) == 9, "value default", [] { return std::string(); });
		ctx.check(rawOf(*g->getUnique<Resource::Uri>("u", d())) == "file:/a" && rawOf(*g->getUnique<Resource::Uri>("w", d())) == "file:/dflt", "unique default", [] { return std::string(); });
	}
	ctx.outcome("uses");
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	EnvironmentConfiguration::registerUnsignedTypes();
	EnvironmentConfiguration::registerValueType<Pair>("pair");
	EnvironmentConfiguration::registerUniqueType<Shape>("shape", [] (const std::unique_ptr<const Shape> & p) { return p->clone(); });
	uses(ctx);
	includes(ctx);
	types(ctx);
	sources(ctx);
	onePlace(ctx);
	return ctx.finish();
}
