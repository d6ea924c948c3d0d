// P43: container, vector, memory, stream and UUID helpers against their definitions, for all contents within bounds.
#include <deque>
#include <list>
#include <set>
#include <boost/predef.h>
#include <boost/core/demangle.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Type/UUID.hpp>
#include <Balau/Util/Containers.hpp>
#include <Balau/Util/Enums.hpp>
#include <Balau/Util/Files.hpp>
#include <Balau/Util/Memory.hpp>
#include <Balau/Util/Streams.hpp>
#include <Balau/Util/Vectors.hpp>
#include "vk.hpp"
using namespace vk;
using S = std::string; using V = std::vector<int>;
using Balau::Util::Containers; using Balau::Util::Vectors; using Balau::Util::Memory; using Balau::Util::Streams; using Balau::Util::Files;
Ctx * C;
template <class T> S str(const T & c) { std::ostringstream o; o << "("; for (auto & x : c) o << " " << x; o << " )"; return o.str(); }
template <class A> V vec(const A & a) { return V(a.begin(), a.end()); }
V operator + (V a, const V & b) { a.insert(a.end(), b.begin(), b.end()); return a; }

struct Counted { int v; static int copies, moves; Counted(int v_) : v(v_) {} Counted(const Counted & c) : v(c.v) { ++copies; } Counted(Counted && c) noexcept : v(c.v) { c.v = -1; ++moves; } Counted & operator = (const Counted &) = default; Counted & operator = (Counted && c) noexcept { v = c.v; c.v = -1; ++moves; return *this; } bool operator == (const Counted & r) const { return v == r.v; } };
int Counted::copies = 0, Counted::moves = 0;
enum class Small : unsigned char { A = 0, B = 7, C = 255 }; enum class Neg : long { A = -5, B = 1L << 40 }; enum Plain : int { P = -3 };

template <class D, class A, class B> void pair(const char * how, const V & x, const V & y, const V & z) {
	D d(x.begin(), x.end()); A a(y.begin(), y.end()); B b(z.begin(), z.end());
	auto bad = [&] (const char * f, const V & got) { C->violation(f, S(f) + " of " + how + " " + str(x) + ", " + str(y) + ", " + str(z) + ": " + str(got)); };
	D e = d; Containers::append(e, a); if (vec(e) != x + y) bad("append", vec(e));
	e = d; Containers::append(e, a, b); if (vec(e) != x + y + z) bad("append", vec(e));
	e = d; Containers::append(e, b, a, b); if (vec(e) != x + z + y + z) bad("append", vec(e));
	if (vec(a) != y || vec(b) != z) bad("append (its sources)", vec(a));
	D c = Containers::concatenate(d, a, b); if (vec(c) != x + y + z) bad("concatenate", vec(c));
	c = Containers::concatenate(d, a); if (vec(c) != x + y) bad("concatenate", vec(c));
	for (int v = 0; v < 4; ++v) if (Containers::contains(d, v) != (std::find(x.begin(), x.end(), v) != x.end())) bad("contains", V { v });
	bool any = false; for (int v : y) if (std::find(x.begin(), x.end(), v) != x.end()) any = true;
	if (Containers::contains(d, a) != any) bad("contains one of", V { !any });
	++C->transitions;
}
S chars(const std::vector<S> & v) { S o; for (auto & x : v) o += q(x) + " "; return o; }

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	size_t n = ctx.thorough() ? 5 : 4;
	std::vector<V> all; for (size_t l = 0; l <= n; ++l) sequences(3, l, [&] (auto & s) { all.push_back(V(s.begin(), s.end())); });
	for (size_t k = 0; k < all.size(); ++k) {
		const V & x = all[k];
		if (!ctx.begin([&] { return "contents " + str(x); })) continue;
		for (auto & y : all) {
			if (y.size() > 3) continue;
			pair<V, V, V>("vectors", x, y, V { 2, 1 });
			pair<std::list<int>, V, std::deque<int>>("list, vector, deque", x, y, V { 0 });
			pair<V, std::list<int>, std::list<int>>("vector, lists", x, y, V {});
			pair<std::deque<int>, std::deque<int>, V>("deques, vector", x, y, V { 1, 1, 1 });
			V d = x; Vectors::append(d, y); if (d != x + y) ctx.violation("Vectors::append", str(x) + str(y) + str(d));
			d = x; V src = y; Vectors::move(d, src); if (d != x + y) ctx.violation("Vectors::move", str(x) + str(y) + str(d));
			ctx.nontrivial(hash(str(x) + str(y))); ctx.beat();
		}
		std::function<S (const int &)> f = [] (const int & v) { return S((size_t) v + 1, 'x'); };
		std::vector<S> want; for (int v : x) want.push_back(f(v));
		if (Vectors::map<S, int>(x, f) != want) ctx.violation("map", "of " + str(x) + " " + chars(Vectors::map<S, int>(x, f)));
		if (Vectors::toStringVector(x) != [&] { std::vector<S> w; for (int v : x) w.push_back(std::to_string(v)); return w; }()) ctx.violation("toStringVector", str(x));
		// Push back or replace, with every comparison result and both kinds of elements.
		for (int e = 0; e < 4; ++e) {
			V d = x, w = x; auto it = std::find(w.begin(), w.end(), e); if (it == w.end()) w.push_back(e);
			Vectors::pushBackOrReplace(d, int(e)); if (d != w) ctx.violation("pushBackOrReplace", std::to_string(e) + " to " + str(x) + " gives " + str(d));
			std::vector<std::pair<int, int>> dp, wp; for (size_t m = 0; m < x.size(); ++m) dp.push_back({ x[m], (int) m }); wp = dp;
			auto cmp = [] (const std::pair<int, int> & a, const std::pair<int, int> & b) { return a.first == b.first; };
			auto ip = std::find_if(wp.begin(), wp.end(), [&] (auto & p) { return p.first == e; }); if (ip == wp.end()) wp.push_back({ e, 77 }); else ip->second += 770;
			auto rep = [] (std::pair<int, int> & a, std::pair<int, int> && b) { a.second += 10 * b.second; };
			Vectors::pushBackOrReplace(dp, std::pair<int, int>(e, 77), cmp, rep); if (dp != wp) ctx.violation("pushBackOrReplace", "with functions: " + std::to_string(e) + " to " + str(x));
		}
		if (x.size() == 3) {
			V d = { 9 }; Vectors::pushBack(d, int(x[0]), int(x[1]), int(x[2])); if (d != V { 9, x[0], x[1], x[2] }) ctx.violation("pushBack", str(x) + str(d));
			auto made = Vectors::pushBack(int(x[0]), int(x[1]), int(x[2])); if (made != x) ctx.violation("pushBack", str(x) + str(made));
			auto u = Vectors::pushBack(std::make_unique<int>(x[0]), std::make_unique<int>(x[1])); if (u.size() != 2 || !u[0] || !u[1] || *u[0] != x[0] || *u[1] != x[1]) ctx.violation("pushBack", "of what can only be moved");
			std::vector<int> order;
			auto mk = [&order] (const int & v) { order.push_back(v); return std::unique_ptr<int>(new int(v * 2)); };
			auto mu = Memory::makeUnique<int>(mk, x[0], x[1], x[2]);
			if (mu.size() != 3 || *mu[0] != 2 * x[0] || *mu[1] != 2 * x[1] || *mu[2] != 2 * x[2] || order != x) ctx.violation("makeUnique", str(x));
			order.clear();
			auto ms = Memory::makeShared<int>([&order] (const int & v) { order.push_back(v); return std::make_shared<int>(v * 2); }, x[0], x[1], x[2]);
			if (ms.size() != 3 || *ms[0] != 2 * x[0] || *ms[1] != 2 * x[1] || *ms[2] != 2 * x[2] || order != x) ctx.violation("makeShared", str(x));
			order.clear();
			auto mv = Memory::makeSharedV<int>([&order] (const int & v) { order.push_back(v); std::vector<std::shared_ptr<int>> r; for (int k = 0; k < v; ++k) r.push_back(std::make_shared<int>(v * 10 + k)); return r; }, x[0], x[1], x[2]);
			V got, exp; for (auto & p : mv) got.push_back(*p); for (int v : x) for (int k = 0; k < v; ++k) exp.push_back(v * 10 + k);
			if (got != exp || order != x) ctx.violation("makeSharedV", str(x) + ": " + str(got));
		}
	}
	if (ctx.begin([] { return S("no elements, enumerations, moved elements"); })) {
		if (!Vectors::pushBack<int>().empty() || !Memory::makeUnique<int>([] (const int &) { return std::unique_ptr<int>(); }).empty()) ctx.violation("pushBack", "of nothing");
		using Balau::Util::Enums;
		if (Enums::toUnderlying(Small::B) != 7 || Enums::toUnderlying(Small::C) != 255 || Enums::toUnderlying(Neg::A) != -5 || Enums::toUnderlying(Neg::B) != 1L << 40 || Enums::toUnderlying(P) != -3) ctx.violation("toUnderlying", "wrong value");
		std::vector<Counted> d; Counted::copies = 0; Vectors::pushBack(d, Counted(1), Counted(2), Counted(3));
		if (d.size() != 3 || d[0].v != 1 || d[1].v != 2 || d[2].v != 3) ctx.violation("pushBack", "of counted elements");
		ctx.nontrivial(1);
	}
	// Texts as vectors, streams and files.
	S file = ctx.scratch + "/p43.txt";
	std::vector<S> texts; stringsUpTo({ "a", "\n", "\r", S(1, '\0'), "\xc3\xa9", " " }, n + 1, [&] (const S & t) { texts.push_back(t); });
	for (int part = 0; part < 64; ++part) {
		if (!ctx.begin([&] { return "texts, part " + std::to_string(part); })) continue;
		for (size_t k = (size_t) part; k < texts.size(); k += 64) {
			const S & t = texts[k];
			std::vector<char> cv = Vectors::toCharVector(t); if (S(cv.begin(), cv.end()) != t || Vectors::charsToString(cv) != t) ctx.violation("char vector", q(t));
			std::u32string u; for (unsigned char c : t) u += (char32_t) (c == ' ' ? 0x10ffff : c);
			std::vector<char32_t> uv = Vectors::toCharVector(u); if (std::u32string(uv.begin(), uv.end()) != u || Vectors::charsToString(uv) != u) ctx.violation("char vector", "of 32 bit characters " + q(t));
			std::u16string w; for (unsigned char c : t) w += (char16_t) (c == ' ' ? 0xffff : c);
			if (Vectors::charsToString(std::vector<char16_t>(w.begin(), w.end())) != w) ctx.violation("char vector", "of 16 bit characters " + q(t));
			std::vector<S> lines; { S l; bool open = false; for (char c : t) if (c == '\n') { lines.push_back(l); l.clear(); open = false; } else { l += c; open = true; } if (open) lines.push_back(l); }
			{ std::istringstream in(t); auto got = Streams::readLinesToVector(in); if (got != lines) ctx.violation("readLinesToVector", q(t) + ": " + chars(got)); }
			{ std::istringstream in(t); if (toString(in) != t) ctx.violation("toString(stream)", q(t)); }
			if (!t.empty()) { std::istringstream in(t); std::ostringstream out; out << "x"; Streams::consume(out, in); if (out.str() != "x" + t) ctx.violation("consume", q(t) + ": " + q(out.str())); }
			if (k % 4 == 0) {
				{ std::ofstream o(file, std::ios::binary | std::ios::trunc); o << t; }
				Balau::Resource::File f(file);
				if (Files::readToString(f) != t) ctx.violation("readToString", q(t));
				auto fv = Files::readToVector(f); if (S(fv.begin(), fv.end()) != t) ctx.violation("readToVector", q(t));
				auto got = Files::toLines(f); if (got != lines) ctx.violation("toLines", q(t) + ": " + chars(got));
				S dst = file + ".copy"; std::remove(dst.c_str()); Files::copy(f, Balau::Resource::File(dst)); std::ifstream i(dst, std::ios::binary); std::stringstream s; s << i.rdbuf(); if (s.str() != t) ctx.violation("copy", q(t)); std::remove(dst.c_str());
				std::remove(file.c_str());
				int threw = 0; try { Files::readToString(f); } catch (const Balau::Exception::FileNotFoundException &) { ++threw; } try { Files::readToVector(f); } catch (const Balau::Exception::FileNotFoundException &) { ++threw; } try { Files::toLines(f); } catch (const Balau::Exception::FileNotFoundException &) { ++threw; }
				if (threw != 3) ctx.violation("absent file", "read without an exception");
			}
			ctx.nontrivial(hash(t)); ++ctx.transitions; ctx.beat();
		}
	}
	// UUIDs: the text denotes the bytes, the order is that of the bytes, and no two are equal.
	for (int part = 0; part < 8; ++part) {
		if (!ctx.begin([&] { return "UUIDs, part " + std::to_string(part); })) continue;
		std::vector<Balau::UUID> us; for (int k = 0; k < 200; ++k) us.emplace_back();
		std::set<S> seen;
		for (auto & u : us) {
			S t = u.asString(), w; auto a = u.asArray(); const unsigned char * b = u.asBytes();
			for (int k = 0; k < 16; ++k) { char h[3]; std::snprintf(h, sizeof h, "%02x", a[(size_t) k]); w += h; if (k == 3 || k == 5 || k == 7 || k == 9) w += '-'; if (a[(size_t) k] != b[k]) ctx.violation("UUID", "array and bytes differ"); }
			if (t != w || toString(u) != w) ctx.violation("UUID", "bytes " + w + ", text " + t);
			if ((a[6] & 0xf0) != 0x40 || (a[8] & 0xc0) != 0x80) ctx.violation("UUID", t + " is not a random UUID (version 4)");
			seen.insert(t);
			Balau::UUID c(u); if (c != u || !(c == u) || c.asString() != t) ctx.violation("UUID", "a copy differs");
			for (auto & v : us) {
				int o = memcmp(u.asBytes(), v.asBytes(), 16);
				if ((u < v) != (o < 0) || (u > v) != (o > 0) || (u <= v) != (o <= 0) || (u >= v) != (o >= 0) || (u == v) != (o == 0) || (u != v) != (o != 0)) ctx.violation("UUID", "order of " + t + " and " + v.asString());
				++ctx.transitions;
			}
		}
		if (seen.size() != us.size()) ctx.violation("UUID", "the same one twice");
		ctx.beat(); ctx.nontrivial(hash("uuid") + (uint64_t) part);
	}
	ctx.finish();
	return 0;
}
