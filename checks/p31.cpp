// P31: the string, container and vector utilities against their definitions.
#include <deque>
#include <list>
#include <set>
#include <boost/core/demangle.hpp>
#include <Balau/Util/Strings.hpp>
#include <Balau/Util/Containers.hpp>
#include <Balau/Util/Vectors.hpp>
#include "vk.hpp"
using namespace vk;
using namespace Balau::Util;
using S = std::string; using SV = std::string_view; using U = std::u32string; using UV = std::u32string_view;
Ctx * C;

// The reference works on UTF-32.
U dec(const S & s) {
	U r;
	for (size_t i = 0; i < s.size(); ) {
		unsigned char a = (unsigned char) s[i]; int n = a < 0x80 ? 1 : a < 0xe0 ? 2 : a < 0xf0 ? 3 : 4;
		char32_t c = n == 1 ? a : a & (0x7f >> n);
		for (int k = 1; k < n; ++k) c = c << 6 | ((unsigned char) s[i + (size_t) k] & 63);
		r += c; i += (size_t) n;
	}
	return r;
}
S enc(const U & u) {
	S r;
	for (char32_t c : u) {
		if (c < 0x80) r += (char) c;
		else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); }
		else if (c < 0x10000) { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
		else { r += (char) (0xf0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
	}
	return r;
}
// The space characters that the library's isSpace knows, of those used here.
bool space(char32_t c) { return c == ' ' || c == 0xa0 || c == 0x2003; }
U rTrimL(U s) { size_t i = 0; while (i < s.size() && space(s[i])) ++i; return s.substr(i); }
U rTrimR(U s) { while (!s.empty() && space(s.back())) s.pop_back(); return s; }

template <class V> S list(const V & v) { S r = "["; for (auto & x : v) r += q(S(x)) + ","; return r + "]"; }
template <class V> S list32(const V & v) { S r = "["; for (auto & x : v) r += q(enc(U(x))) + ","; return r + "]"; }
void eq(const char * key, const S & got, const S & want, const S & how) { C->check(got == want, key, [&] { return how + ": got " + got + ", expected " + want; }); }
void eq(const char * key, size_t got, size_t want, const S & how) { eq(key, std::to_string(got), std::to_string(want), how); }
void eqb(const char * key, bool got, bool want, const S & how) { eq(key, S(got ? "true" : "false"), S(want ? "true" : "false"), how); }
// A view must lie within the text that it was taken from.
void within(const char * key, SV part, SV whole, const S & how) { C->check(part.data() >= whole.data() && part.data() + part.size() <= whole.data() + whole.size(), key, [&] { return how + ": a view outside its text"; }); }

size_t refFind(const S & s, const S & t, size_t from) { for (size_t i = from; i + t.size() <= s.size(); ++i) { bool e = true; for (size_t k = 0; k < t.size(); ++k) if (s[i + k] != t[k]) { e = false; break; } if (e) return i; } return S::npos; }
std::vector<S> refSplit(const S & s, const S & d, bool compress) {
	std::vector<S> r;
	if (d.empty()) return { s };
	S cur; size_t i = 0;
	while (i < s.size()) {
		if (i + d.size() <= s.size() && refFind(s.substr(i, d.size()), d, 0) == 0) { if (!cur.empty() || !compress) r.push_back(cur); cur.clear(); i += d.size(); }
		else cur += s[i++];
	}
	if (!cur.empty() || !compress) r.push_back(cur);
	return r;
}

// All that depends on one text only.
void unary(const S & s) {
	Exact x(s); SV v = x.view(); U u = dec(s); UV uv(u); const S how = q(s);
	++C->transitions;
	eq("code points", Strings::codePointCount(v), u.size(), how); eq("code points", Strings::codePointCount(uv), u.size(), how);
	auto t = Strings::trim(v), l = Strings::trimLeft(v), r = Strings::trimRight(v);
	eq("trim", q(S(t)), q(enc(rTrimL(rTrimR(u)))), how); eq("trimLeft", q(S(l)), q(enc(rTrimL(u))), how); eq("trimRight", q(S(r)), q(enc(rTrimR(u))), how);
	within("trim", t, v, how); within("trimLeft", l, v, how); within("trimRight", r, v, how);
	eq("trim u32", q(enc(U(Strings::trim(uv)))), q(enc(rTrimL(rTrimR(u)))), how); eq("trimLeft u32", q(enc(U(Strings::trimLeft(uv)))), q(enc(rTrimL(u))), how); eq("trimRight u32", q(enc(U(Strings::trimRight(uv)))), q(enc(rTrimR(u))), how);
	S simp; for (char c : enc(rTrimL(rTrimR(u)))) { bool b = c == ' ' || c == '\t'; if (b && !simp.empty() && simp.back() == ' ') continue; if (b) simp += ' '; else simp += c; }
	eq("simplify", q(Strings::simplify(v)), q(simp), how);
	for (unsigned w = 0; w <= 6; ++w) {
		S pad = w > u.size() ? S(w - u.size(), '.') : S(); U upad = w > u.size() ? U(w - u.size(), U'\u00e9') : U();
		eq("padLeft", q(Strings::padLeft(v, w, '.')), q(pad + s), how); eq("padRight", q(Strings::padRight(v, w, '.')), q(s + pad), how);
		eq("padLeft wide", q(Strings::padLeft(v, w, U'\u00e9')), q(enc(upad) + s), how); eq("padRight wide", q(Strings::padRight(v, w, U'\u00e9')), q(s + enc(upad)), how);
		eq("padLeft u32", q(enc(Strings::padLeft(uv, w, U'\u00e9'))), q(enc(upad + u)), how); eq("padRight u32", q(enc(Strings::padRight(uv, w, U'\u00e9'))), q(enc(u + upad)), how);
		eq("padLeft default", q(Strings::padLeft(v, w)), q(S(pad.size(), ' ') + s), how); eq("padRight default", q(Strings::padRight(v, w)), q(s + S(pad.size(), ' ')), how);
	}
	for (size_t n = 0; n <= 3; ++n) {
		eq("append", q(Strings::append(v, 'z', n)), q(s + S(n, 'z')), how);
		U e(n, U'\u20ac'); S d = s; Strings::append(d, U'\u20ac', n); eq("append wide", q(d), q(s + enc(e)), how);
		eq("append wide", q(Strings::append(s, U'\u20ac', n)), q(s + enc(e)), how);
		U du = u; Strings::append(du, U'\u20ac', n); eq("append u32", q(enc(du)), q(enc(u + e)), how);
		S dc = s; Strings::append(dc, 'y', n); eq("append", q(dc), q(s + S(n, 'y')), how);
	}
	// Line lengths: a break is \n\r, \r\n, \n or \r, whichever comes first in that order.
	std::vector<size_t> all, noTail; size_t len = 0, i = 0;
	while (i < s.size()) {
		if (s[i] == '\n' || s[i] == '\r') { size_t b = i + 1 < s.size() && (s[i + 1] == '\n' || s[i + 1] == '\r') && s[i + 1] != s[i] ? 2 : 1; all.push_back(len); len = 0; i += b; }
		else { ++len; ++i; }
	}
	noTail = all; if (len) all.push_back(len);
	auto nums = [] (const std::vector<size_t> & n) { S r; for (auto k : n) r += std::to_string(k) + " "; return r; };
	eq("lineLengths", nums(Strings::lineLengths(v)), nums(all), how); eq("lineLengths without the rest", nums(Strings::lineLengths(v, false)), nums(noTail), how); eq("lineLengths", nums(Strings::lineLengths(s)), nums(all), how);
	eq("lineLengths of a C string", nums(Strings::lineLengths(s.c_str())), nums(all), how);
	C->nontrivial(hash(s));
}

void binary(const S & s, const S & t) {
	Exact x(s), y(t); SV v = x.view(), w = y.view(); U us = dec(s), ut = dec(t); UV uv(us), uw(ut);
	const S how = q(s) + ", " + q(t);
	++C->transitions;
	const bool starts = s.size() >= t.size() && s.compare(0, t.size(), t) == 0, ends = s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0;
	eqb("startsWith", Strings::startsWith(v, w), starts, how); eqb("startsWith", Strings::startsWith(s, t), starts, how); eqb("startsWith", Strings::startsWith(s.c_str(), t), starts, how); eqb("startsWith u32", Strings::startsWith(us, ut), starts, how);
	eqb("endsWith", Strings::endsWith(v, w), ends, how); eqb("endsWith", Strings::endsWith(s, t), ends, how); eqb("endsWith", Strings::endsWith(s.c_str(), t), ends, how); eqb("endsWith u32", Strings::endsWith(us, ut), ends, how);
	const bool has = refFind(s, t, 0) != S::npos;
	eqb("contains", Strings::contains(s, t), has, how); eqb("contains", Strings::contains(v, w), has, how); eqb("contains", Strings::contains(s.c_str(), t), has, how); eqb("contains u32", Strings::contains(us, ut), has, how);
	size_t n = 0; if (!t.empty()) for (size_t i = 0; (i = refFind(s, t, i)) != S::npos; i += t.size()) ++n;
	eq("occurrences", Strings::occurrences(v, w), n, how); eq("occurrences", Strings::occurrences(s, t), n, how); eq("occurrences", Strings::occurrences(s.c_str(), t.c_str()), n, how); eq("occurrences u32", Strings::occurrences(us, ut), n, how);
	size_t last = S::npos; for (size_t i = 0; i + t.size() <= s.size(); ++i) if (s.compare(i, t.size(), t) == 0) last = i;
	eq("lastIndexOf", Strings::lastIndexOf(s, t), last, how); eq("lastIndexOf", Strings::lastIndexOf(s.c_str(), t), last, how);
	for (bool compress : { true, false }) {
		auto r = refSplit(s, t, compress); auto g = Strings::split(v, w, compress);
		eq("split", list(g), list(r), how + (compress ? " compressed" : ""));
		for (auto & p : g) within("split", p, v, how);
		auto g32 = Strings::split(uv, uw, compress); eq("split u32", list32(g32), list(r), how);
		std::vector<S> tr; for (auto & p : r) tr.push_back(enc(rTrimL(rTrimR(dec(p)))));
		eq("splitAndTrim", list(Strings::splitAndTrim(v, w, compress)), list(tr), how); eq("splitAndTrim u32", list32(Strings::splitAndTrim(uv, uw, compress)), list(tr), how);
		if (!compress && !t.empty()) eq("split and join", q(Strings::joinContainer(SV(t), g)), q(s), how);
	}
	eqb("equalsIgnoreCase", Strings::equalsIgnoreCase(s, t), [&] { U a = us, b = ut; auto low = [] (U & k) { for (auto & c : k) { if (c >= 'A' && c <= 'Z') c += 32; if (c == 0xc9) c = 0xe9; } }; low(a); low(b); return a == b; }(), how);
}
void replace(const S & s, const S & t, const S & r) {
	Exact x(s), y(t), z(r);
	const S how = q(s) + ", " + q(t) + ", " + q(r);
	S want; size_t n = 0, i = 0;
	while (i < s.size()) { if (!t.empty() && s.compare(i, t.size(), t) == 0) { want += r; i += t.size(); ++n; } else want += s[i++]; }
	size_t got = 99, got32 = 99;
	eq("replaceAll", q(Strings::replaceAll(x.view(), y.view(), z.view(), &got)), q(want), how); eq("replaceAll count", got, n, how);
	eq("replaceAll u32", q(enc(Strings::replaceAll(UV(dec(s)), UV(dec(t)), UV(dec(r)), &got32))), q(want), how); eq("replaceAll u32 count", got32, n, how);
	++C->transitions;
}
// Regular expressions that the reference can match by hand: the length of the match at i, or 0.
struct Re { const char * re; std::function<size_t (const S &, size_t)> at; };
void regexes(const S & s) {
	static const std::vector<std::pair<std::regex, Re>> res = [] {
		std::vector<Re> v {
			{ ",", [] (const S & s, size_t i) -> size_t { return s[i] == ','; } },
			{ ",+", [] (const S & s, size_t i) { size_t n = 0; while (i + n < s.size() && s[i + n] == ',') ++n; return n; } },
			{ "a,|b", [] (const S & s, size_t i) -> size_t { return s[i] == 'a' && i + 1 < s.size() && s[i + 1] == ',' ? 2 : s[i] == 'b'; } },
			{ "[ab]+", [] (const S & s, size_t i) { size_t n = 0; while (i + n < s.size() && (s[i + n] == 'a' || s[i + n] == 'b')) ++n; return n; } } };
		std::vector<std::pair<std::regex, Re>> r; for (auto & e : v) r.emplace_back(std::regex(e.re), e); return r;
	}();
	Exact x(s); SV v = x.view();
	for (auto & p : res) {
		const S how = q(s) + " by /" + p.second.re + "/";
		++C->transitions;
		std::vector<std::pair<size_t, size_t>> m; for (size_t i = 0; i < s.size(); ) { size_t n = p.second.at(s, i); if (n) { m.emplace_back(i, n); i += n; } else ++i; }
		eq("occurrences of a regex", Strings::occurrences(v, p.first), m.size(), how); eq("occurrences of a regex", Strings::occurrences(s, p.first), m.size(), how);
		eqb("startsWithRegex", Strings::startsWithRegex(s, p.first), !m.empty() && m[0].first == 0, how);
		eqb("matches", Strings::matches(s, p.first), m.size() == 1 && m[0].second == s.size() , how);
		for (const S & r : { S(""), S("-"), S("$1&") }) {
			S want; size_t at = 0; for (auto & k : m) { want += s.substr(at, k.first - at) + r; at = k.first + k.second; } want += s.substr(at);
			eq("replaceAll by regex", q(Strings::replaceAll(s, p.first, r)), q(want), how); eq("replaceAll by regex", q(Strings::replaceAll(v, p.first, r)), q(want), how);
			eq("replaceAll by regex", q(Strings::replaceAll(s.c_str(), p.first, r)), q(want), how);
		}
		for (bool ret : { false, true }) for (bool compress : { true, false }) {
			std::vector<S> want; size_t at = 0;
			for (auto & k : m) { if (k.first > at || !compress) want.push_back(s.substr(at, k.first - at)); if (ret) want.push_back(s.substr(k.first, k.second)); at = k.first + k.second; }
			if (m.empty() ? !s.empty() : at < s.size() || !compress) want.push_back(s.substr(at));
			auto g = Strings::split(v, p.first, ret, compress);
			eq("split by regex", list(g), list(want), how + (ret ? " with delimiters" : "") + (compress ? " compressed" : ""));
			for (auto & k : g) within("split by regex", k, v, how);
			std::vector<S> tr; for (auto & k : want) tr.push_back(enc(rTrimL(rTrimR(dec(k)))));
			eq("splitAndTrim by regex", list(Strings::splitAndTrim(v, p.first, ret, compress)), list(tr), how);
		}
	}
}
void joins(const std::vector<S> & p, const S & d) {
	const S how = list(p) + " with " + q(d);
	S want, ps; for (size_t i = 0; i < p.size(); ++i) { want += (i ? d : S()) + p[i]; ps += "<" + p[i] + ">"; }
	++C->transitions;
	eq("joinContainer", q(Strings::joinContainer(d, p)), q(want), how); eq("joinContainer", q(Strings::joinContainer(d.c_str(), p)), q(want), how);
	std::list<S> l(p.begin(), p.end()); eq("joinContainer", q(Strings::joinContainer(SV(d), l)), q(want), how);
	eq("prefixSuffixJoin", q(Strings::prefixSuffixJoin(p, "<", ">")), q(ps), how); eq("prefixSuffixJoin", q(Strings::prefixSuffixJoin(p, S("<"), S(">"))), q(ps), how);
	if (p.size() == 3) eq("join", q(Strings::join(d.c_str(), p[0], p[1], p[2])), q(want), how);
	if (p.size() == 1) eq("join", q(Strings::join(d.c_str(), p[0])), q(want), how);
}
void containers(const std::vector<int> & a, const std::vector<int> & b) {
	auto show = [] (const auto & v) { S r; for (int k : v) r += std::to_string(k); return r; };
	const S how = show(a) + "," + show(b);
	++C->transitions;
	std::vector<int> ab = a; for (int k : b) ab.push_back(k);
	std::vector<int> abb = ab; for (int k : b) abb.push_back(k);
	{ auto d = a; Containers::append(d, b); eq("Containers::append", show(d), show(ab), how); }
	{ std::list<int> d(a.begin(), a.end()); Containers::append(d, b, std::deque<int>(b.begin(), b.end())); eq("Containers::append", show(d), show(abb), how); }
	eq("Containers::concatenate", show(Containers::concatenate(a, b)), show(ab), how); eq("Containers::concatenate", show(Containers::concatenate(a, b, b)), show(abb), how);
	{ auto d = a; Vectors::append(d, b); eq("Vectors::append", show(d), show(ab), how); }
	for (int k = 0; k < 3; ++k) { bool in = false; for (int e : a) in = in || e == k; eqb("Containers::contains", Containers::contains(a, k), in, how); }
	{ bool any = false; for (int e : a) for (int f : b) any = any || e == f; eqb("Containers::contains any", Containers::contains(a, b), any, how); }
	{ std::vector<std::string> w; for (int e : a) w.push_back(std::to_string(e * 2)); eq("Vectors::map", list(Vectors::map<std::string, int>(a, [] (const int & e) { return std::to_string(e * 2); })), list(w), how);
	  std::vector<S> ts; for (int e : a) ts.push_back(std::to_string(e)); eq("Vectors::toStringVector", list(Vectors::toStringVector(a)), list(ts), how); eq("Vectors::toString32Vector", list32(Vectors::toString32Vector(a)), list(ts), how); }
	for (int k : b) {
		auto d = a; auto w = a; bool done = false; int key = k + 10;
		for (auto & e : w) if (e % 10 == key % 10) { e = key; done = true; break; }
		if (!done) w.push_back(key);
		Vectors::pushBackOrReplace(d, int(key), [] (const int & x, const int & y) { return x % 10 == y % 10; }, [] (int & x, int && y) { x = y; });
		eq("Vectors::pushBackOrReplace", show(d), show(w), how);
	}
	std::vector<S> sv; for (int e : a) sv.push_back(std::to_string(e)); std::vector<S> dst { "z" }; Vectors::move(dst, sv); std::vector<S> w { "z" }; for (int e : a) w.push_back(std::to_string(e)); eq("Vectors::move", list(dst), list(w), how);
	S text; for (int e : a) text += (char) (e ? 'a' + e : 0); auto cv = Vectors::toCharVector(text); eq("Vectors::toCharVector", q(S(cv.begin(), cv.end())), q(text), how); eq("Vectors::charsToString", q(Vectors::charsToString(cv)), q(text), how);
	U t32(text.begin(), text.end()); auto cv32 = Vectors::toCharVector(t32); eq("Vectors::toCharVector u32", q(enc(Vectors::charsToString(cv32))), q(text), how);
	eq("Vectors::pushBack", show(Vectors::pushBack(int(1), int(2), int(3))), "123", how);
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	const bool th = ctx.thorough();
	auto each = [&] (const char * what, const std::vector<S> & al, size_t n, size_t block, const std::function<void (const S &)> & f) {
		uint64_t k = 0; bool mine = false;
		stringsUpTo(al, n, [&] (const S & s) { if (k++ % block == 0) mine = ctx.begin([&] { return S(what) + " from " + q(s); }); if (mine) f(s); });
	};
	const std::vector<S> wide { "a", " ", "\t", "\n", "\r", "\xc3\xa9", "\xe2\x80\x83", "\xf0\x9f\x98\x80" };
	each("texts", wide, th ? 6 : 5, 64, unary);
	const std::vector<S> narrow { "a", "b", ",", " ", "\xc3\xa9" };
	std::vector<S> args; stringsUpTo({ "a", "b", ",", "\xc3\xa9" }, th ? 4 : 3, [&] (const S & s) { args.push_back(s); });
	each("pairs", narrow, th ? 6 : 5, 8, [&] (const S & s) { for (auto & t : args) binary(s, t); C->nontrivial(hash("b" + s)); });
	each("case", { "a", "A", "\xc3\xa9", "\xc3\x89", "b" }, 3, 4, [&] (const S & s) { stringsUpTo({ "a", "A", "\xc3\xa9", "\xc3\x89", "b" }, 3, [&] (const S & t) { binary(s, t); }); });
	std::vector<S> few; stringsUpTo({ "a", "b" }, 3, [&] (const S & s) { few.push_back(s); }); few.push_back("\xc3\xa9"); few.push_back("aaaaaaaaaaaaaaaaaaaaaaaa");
	each("replacements", { "a", "b", "\xc3\xa9" }, th ? 7 : 6, 8, [&] (const S & s) { for (auto & t : few) for (auto & r : few) replace(s, t, r); C->nontrivial(hash("r" + s)); });
	each("regular expressions", { "a", "b", ",", " " }, th ? 7 : 6, 16, [&] (const S & s) { regexes(s); });
	std::vector<S> parts { "", "x", ",", "yy" };
	for (size_t n = 0; n <= 4; ++n) {
		if (!ctx.begin([&] { return "joins of " + std::to_string(n); })) continue;
		sequences(parts.size(), n, [&] (const std::vector<int> & ix) { std::vector<S> p; for (int i : ix) p.push_back(parts[(size_t) i]); for (const S & d : { S(""), S(","), S("--") }) joins(p, d); });
	}
	for (size_t n = 0; n <= 4; ++n) {
		if (!ctx.begin([&] { return "containers of " + std::to_string(n); })) continue;
		sequences(3, n, [&] (const std::vector<int> & a) { for (size_t m = 0; m <= 3; ++m) sequences(3, m, [&] (const std::vector<int> & b) { containers(a, b); }); });
	}
	return ctx.finish();
}
