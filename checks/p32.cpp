// P32: values to text and back, and texts to values, against an independent reading of numbers.
#include <cfloat>
#include <charconv>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <boost/core/demangle.hpp>
#include <Balau/Type/FromString.hpp>
#include <Balau/Type/ToString.hpp>
#include <Balau/Type/ToStringA.hpp>
#include "vk.hpp"
using namespace vk;
using Balau::Exception::ConversionException;
using I128 = __int128;
Ctx * C;

std::u16string to16(const std::string & s) { return std::u16string(s.begin(), s.end()); }
std::u32string to32(const std::string & s) { return std::u32string(s.begin(), s.end()); }
std::string dec(I128 v) { if (v == 0) return "0"; bool n = v < 0; std::string r; while (v != 0) { int d = (int) (v % 10); r.insert(r.begin(), (char) ('0' + (d < 0 ? -d : d))); v /= 10; } return n ? "-" + r : r; }

template <class T> struct Name; 
#define NAME(T) template <> struct Name<T> { static const char * get() { return #T; } }
NAME(char); NAME(char32_t); NAME(signed char); NAME(unsigned char); NAME(short); NAME(unsigned short); NAME(int); NAME(unsigned int); NAME(long); NAME(unsigned long); NAME(long long); NAME(unsigned long long);
NAME(float); NAME(double); NAME(long double); NAME(bool);

// A stateful stand-in for "some allocator type".
template <class T> struct Alloc : std::allocator<T> { Alloc() = default; template <class U> Alloc(const Alloc<U> &) {} template <class U> struct rebind { using other = Alloc<U>; };
	template <class U> bool operator == (const Alloc<U> &) const { return true; } template <class U> bool operator != (const Alloc<U> &) const { return false; } };

template <class T> std::string outcome(std::function<void (T &)> f, const T & init, T & v, bool same(const T &, const T &)) {
	v = init;
	try { f(v); return "ok"; }
	catch (const ConversionException &) { return same(v, init) ? "rejected" : "rejected but changed"; }
	catch (const std::exception & e) { return std::string("other exception ") + typeid(e).name(); }
}
template <class T> bool sameV(const T & a, const T & b) { return a == b || (a != a && b != b); }

template <class T> void roundTrip(T v, const std::string & expected = "") {
	const std::string n = Name<T>::get();
	auto s = toString(v);
	auto u16 = toString16(v); auto u32 = toString32(v);
	auto A8 = toString<Alloc<char>>(v);
	++C->transitions;
	auto how = [&] { return n + " " + q(s); };
	if (!expected.empty()) C->check(s == expected, n + " to text", [&] { return how() + ", expected " + expected; });
	C->check(to16(s) == u16 && to32(s) == u32, n + " to 16 and 32 bit text", how);
	C->check(std::string(A8.data(), A8.size()) == s, n + " to allocator text", [&] { return how() + " but " + q(std::string(A8.data(), A8.size())); });
	T r {};
	for (int w = 0; w < 3; ++w) {
		std::string o = outcome<T>([&] (T & d) { Exact e(s); if (w == 0) fromString(d, e.view()); else if (w == 1) fromString16(d, u16); else fromString32(d, u32); }, T(), r, sameV<T>);
		C->check(o == "ok" && sameV(r, v), n + " round trip", [&] { return how() + " form " + std::to_string(w) + ": " + o; });
	}
}

// The reference: blanks, a sign, digits (and 0x in base 16), nothing else.
bool reference(const std::string & t, int base, I128 & v) {
	size_t i = 0;
	while (i < t.size() && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) ++i;
	bool neg = false;
	if (i < t.size() && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
	auto digit = [&] (size_t k) { if (k >= t.size()) return -1; char c = t[k]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; return d < base ? d : -1; };
	if (base == 16 && i + 1 < t.size() && t[i] == '0' && (t[i + 1] == 'x' || t[i + 1] == 'X') && digit(i + 2) >= 0) i += 2;
	if (i == t.size()) return false;
	I128 r = 0;
	for (; i < t.size(); ++i) { int d = digit(i); if (d < 0) return false; if (r < ((I128) 1 << 100)) r = r * base + d; }
	v = neg ? -r : r;
	return true;
}
template <class T> void text(const std::string & t, int base, bool wide = true) {
	const std::string n = Name<T>::get();
	I128 v = 0;
	bool ok = reference(t, base, v) && v >= (I128) std::numeric_limits<T>::lowest() && v <= (I128) std::numeric_limits<T>::max();
	const T init = 77;
	T r;
	for (int w = 0; w < (base == 10 && wide ? 3 : 2); ++w) {
		if (w == 0 && base != 10) continue;
		std::string o = outcome<T>([&] (T & d) { Exact e(t); if (w == 0) fromString(d, e.view()); else if (w == 1) fromString(d, e.view(), base); else { fromString16(d, to16(t)); T d2 = 77; fromString32(d2, to32(t)); if (d != d2) d = (T) (d + 1); } }, init, r, sameV<T>);
		++C->transitions;
		bool good = ok ? o == "ok" && (I128) r == v : o == "rejected";
		C->check(good, std::string(ok ? "number read wrongly as " : "bad text accepted as ") + n, [&] { return q(t) + " base " + std::to_string(base) + " as " + n + " form " + std::to_string(w) + ": " + o + (o == "ok" ? " value " + dec((I128) r) : "") + ", expected " + (ok ? dec(v) : "rejection"); });
	}
	C->outcome(ok ? "accepted" : "rejected");
}
template <class T> void textFloat(const std::string & t) {
	const std::string n = Name<T>::get();
	// Grammar.
	size_t i = 0; auto isd = [&] { return i < t.size() && t[i] >= '0' && t[i] <= '9'; };
	while (i < t.size() && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) ++i;
	size_t start = i; bool neg = false;
	if (i < t.size() && (t[i] == '+' || t[i] == '-')) { neg = t[i] == '-'; ++i; start = i; }
	bool digits = false;
	while (isd()) { ++i; digits = true; }
	if (i < t.size() && t[i] == '.') { ++i; while (isd()) { ++i; digits = true; } }
	bool ok = digits;
	if (ok && i < t.size() && (t[i] == 'e' || t[i] == 'E')) { ++i; if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; ok = isd(); while (isd()) ++i; }
	ok = ok && i == t.size();
	T v = 0; bool tiny = false;
	if (ok) {
		auto res = std::from_chars(t.data() + start, t.data() + t.size(), v);
		if (res.ec == std::errc::result_out_of_range) { 
			// from_chars says the same for too large and too small: tell them apart by the reciprocal's sign of the exponent.
			tiny = t.find("e-") != std::string::npos;
			if (!tiny) ok = false; else v = 0;
		}
		if (neg) v = -v;
	}
	const T init = 77;
	T r;
	for (int w = 0; w < 3; ++w) {
		std::string o = outcome<T>([&] (T & d) { Exact e(t); if (w == 0) fromString(d, e.view()); else if (w == 1) fromString16(d, to16(t)); else fromString32(d, to32(t)); }, init, r, sameV<T>);
		++C->transitions;
		bool good = ok ? o == "ok" && (tiny ? std::fabs(r) < std::numeric_limits<T>::min() * 2 : r == v) : o == "rejected";
		C->check(good, std::string(ok ? "number read wrongly as " : "bad text accepted as ") + n, [&] { return q(t) + " as " + n + " form " + std::to_string(w) + ": " + o + ", expected " + (ok ? toString(v) : "rejection"); });
	}
	C->outcome(ok ? "accepted" : "rejected");
}

template <class T> void boundaries() {
	if (!C->begin([&] { return std::string("values around every power of 2 and 10 of ") + Name<T>::get(); })) return;
	std::set<I128> vs;
	const I128 lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
	auto add = [&] (I128 c) { for (int d = -40; d <= 40; ++d) for (int s = -1; s <= 1; s += 2) { I128 v = s * c + d; if (v >= lo && v <= hi) vs.insert(v); } };
	add(0); add(lo); add(hi);
	for (I128 p = 1; p <= hi; p *= 2) add(p);
	for (I128 p = 1; p <= hi; p *= 10) add(p);
	for (auto v : vs) { roundTrip<T>((T) v, dec(v)); C->nontrivial(hash(Name<T>::get() + dec(v))); }
	// Just outside.
	for (I128 d = 1; d <= 300; ++d) { text<T>(dec(hi + d), 10); text<T>(dec(lo - d), 10); text<T>(dec(hi + d - 5), 10); text<T>(dec(lo - d + 5), 10); }
	for (I128 p = 1; p < ((I128) 1 << 90); p *= 2) { text<T>(dec(p), 10); text<T>(dec(-p), 10); text<T>(dec(p - 1), 10); text<T>(dec(p + 1), 10); text<T>(dec(-p - 1), 10); }
}
template <class T> void floats() {
	if (!C->begin([&] { return std::string("boundary values of ") + Name<T>::get(); })) return;
	using L = std::numeric_limits<T>;
	std::vector<T> vs { 0, 1, L::max(), L::min(), L::denorm_min(), L::epsilon(), T(0.1L), T(1) / 3, T(2) / 3, T(1e10L), T(123456789.123456789L), T(5) / 9 };
	for (int e = L::min_exponent - L::digits + 1; e < L::max_exponent; e += (L::max_exponent > 2000 ? 97 : 1)) vs.push_back(std::ldexp(T(1), e));
	T p = 1; for (int e = 0; e < L::max_exponent10; e += (L::max_exponent10 > 1000 ? 37 : 1)) { vs.push_back(std::pow(T(10), T(e))); vs.push_back(std::pow(T(10), T(-e))); vs.push_back(std::pow(T(10), T(e)) / 7); (void) p; }
	for (size_t i = 0, n = vs.size(); i < n; ++i) { vs.push_back(std::nextafter(vs[i], L::max())); vs.push_back(std::nextafter(vs[i], L::lowest())); }
	for (T v : vs) for (int s = 0; s < 2; ++s) { T x = s ? -v : v; if (!std::isfinite(x)) continue; roundTrip<T>(x); C->nontrivial(hash(std::string(Name<T>::get()) + toString(x))); }
	for (const char * t : { "1e39", "9e38", "3.5e38", "-1e39", "1e309", "2e308", "-9e308", "1e4933", "2e4932", "-1e9999", "1e99999", "1e-50", "1e-400", "1e-5000" }) textFloat<T>(t);
}
template <class T> void smallAll() {
	if (!C->begin([&] { return std::string("all values of ") + Name<T>::get(); })) return;
	for (int v = (int) std::numeric_limits<T>::lowest(); v <= (int) std::numeric_limits<T>::max(); ++v) { roundTrip<T>((T) v, std::to_string(v)); if ((v & 7) == 0) C->nontrivial(hash(Name<T>::get() + dec(v))); }
	for (int v = -70000; v < 70000; v += 1) if (v < -32700 || v > 65500 || (v > 32700 && v < 32800) || (v > -300 && v < 300)) text<T>(std::to_string(v), 10, false);
}
void texts(const std::string & t) {
	text<signed char>(t, 10); text<unsigned char>(t, 10); text<short>(t, 10); text<unsigned short>(t, 10); text<int>(t, 10); text<unsigned int>(t, 10);
	text<long>(t, 10); text<unsigned long>(t, 10); text<long long>(t, 10); text<unsigned long long>(t, 10);
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	const bool th = ctx.thorough();
	smallAll<signed char>(); smallAll<unsigned char>(); smallAll<short>(); smallAll<unsigned short>();
	boundaries<signed char>(); boundaries<unsigned char>(); boundaries<short>(); boundaries<unsigned short>(); boundaries<int>(); boundaries<unsigned int>(); boundaries<long>(); boundaries<unsigned long>();
	boundaries<long long>(); boundaries<unsigned long long>();
	floats<float>(); floats<double>(); floats<long double>();
	if (ctx.begin([] { return std::string("characters, booleans, pairs and containers"); })) {
		for (int c = 1; c < 128; ++c) {
			char ch = (char) c; std::string s = toString(ch);
			ctx.check(s == std::string(1, ch) && toString16(ch) == std::u16string(1, (char16_t) c) && toString32(ch) == std::u32string(1, (char32_t) c), "char to text", [&] { return std::to_string(c); });
			char r = 0; fromString(r, s); char r2 = 0; fromString16(r2, to16(s)); char r3 = 0; fromString32(r3, to32(s));
			ctx.check(r == ch && r2 == ch && r3 == ch, "char round trip", [&] { return std::to_string(c); });
		}
		roundTrip<bool>(true, "true"); roundTrip<bool>(false, "false");
		using ::toString;
		for (int n = 0; n <= 3; ++n) {
			std::vector<int> v; std::list<std::string> l; std::map<int, std::string> m; std::string wv = "{", wl = "{", wm = "{";
			for (int i = 0; i < n; ++i) { v.push_back(i - 1); l.push_back(std::string((size_t) i, 'x')); m[i] = "y";
				wv += (i ? ", " : " ") + std::to_string(i - 1); wl += (i ? ", " : " ") + std::string((size_t) i, 'x'); wm += (i ? ", { " : " { ") + std::to_string(i) + ", y }"; }
			if (n) { wv += " "; wl += " "; wm += " "; }
			wv += "}"; wl += "}"; wm += "}";
			ctx.check(toString(v) == wv && toString16(v) == to16(wv) && toString32(v) == to32(wv), "vector to text", [&] { return toString(v) + " expected " + wv; });
			ctx.check(toString(l) == wl && toString16(l) == to16(wl) && toString32(l) == to32(wl), "list to text", [&] { return toString(l) + " expected " + wl; });
			ctx.check(toString(m) == wm && toString16(m) == to16(wm) && toString32(m) == to32(wm), "map to text", [&] { return toString(m) + " expected " + wm; });
		}
		ctx.check(toString(1, std::string("a"), 'b', 2.5, U"\u00e9", true, u"c") == "1ab2.5\xc3\xa9truec", "several arguments", [&] { return toString(1, std::string("a"), 'b', 2.5, U"\u00e9", true, u"c"); });
	}
	// Every word of up to five letters over the letters of the booleans, in both cases.
	{
		std::vector<std::string> al { "t", "r", "u", "e", "f", "a", "l", "s", "T", "E", " ", "1" };
		for (size_t len = 0; len <= 5; ++len) strings(al, len, [&] (const std::string & t) {
			if (len == 5 && !th && (t[0] != 'f' && t[0] != 't')) return;
			static uint64_t n = 0; static bool mine = false;
			if (n++ % 4096 == 0) mine = ctx.begin([&] { return "texts as bool from " + q(t); });
			if (!mine) return;
			std::string lower; for (char c : t) lower += (char) tolower(c);
			bool ok = lower == "true" || lower == "false";
			for (int w = 0; w < 3; ++w) for (bool init : { false, true }) {
				bool r; auto o = outcome<bool>([&] (bool & d) { Exact e(t); if (w == 0) fromString(d, e.view()); else if (w == 1) fromString16(d, to16(t)); else fromString32(d, to32(t)); }, init, r, sameV<bool>);
				ctx.check(ok ? o == "ok" && r == (lower == "true") : o == "rejected", "text as bool", [&] { return q(t) + ": " + o; });
				++ctx.transitions;
			}
		});
		ctx.note("bool", "words");
	}
	// Every text over an alphabet of digits, signs, blanks and letters, alone and after the leading digits of each limit.
	{
		std::vector<std::string> al { "0", "1", "7", "9", "-", "+", " ", "x", "a", ".", std::string(1, 0) };
		const char * pre[] = { "", "12", "-12", "25", "3276", "-3276", "6553", "214748364", "-214748364", "429496729", "922337203685477580", "-922337203685477580", "1844674407370955161", "-1844674407370955161", " \t0000" };
		for (auto * p : pre) for (size_t len = 0; len <= (*p ? (th ? 4u : 2u) : (th ? 5u : 4u)); ++len) strings(al, len, [&] (const std::string & t) {
			static uint64_t n = 0; static bool mine = false;
			if (n++ % 128 == 0) mine = ctx.begin([&] { return "texts as integers from " + q(p + t); });
			if (!mine) return;
			texts(p + t); ctx.nontrivial(hash(p + t));
		});
	}
	// Bases.
	{
		std::vector<std::string> al { "0", "1", "7", "8", "-", "x", "X", "f", "Z", " " };
		for (int base : { 2, 8, 10, 16, 36 }) for (size_t len = 0; len <= (th ? 5u : 4u); ++len) strings(al, len, [&] (const std::string & t) {
			static uint64_t n = 0; static bool mine = false;
			if (n++ % 256 == 0) mine = ctx.begin([&] { return "texts in base " + std::to_string(base) + " from " + q(t); });
			if (!mine) return;
			text<signed char>(t, base); text<unsigned char>(t, base); text<short>(t, base); text<unsigned short>(t, base); text<int>(t, base); text<unsigned int>(t, base);
			text<long>(t, base); text<unsigned long>(t, base); text<long long>(t, base); text<unsigned long long>(t, base);
			ctx.nontrivial(hash(std::to_string(base) + t));
		});
	}
	// Floating point texts.
	{
		std::vector<std::string> al { "0", "1", "9", ".", "e", "-", "+", " ", "z" };
		for (size_t len = 0; len <= (th ? 6u : 5u); ++len) strings(al, len, [&] (const std::string & t) {
			static uint64_t n = 0; static bool mine = false;
			if (n++ % 256 == 0) mine = ctx.begin([&] { return "texts as floating point from " + q(t); });
			if (!mine) return;
			textFloat<float>(t); textFloat<double>(t); textFloat<long double>(t);
			ctx.nontrivial(hash("f" + t));
		});
	}
	return ctx.finish();
}
