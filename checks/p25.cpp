// P25: an assertion passes exactly when its condition is true.
#include "../lib/vk.hpp"

#include <Balau/Testing/TestRunner.hpp>

#include <cmath>
#include <limits>

using namespace Balau;
using namespace Balau::Testing;
using Balau::Exception::AssertionException;

namespace Case {

template <typename ... T> uint64_t H(const T & ... t) { std::ostringstream s; ((s << t << "\x1f"), ...); return vk::hash(s.str()); }

struct Outcome { bool passed = false; bool other = false; std::string report; };

template <typename F> Outcome attempt(F f) {
	Outcome o;
	try { f(); o.passed = true; }
	catch (const AssertionException & e) { o.report = e.what(); }
	catch (...) { o.other = true; }
	return o;
}

std::string visible(const std::string & s) {
	std::string r;
	for (char c : s) { if (c == '\t') r += "··⇢·"; else if (c == ' ') r += "·"; else r += c; }
	return r;
}

// The report shows the text: every line of it, as it is or with its blanks made visible, in order.
bool shows(const std::string & report, const std::string & text) {
	size_t pos = 0, from = 0;
	while (from <= text.size()) {
		size_t end = text.find('\n', from);
		std::string line = text.substr(from, end == std::string::npos ? std::string::npos : end - from);
		if (!line.empty() && line.back() == '\r') line.pop_back();
		size_t a = report.find(line, pos), b = report.find(visible(line), pos), at = std::min(a, b);
		if (at == std::string::npos) return false;
		pos = at + 1;
		if (line.empty()) pos = at;
		if (end == std::string::npos) break;
		from = end + 1;
	}
	return true;
}

template <typename T> std::string str(const T & t) { using ::toString; return toString(t); }
inline std::string show(const std::string & s) { return vk::q(s); }
template <typename T> std::string show(const T & t) { return str(t); }

unsigned calls[2];
template <typename T> const T & once(unsigned i, const T & t) { ++calls[i]; return t; }

// Runs one assertion in all its forms and judges each of them.
template <typename A, typename M, typename D>
void judge(vk::Ctx & ctx, const char * what, const A & actual, M matcher, bool want, const std::vector<std::string> & texts, D describe) {
	for (int form = 0; form < 8; ++form) {
		calls[0] = calls[1] = 0;
		std::string message = form & 1 ? "the  message" : "";
		auto o = attempt([&] {
			switch (form) {
				case 0: AssertThat(once(0, actual), matcher()); break;
				case 1: AssertThat(message, once(0, actual), matcher()); break;
				case 2: assertThat(once(0, actual), matcher()); break;
				case 3: assertThat(message, once(0, actual), matcher()); break;
				case 4: AssertThatNP(once(0, actual), matcher()); break;
				case 5: AssertThatNP(message, once(0, actual), matcher()); break;
				case 6: assertThatNP(once(0, actual), matcher()); break;
				case 7: assertThatNP(message, once(0, actual), matcher()); break;
			}
		});
		auto key = [&] (const char * k) { return std::string(what) + ":" + k; };
		auto where = [&] { return describe() + ", form " + std::to_string(form) + (o.passed ? ": passed" : ": failed with " + vk::q(o.report)); };
		ctx.check(!o.other, key("exception"), where);
		ctx.check(o.passed == want, key(want ? "fails" : "passes"), where);
		ctx.check(calls[0] == 1, key("evaluated"), where);
		if (o.passed || o.other) continue;
		ctx.check(o.report.find(message) != std::string::npos, key("message"), where);
		bool located = form == 0 || form == 1 || form == 4 || form == 5;
		if (located) ctx.check(o.report.find("p25.cpp:") != std::string::npos, key("location"), where);
		if (form < 4) for (auto & t : texts) ctx.check(shows(o.report, t), key("report"), [&] { return where() + " does not show " + vk::q(t); });
	}
	ctx.state(H(what, want));
}

template <typename A, typename E> void relations(vk::Ctx & ctx, const char * type, const A & a, const E & e) {
	auto d = [&] { return std::string(type) + " " + show(a) + " and " + show(e); };
	std::vector<std::string> t { str(a), str(e) };
	bool eq = a == e, lt = a < e, gt = e < a;
	judge(ctx, "is", a, [&] { return is(e); }, eq, t, d);
	judge(ctx, "isNot", a, [&] { return isNot(e); }, !eq, t, d);
	judge(ctx, "isLessThan", a, [&] { return isLessThan(e); }, lt, t, d);
	judge(ctx, "isGreaterThan", a, [&] { return isGreaterThan(e); }, gt, t, d);
	judge(ctx, "isLessThanOrEqualTo", a, [&] { return isLessThanOrEqualTo(e); }, lt || eq, t, d);
	judge(ctx, "isGreaterThanOrEqualTo", a, [&] { return isGreaterThanOrEqualTo(e); }, gt || eq, t, d);
}

template <typename A, typename E> void numbers(vk::Ctx & ctx, const char * type, const std::vector<A> & as, const std::vector<E> & es) {
	for (A a : as) for (E e : es) {
		if (!ctx.begin([&] { return std::string("relations of ") + type + " " + show(a) + " and " + show(e); })) continue;
		relations(ctx, type, a, e);
		ctx.nontrivial(H(type, str(a), str(e)));
	}
}

template <typename T> void almostIntegers(vk::Ctx & ctx, const char * type, const std::vector<T> & values, const std::vector<T> & deltas) {
	for (auto a : values) for (auto e : values) {
		if (!ctx.begin([&] { return std::string("almost equal ") + type + " " + show(a) + " and " + show(e); })) continue;
		for (auto d : deltas) {
			__int128 distance = (__int128) a - (__int128) e;
			if (distance < 0) distance = -distance;
			judge(ctx, "isAlmostEqual", a, [&] { return isAlmostEqual(e, d); }, distance <= (__int128) d, { str(a), str(e) },
				[&] { return std::string(type) + " " + show(a) + " almost equal to " + show(e) + " within " + show(d); });
		}
		ctx.nontrivial(H("almost", type, str(a), str(e)));
	}
}

template <typename S> bool has(const S & a, const S & e) { return a.find(e) != S::npos; }
template <typename S> bool starts(const S & a, const S & e) { return a.size() >= e.size() && std::equal(e.begin(), e.end(), a.begin()); }
template <typename S> bool ends(const S & a, const S & e) { return a.size() >= e.size() && std::equal(e.rbegin(), e.rend(), a.rbegin()); }

template <typename S> std::vector<S> texts(const S & alphabet, size_t n) {
	std::vector<S> r { S() };
	for (size_t from = 0, len = 0; len < n; ++len) {
		size_t to = r.size();
		for (; from < to; ++from) for (auto c : alphabet) r.push_back(r[from] + c);
	}
	return r;
}

template <typename S> void textRelations(vk::Ctx & ctx, const char * type, const std::vector<S> & as, const std::vector<S> & es) {
	for (auto & a0 : as) {
		if (!ctx.begin([&] { return std::string("relations of ") + type + " " + show(a0); })) continue;
		for (auto & e0 : es) {
			ctx.beat();
			S a(a0), e(e0); a.shrink_to_fit(); e.shrink_to_fit();
			relations(ctx, type, a, e);
			auto d = [&] { return std::string(type) + " " + show(a) + " and " + show(e); };
			std::vector<std::string> t { str(a), str(e) };
			judge(ctx, "startsWith", a, [&] { return startsWith(e); }, starts(a, e), t, d);
			judge(ctx, "endsWith", a, [&] { return endsWith(e); }, ends(a, e), t, d);
			judge(ctx, "contains", a, [&] { return Testing::contains(e); }, has(a, e), t, d);
			judge(ctx, "doesNotContain", a, [&] { return doesNotContain(e); }, !has(a, e), t, d);
		}
		ctx.nontrivial(H(type, str(a0)));
	}
}

template <typename T> std::vector<std::vector<T>> vectors(const std::vector<T> & base, size_t n) {
	std::vector<std::vector<T>> r { {} };
	for (size_t from = 0, len = 0; len < n; ++len) {
		size_t to = r.size();
		for (; from < to; ++from) for (auto & c : base) { auto v = r[from]; v.push_back(c); r.push_back(v); }
	}
	return r;
}

template <typename T> void containers(vk::Ctx & ctx, const char * type, const std::vector<T> & base, size_t n) {
	auto all = vectors(base, n);
	for (auto & a : all) {
		if (!ctx.begin([&] { return std::string("containers of ") + type + " " + show(a); })) continue;
		for (auto & e : all) {
			auto d = [&] { return std::string("containers of ") + type + " " + show(a) + " and " + show(e); };
			std::vector<std::string> t;
			for (auto & x : a) t.push_back(str(x));
			for (auto & x : e) t.push_back(str(x));
			judge(ctx, "is (vector)", a, [&] { return is(e); }, a == e, t, d);
			judge(ctx, "isNot (vector)", a, [&] { return isNot(e); }, !(a == e), t, d);
			judge(ctx, "startsWith (vector)", a, [&] { return startsWith(e); }, starts(a, e), t, d);
			std::list<T> la(a.begin(), a.end()), le(e.begin(), e.end());
			judge(ctx, "is (list)", la, [&] { return is(le); }, la == le, t, d);
			judge(ctx, "isNot (list)", la, [&] { return isNot(le); }, !(la == le), t, d);
			std::set<T> sa(a.begin(), a.end()), se(e.begin(), e.end());
			t.clear(); for (auto & x : sa) t.push_back(str(x)); for (auto & x : se) t.push_back(str(x));
			judge(ctx, "is (set)", sa, [&] { return is(se); }, sa == se, t, d);
			judge(ctx, "isNot (set)", sa, [&] { return isNot(se); }, !(sa == se), t, d);
		}
		ctx.nontrivial(H("containers", type, str(a)));
	}
}

// A class hierarchy for isA: Base <- Left, Right <- Bottom (virtual), Base <- Other.
struct Base { virtual ~Base() = default; };
struct Left : virtual Base {};
struct Right : virtual Base {};
struct Bottom : Left, Right {};
struct Other : Base {};
struct Stranger { virtual ~Stranger() = default; };

template <typename T, typename D> void kind(vk::Ctx & ctx, const Base & object, const char * t, D) {
	bool want = dynamic_cast<const T *>(&object) != nullptr;
	// Independent of the cast: the table of who is a what.
	std::string dyn = D::name();
	std::string table = dyn == "Bottom" ? "Base Left Right Bottom" : dyn == "Base" ? "Base" : "Base " + dyn;
	bool listed = (" " + table + " ").find(std::string(" ") + t + " ") != std::string::npos;
	ctx.check(want == listed, "isA:table", [&] { return dyn + " " + t; });
	judge(ctx, "isA", object, [&] { return isA<T>(); }, listed, { D::name(), t }, [&] { return dyn + " is a " + t; });
}

#define NAMED(T) struct N##T { static const char * name() { return #T; } }
NAMED(Base); NAMED(Left); NAMED(Right); NAMED(Bottom); NAMED(Other);

template <typename D> void kinds(vk::Ctx & ctx, const Base & o, D d) {
	if (!ctx.begin([&] { return std::string("isA of ") + D::name(); })) return;
	kind<Base>(ctx, o, "Base", d); kind<Left>(ctx, o, "Left", d); kind<Right>(ctx, o, "Right", d);
	kind<Bottom>(ctx, o, "Bottom", d); kind<Other>(ctx, o, "Other", d); kind<Stranger>(ctx, o, "Stranger", d);
	ctx.nontrivial(H("isA", D::name()));
}

} // namespace Case

// Exceptions of their own, with equality and a text.
struct EA : public std::runtime_error { int v; explicit EA(int v_) : std::runtime_error("EA" + std::to_string(v_)), v(v_) {} };
struct EB : public EA { explicit EB(int v_) : EA(v_) {} };
struct EC : public std::logic_error { int v; explicit EC(int v_) : std::logic_error("EC" + std::to_string(v_)), v(v_) {} };
struct EX { int v; };
inline bool operator == (const EA & l, const EA & r) { return l.v == r.v; }
inline bool operator == (const EC & l, const EC & r) { return l.v == r.v; }
inline bool operator == (const EX & l, const EX & r) { return l.v == r.v; }
inline std::string toString(const EA & e) { return "<EA " + std::to_string(e.v) + ">"; }
inline std::string toString(const EB & e) { return "<EB " + std::to_string(e.v) + ">"; }
inline std::string toString(const EC & e) { return "<EC " + std::to_string(e.v) + ">"; }
inline std::string toString(const EX & e) { return "<EX " + std::to_string(e.v) + ">"; }

namespace Case {

// What the function does: 0 nothing; 1-2 EA(1..2); 3-4 EB; 5-6 EC; 7-8 EX; 9 int; 10 failed assertion; 11 Balau exception.
const char * const behaviours[] = { "returns", "EA 1", "EA 2", "EB 1", "EB 2", "EC 1", "EC 2", "EX 1", "EX 2", "an int", "a failed assertion", "a Balau exception" };
unsigned called;
void behave(int b) {
	++called;
	switch (b) {
		case 1: case 2: throw EA(b);
		case 3: case 4: throw EB(b - 2);
		case 5: case 6: throw EC(b - 4);
		case 7: case 8: throw EX { b - 6 };
		case 9: throw 5;
		case 10: AssertThat(1, is(2)); break;
		case 11: ThrowBalauException(Exception::IllegalArgumentException, "bad argument");
	}
}
bool isStd(int b) { return b != 0 && b != 7 && b != 8 && b != 9; }

template <typename M, typename D>
void judgeThrow(vk::Ctx & ctx, const char * what, int b, M matcher, bool want, D describe) {
	for (int form = 0; form < 4; ++form) {
		called = 0;
		std::string message = form & 1 ? "the message" : "";
		auto f = [b] { behave(b); };
		auto o = attempt([&] {
			switch (form) {
				case 0: AssertThat(f, matcher()); break;
				case 1: AssertThat(message, f, matcher()); break;
				case 2: assertThat(f, matcher()); break;
				case 3: assertThat(message, f, matcher()); break;
			}
		});
		auto key = [&] (const char * k) { return std::string(what) + ":" + k; };
		auto where = [&] { return describe() + ", the function: " + behaviours[b] + ", form " + std::to_string(form) + (o.passed ? ": passed" : o.other ? ": other exception" : ": failed with " + vk::q(o.report)); };
		ctx.check(o.passed == want, key(want ? "fails" : "passes"), where);
		ctx.check(called == 1, key("called"), where);
		// An exception that is no standard one may go through to the test runner, but is never swallowed.
		ctx.check(!o.other || !isStd(b), key("exception"), where);
		if (o.passed || o.other) continue;
		ctx.check(o.report.find(message) != std::string::npos, key("message"), where);
		if (form < 2) ctx.check(o.report.find("p25.cpp:") != std::string::npos, key("location"), where);
	}
	ctx.state(H(what, b, want));
}

template <typename E> bool isOf(int b);
template <> bool isOf<EA>(int b) { return b >= 1 && b <= 4; }
template <> bool isOf<EB>(int b) { return b == 3 || b == 4; }
template <> bool isOf<EC>(int b) { return b == 5 || b == 6; }
template <> bool isOf<EX>(int b) { return b == 7 || b == 8; }
template <> bool isOf<int>(int b) { return b == 9; }
template <> bool isOf<std::exception>(int b) { return isStd(b); }
template <> bool isOf<std::runtime_error>(int b) { return (b >= 1 && b <= 4); }
template <> bool isOf<AssertionException>(int b) { return b == 10; }
template <> bool isOf<Exception::BalauException>(int b) { return b >= 10; }
int valueOf(int b) { return b == 0 || b > 8 ? 0 : 1 + (b - 1) % 2; }

template <typename E> void types(vk::Ctx & ctx, const char * name) {
	for (int b = 0; b < 12; ++b) {
		if (!ctx.begin([&] { return std::string("throws a ") + name + ", the function: " + behaviours[b]; })) continue;
		judgeThrow(ctx, "throws<E>()", b, [&] { return throws<E>(); }, isOf<E>(b), [&] { return std::string("throws ") + name; });
		ctx.nontrivial(H("throws", name, b));
	}
}

template <typename E, typename Make> void values(vk::Ctx & ctx, const char * name, Make make) {
	for (int b = 0; b < 12; ++b) {
		if (!ctx.begin([&] { return std::string("throws this ") + name + ", the function: " + behaviours[b]; })) continue;
		for (int v = 1; v <= 3; ++v) {
			E e = make(v);
			auto d = [&] { return std::string("throws ") + name + " with value " + std::to_string(v); };
			bool same = isOf<E>(b) && valueOf(b) == v;
			judgeThrow(ctx, "throws(e)", b, [&] { return throws(e); }, same, d);
			judgeThrow(ctx, "throws(e, comparison)", b, [&] { return throws(e, [] (const E & x, const E & y) { return x.v == y.v; }); }, same, d);
			judgeThrow(ctx, "throws(e, other comparison)", b, [&] { return throws(e, [] (const E & x, const E & y) { return x.v < y.v; }); }, isOf<E>(b) && valueOf(b) < v, d);
			judgeThrow(ctx, "throws(predicate)", b, [&] { return throws<E>([v] (const E & x) { return x.v >= v; }); }, isOf<E>(b) && valueOf(b) >= v, d);
		}
		ctx.nontrivial(H("throws value", name, b));
	}
}


} // namespace Case

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	using namespace Case;
	bool deep = ctx.thorough();

	// Numbers.
	using L = std::numeric_limits<int>;
	numbers<int, int>(ctx, "int", { L::min(), -2, -1, 0, 1, 2, L::max() }, { L::min(), -2, -1, 0, 1, 2, L::max() });
	numbers<unsigned, unsigned>(ctx, "unsigned", { 0, 1, 2, 0x80000000u, 0xffffffffu }, { 0, 1, 2, 0x80000000u, 0xffffffffu });
	numbers<int, long long>(ctx, "int and long long", { L::min(), -1, 0, 1, L::max() }, { (long long) L::min() - 1, L::min(), -1, 0, 1, L::max(), (long long) L::max() + 1 });
	numbers<bool, bool>(ctx, "bool", { false, true }, { false, true });
	numbers<char, char>(ctx, "char", { 'a', 'b', ' ', '~' }, { 'a', 'b', ' ', '~' });
	auto inf = std::numeric_limits<double>::infinity(), nan = std::nan("");
	std::vector<double> ds { -inf, -1.5, -0.0, 0.0, 1e-9, 1.0, 1.5, 3e300, inf, nan };
	for (auto a : ds) for (auto e : ds) {
		if (!ctx.begin([&] { return "relations of double " + show(a) + " and " + show(e); })) continue;
		auto d = [&] { return "double " + show(a) + " and " + show(e); };
		std::vector<std::string> t { str(a), str(e) };
		judge(ctx, "is", a, [&] { return is(e); }, a == e, t, d);
		judge(ctx, "isNot", a, [&] { return isNot(e); }, a != e, t, d);
		judge(ctx, "isLessThan", a, [&] { return isLessThan(e); }, a < e, t, d);
		judge(ctx, "isGreaterThan", a, [&] { return isGreaterThan(e); }, a > e, t, d);
		judge(ctx, "isLessThanOrEqualTo", a, [&] { return isLessThanOrEqualTo(e); }, a <= e, t, d);
		judge(ctx, "isGreaterThanOrEqualTo", a, [&] { return isGreaterThanOrEqualTo(e); }, a >= e, t, d);
		for (double delta : { 0.0, 0.25, 1.0, 2.0, 1e300 }) {
			// Exact: these values and deltas have exact sums, except for the very large ones, where the distance decides clearly.
			bool want = a == e || std::fabs(a - e) <= delta;
			judge(ctx, "isAlmostEqual", a, [&] { return isAlmostEqual(e, delta); }, want, t, [&] { return d() + " within " + show(delta); });
		}
		ctx.nontrivial(H("double", str(a), str(e)));
	}
	std::vector<int> is_ { L::min(), L::min() + 1, -3, -1, 0, 1, 2, 3, L::max() - 1, L::max() };
	almostIntegers<int>(ctx, "int", is_, { -1, 0, 1, 2, 5, L::max() });
	almostIntegers<unsigned>(ctx, "unsigned", { 0, 1, 2, 3, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu }, { 0, 1, 2, 5, 0xffffffffu });
	using LL = std::numeric_limits<long long>;
	almostIntegers<long long>(ctx, "long long", { LL::min(), LL::min() + 1, -2, 0, 1, LL::max() - 1, LL::max() }, { 0, 1, 2, LL::max() });
	almostIntegers<unsigned long long>(ctx, "unsigned long long", { 0, 1, 2, ~0ull - 1, ~0ull }, { 0, 1, 2, ~0ull });
	almostIntegers<signed char>(ctx, "signed char", { -128, -127, -1, 0, 1, 126, 127 }, { -1, 0, 1, 127 });

	// Texts.
	auto t8 = texts<std::string>("ab \n", deep ? 4 : 3);
	textRelations(ctx, "std::string", t8, t8);
	auto more = texts<std::string>("a\t\r\n", deep ? 3 : 2);
	for (auto & x : std::vector<std::string> { "a\r\nb", "a\nb\n", "a\n\nb", "\n\n\n", "a\tb\n c", "0\n1\n2\n3\n4\n5\n6\n7\n8\n9\n10", "0\n1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n", "é ü\n日本" }) more.push_back(x);
	textRelations(ctx, "std::string", more, more);
	textRelations(ctx, "std::u16string", texts<std::u16string>(u"ab", 3), texts<std::u16string>(u"ab", 3));
	textRelations(ctx, "std::u32string", texts<std::u32string>(U"a\u00e9", 3), texts<std::u32string>(U"a\u00e9", 3));
	std::vector<std::string> longs;
	for (size_t n : { 2000u, 60000u, 300000u }) for (const char * tail : { "", "b", "\n", "\nb" }) {
		std::string t;
		for (size_t i = 0; t.size() < n; ++i) t += std::to_string(i) + '.';
		longs.push_back(t + tail);
	}
	textRelations(ctx, "long std::string", longs, longs);

	// Containers.
	containers<int>(ctx, "int", { 1, 2 }, deep ? 4 : 3);
	containers<std::string>(ctx, "std::string", { "a", "bb", "a text longer than a small one" }, deep ? 3 : 2);
	containers<double>(ctx, "double", { 0.0, -0.0, 1.5 }, 2);
	containers<unsigned char>(ctx, "unsigned char", { 'a', 'b' }, 3);

	// Pointers.
	static int object, second;
	for (int * p : { (int *) nullptr, &object, &second }) {
		if (!ctx.begin([&] { return std::string("pointer ") + (p ? "to an object" : "null"); })) continue;
		auto d = [&] { return std::string("pointer ") + (p ? "to an object" : "null"); };
		judge(ctx, "isNotNull", p, [&] { return isNotNull(); }, p != nullptr, {}, d);
		for (int * e : { (int *) nullptr, &object, &second }) {
			judge(ctx, "is (pointer)", p, [&] { return is(e); }, p == e, {}, d);
			judge(ctx, "isNot (pointer)", p, [&] { return isNot(e); }, p != e, {}, d);
		}
		ctx.nontrivial(H("pointer", p != nullptr, p == &object));
	}

	// Types.
	Base base; Left left; Right right; Bottom bottom; Other other;
	kinds(ctx, base, NBase()); kinds(ctx, left, NLeft()); kinds(ctx, right, NRight()); kinds(ctx, bottom, NBottom()); kinds(ctx, other, NOther());

	// Exceptions.
	types<EA>(ctx, "EA"); types<EB>(ctx, "EB"); types<EC>(ctx, "EC"); types<EX>(ctx, "EX"); types<int>(ctx, "int");
	types<std::exception>(ctx, "std::exception"); types<std::runtime_error>(ctx, "std::runtime_error");
	types<AssertionException>(ctx, "AssertionException"); types<Exception::BalauException>(ctx, "BalauException");
	values<EA>(ctx, "EA", [] (int v) { return EA(v); });
	values<EB>(ctx, "EB", [] (int v) { return EB(v); });
	values<EC>(ctx, "EC", [] (int v) { return EC(v); });
	values<EX>(ctx, "EX", [] (int v) { return EX { v }; });

	// Unconditional failures.
	if (ctx.begin([] { return std::string("assertFail"); })) {
		auto a = attempt([] { AssertFail("the message"); }), b = attempt([] { assertFail("the message"); }), c = attempt([] { assertFail(); });
		ctx.check(!a.passed && !a.other && a.report.find("the message") != std::string::npos && a.report.find("p25.cpp:") != std::string::npos, "AssertFail", [&] { return a.report; });
		ctx.check(!b.passed && !b.other && b.report.find("the message") != std::string::npos, "assertFail(message)", [&] { return b.report; });
		ctx.check(!c.passed && !c.other, "assertFail()", [&] { return c.report; });
		ctx.nontrivial(1);
	}
	return ctx.finish();
}
