// P16: command lines in both styles against a reference parser; the numeric accessors against exact ranges.
#include <boost/core/demangle.hpp>
#include <Balau/Application/CommandLine.hpp>
#include "vk.hpp"
#include <limits>
#include <cfloat>
using namespace vk;
using S = std::string;
using namespace Balau;
Ctx * C;

enum class Final { No, Yes, Maybe };
enum K { KA, KB, KC, KH };
struct Opt { S sh, lg; bool value; };
const Opt opts[4] = { { "a", "alpha", true }, { "b", "", false }, { "c", "cc", true }, { "h", "help", false } };
template <class T> T key(int k); template <> K key<K>(int k) { return (K) k; } template <> S key<S>(int k) { return S("key") + (char) ('0' + k); }
template <class T> CommandLine<T> make(CommandLineStyle st, Final f) {
	CommandLine<T> c(st);
	c.withOption(key<T>(0), "a", "alpha", true, "first").withOption(key<T>(1), "b", false, "second").withOption(key<T>(2), "c", "cc", true, "third").withHelpOption(key<T>(3), "h", "help", "fourth");
	if (f == Final::Yes) c.withFinalValue(); if (f == Final::Maybe) c.withOptionalFinalValue();
	return c;
}
S trim(const S & s) { size_t a = s.find_first_not_of(' '); return a == S::npos ? "" : s.substr(a, s.find_last_not_of(' ') - a + 1); }
int find(const S & n) { for (int k = 0; k < 4; ++k) if (n == opts[k].sh || (!opts[k].lg.empty() && n == opts[k].lg)) return k; return -1; }

// A result: an error, or the values of the options and the final values.
struct Result {
	S error; std::map<int, S> values; std::vector<S> finals;
	bool operator == (const Result & o) const { return error == o.error && (!error.empty() || (values == o.values && finals == o.finals)); }
	S str() const { if (!error.empty()) return error; S s; for (auto & [k, v] : values) s += (char) ('A' + k) + S("=") + q(v) + " "; for (auto & f : finals) s += "final " + q(f) + " "; return s; }
};
using Results = std::vector<Result>;
Result err(const S & e) { Result r; r.error = e; return r; }
const S NF = "OptionNotFoundException", MV = "MissingOptionValueException", MF = "MissingFinalValueException", IA = "IllegalArgumentException";

Results ssv(const std::vector<S> & a, Final f) {
	Result r;
	for (size_t i = 0; i < a.size(); ++i) {
		S s = trim(a[i]);
		if (s.empty() || s[0] != '-') { if (f == Final::No) return { err(IA), err(NF) }; r.finals.push_back(s); continue; }
		int k = find(s.substr(s.compare(0, 2, "--") == 0 ? 2 : 1));
		if (k < 0) return { err(NF) };
		if (!opts[k].value) { r.values[k] = ""; continue; }
		if (i + 1 == a.size()) { if (f == Final::Yes && r.finals.empty()) return { err(MV), err(MF) }; return { err(MV) }; }
		r.values[k] = trim(a[++i]);
	}
	if (f == Final::Yes && r.finals.empty()) return { err(MF) };
	return { r };
}
Results sev(const std::vector<S> & a, Final f) {
	Result r;
	for (size_t i = 0; i < a.size(); ++i) {
		bool last = i + 1 == a.size(); size_t e = a[i].find('='); int k = find(trim(a[i].substr(0, e)));
		Result fin = r; fin.finals = { trim(a[i]) };
		if (last && f != Final::No && k < 0) { Results x { fin }; if (e != S::npos) x.push_back(err(NF)); return x; }
		if (last && f == Final::Yes) { Results x { fin, err(MF) }; if (e == S::npos) { if (opts[k].value) x.push_back(err(MV)); } else if (!opts[k].value) x.push_back(err(NF)); return x; }
		if (k < 0) return { err(NF) };
		if (!opts[k].value && e != S::npos) { Results x { err(NF), err(IA) }; if (last && f == Final::Maybe) x.push_back(fin); return x; }
		if (opts[k].value && e == S::npos) { Results x { err(MV) }; if (last && f == Final::Maybe) x.push_back(fin); return x; }
		r.values[k] = opts[k].value ? trim(a[i].substr(e + 1)) : "";
	}
	if (f == Final::Yes) return { err(MF) };
	return { r };
}
Results expected(const std::vector<S> & a, CommandLineStyle st, Final f) {
	if (a.empty()) { if (f == Final::Yes) return { err(MF) }; return { Result() }; }
	if (st == CommandLineStyle::SwitchSpaceValue) return ssv(a, f);
	if (st == CommandLineStyle::SwitchEqualsValue) return sev(a, f);
	if (trim(a[0]).compare(0, 1, "-") == 0) return ssv(a, f);
	Results r = sev(a, f);
	if (f != Final::No && a.size() == 1) for (auto & x : ssv(a, f)) r.push_back(x); // a lone final value has no style
	return r;
}
template <class T> Result observe(CommandLine<T> & c) {
	Result r;
	for (int k = 0; k < 4; ++k) if (c.hasOption(key<T>(k))) r.values[k] = c.getOption(key<T>(k));
	for (size_t i = 0; i < c.getFinalValueCount(); ++i) r.finals.push_back(c.getFinalValue(i));
	return r;
}
template <class T, class F> Result run(CommandLine<T> & c, F f) {
	try { f(); return observe(c); }
	catch (const Exception::OptionNotFoundException &) { return err(NF); } catch (const Exception::MissingOptionValueException &) { return err(MV); }
	catch (const Exception::MissingFinalValueException &) { return err(MF); } catch (const Exception::IllegalArgumentException &) { return err(IA); }
	catch (const std::exception & e) { return err(S("?") + boost::core::demangle(typeid(e).name()) + " " + e.what()); }
}
bool in(const Results & rs, const Result & r) { return std::find(rs.begin(), rs.end(), r) != rs.end(); }
S str(const Results & rs) { S s; for (auto & r : rs) s += (s.empty() ? "" : " or ") + r.str(); return s; }
const char * sn(CommandLineStyle s) { return s == CommandLineStyle::Detect ? "detect " : s == CommandLineStyle::SwitchSpaceValue ? "space " : "equals "; }
const char * fn(Final f) { return f == Final::No ? "no final " : f == Final::Yes ? "final " : "optional final "; }

template <class T> void one(const std::vector<S> & a, CommandLineStyle st, Final f, const std::vector<S> & before, const S & what) {
	Results want = expected(a, st, f);
	auto c = make<T>(st, f);
	if (!before.empty()) { try { c.parse(before, false); } catch (const Exception::BalauException &) {} }
	Result got = run(c, [&] { c.parse(a, false); });
	C->check(in(want, got), before.empty() ? "parse" : "parse.again", [&] { return what + ": " + got.str() + ", expected " + str(want); });
	if (!got.error.empty() || !before.empty()) return;
	for (int k = 0; k < 4; ++k) {
		bool has = got.values.count(k); S v = has ? got.values[k] : "dflt";
		C->check(c.getOptionOrDefault(key<T>(k), "dflt") == v, "default", [&] { return what + ": default of option " + std::to_string(k); });
		if (!has) { bool t = false; try { c.getOption(key<T>(k)); } catch (const Exception::OptionNotFoundException &) { t = true; } C->check(t, "absent", [&] { return what + ": an absent option is returned"; }); }
	}
	size_t n = got.finals.size(); bool t = false; try { c.getFinalValue(n); } catch (const Exception::OptionNotFoundException &) { t = true; }
	C->check(t && c.getFinalValueOrDefault("dflt", n) == "dflt" && (n == 0 || c.getFinalValueOrDefault("dflt") == got.finals[0]), "final.default", [&] { return what + ": final values"; });
	// The other ways to pass the arguments, and copies.
	std::vector<const char *> cv { "program" }; std::vector<char *> mv; std::vector<S> own = a; for (auto & x : a) cv.push_back(x.c_str()); for (auto & x : own) mv.push_back(x.data());
	std::vector<S> with { "-a" }; with.insert(with.end(), a.begin(), a.end());
	auto d = make<T>(st, f), e = make<T>(st, f), g = make<T>(st, f);
	Result r1 = run(d, [&] { d.parse((int) cv.size(), cv.data(), true); }), r2 = run(e, [&] { e.parse((int) mv.size(), mv.data(), false); }), r3 = run(g, [&] { g.parse(with, true); });
	auto h = c; auto i = std::move(d); Result r4 = observe(h), r5 = observe(i);
	C->check(r1 == got && r2 == got && r3 == got && r4 == got && r5 == got, "forms", [&] { return what + ": " + got.str() + "; const char: " + r1.str() + "; char: " + r2.str() + "; first ignored: " + r3.str() + "; copied: " + r4.str() + "; moved: " + r5.str(); });
}

// Numbers: [+-]digits, exactly.
bool integer(const S & s, __int128 & v) { size_t i = !s.empty() && (s[0] == '-' || s[0] == '+'); if (i == s.size() || s.size() > 30) return false; v = 0; for (size_t k = i; k < s.size(); ++k) { if (s[k] < '0' || s[k] > '9') return false; v = v * 10 + (s[k] - '0'); } if (s[0] == '-') v = -v; return true; }
bool decimal(const S & s) { size_t i = 0, n = s.size(), d = 0; if (i < n && (s[i] == '-' || s[i] == '+')) ++i; while (i < n && isdigit(s[i])) ++i, ++d; if (i < n && s[i] == '.') { ++i; while (i < n && isdigit(s[i])) ++i, ++d; } if (!d) return false; if (i < n && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < n && (s[i] == '-' || s[i] == '+')) ++i; size_t x = 0; while (i < n && isdigit(s[i])) ++i, ++x; if (!x) return false; } return i == n; }
enum class O { Ok, Value, Absent, Other };
template <class V, class F> O get(V & v, F f) { try { v = f(); return O::Ok; } catch (const Exception::OptionValueException &) { return O::Value; } catch (const Exception::OptionNotFoundException &) { return O::Absent; } catch (...) { return O::Other; } }
template <class V, class F, class G> void ints(const S & t, const char * type, F get1, G get2) {
	__int128 w; bool ok = integer(t, w) && w >= std::numeric_limits<V>::min() && w <= std::numeric_limits<V>::max();
	bool minusZero = std::is_unsigned<V>::value && ok && t[0] == '-';
	V a = 0, b = 0; O ra = get(a, get1), rb = get(b, [&] { return get2((V) 77); });
	auto what = [&] { return q(t) + " as " + type + ": " + (ra == O::Ok ? std::to_string(a) : ra == O::Value ? S("OptionValueException") : S("another exception")) + ", with a default: " + (rb == O::Ok ? std::to_string(b) : S("exception")); };
	C->check((minusZero && ra == O::Value && rb == O::Value) || (ok ? ra == O::Ok && rb == O::Ok && a == (V) w && b == (V) w : ra == O::Value && rb == O::Value), S("number.") + type, what);
}
template <class V, class F, class G> void floats(const S & t, const char * type, F get1, G get2) {
	char * end; errno = 0; V w = sizeof(V) == 4 ? (V) strtof(t.c_str(), &end) : (V) strtod(t.c_str(), &end); bool range = errno == ERANGE; bool all = *end == 0 && !t.empty() && t.find(' ') == S::npos;
	V a = 0, b = 0; O ra = get(a, get1), rb = get(b, [&] { return get2((V) 77); });
	bool same = ra == rb && (ra != O::Ok || a == b || (a != a && b != b));
	bool value = ra == O::Ok && (a == w || (a != a && w != w));
	bool fine = decimal(t) && !range ? value : all ? value || ra == O::Value : ra == O::Value;
	C->check(same && fine, S("number.") + type, [&] { return q(t) + " as " + type + ": " + (ra == O::Ok ? std::to_string(a) : S("exception")) + ", with a default: " + (rb == O::Ok ? std::to_string(b) : S("exception")); });
}
void number(const S & t) {
	if (!C->begin([&] { return "number " + q(t); })) return;
	C->nontrivial(hash("n" + t));
	for (int style = 0; style < 2; ++style) {
		auto c = make<K>(style ? CommandLineStyle::SwitchEqualsValue : CommandLineStyle::SwitchSpaceValue, Final::Yes);
		try { if (style) c.parse(std::vector<S> { "alpha=" + t, t.empty() ? "-" : t }, false); else c.parse(std::vector<S> { "--alpha", t, "1", "2" }, false); } catch (const Exception::BalauException & e) { if (style) continue; C->violation("number.parse", q(t) + ": " + e.what()); continue; }
		S u = trim(t);
		#define INT(V, N) ints<V>(u, #N, [&] { return c.getOptionAs##N(KA); }, [&] (V d) { return c.getOptionAs##N##OrDefault(KA, d); }); { V v = 0; bool ok = get(v, [&] { return c.getOptionAs##N##OrDefault(KB, 5); }) == O::Ok && v == 5 && get(v, [&] { return c.getOptionAs##N(KB); }) == O::Absent; C->check(ok, "number.absent", [&] { return S(#N); }); }
		INT(short, Short) INT(unsigned short, UnsignedShort) INT(int, Int) INT(unsigned int, UnsignedInt) INT(long long, Long) INT(unsigned long long, UnsignedLong)
		floats<float>(u, "Float", [&] { return c.getOptionAsFloat(KA); }, [&] (float d) { return c.getOptionAsFloatOrDefault(KA, d); });
		floats<double>(u, "Double", [&] { return c.getOptionAsDouble(KA); }, [&] (double d) { return c.getOptionAsDoubleOrDefault(KA, d); });
		float f; double d;
		C->check(get(f, [&] { return c.getOptionAsFloatOrDefault(KB, 5); }) == O::Ok && f == 5 && get(d, [&] { return c.getOptionAsDoubleOrDefault(KB, 5); }) == O::Ok && d == 5 && get(f, [&] { return c.getOptionAsFloat(KB); }) == O::Absent && get(d, [&] { return c.getOptionAsDouble(KB); }) == O::Absent, "number.absent", [&] { return S("floating point"); });
		if (style && !t.empty() && t.find('=') == S::npos) {
			floats<float>(u, "FinalFloat", [&] { return c.getFinalValueAsFloat(); }, [&] (float d) { return c.getFinalValueAsFloatOrDefault(d); });
			floats<double>(u, "FinalDouble", [&] { return c.getFinalValueAsDouble(); }, [&] (double d) { return c.getFinalValueAsDoubleOrDefault(d); });
		}
		if (!style) C->check(get(f, [&] { return c.getFinalValueAsFloat(1); }) == O::Ok && f == 2 && get(d, [&] { return c.getFinalValueAsDouble(2); }) == O::Absent && get(d, [&] { return c.getFinalValueAsDoubleOrDefault(7, 2); }) == O::Ok && d == 7, "number.final", [&] { return S("final values by index"); });
	}
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	const bool deep = ctx.thorough();
	const std::vector<S> spaced { "-a", "--alpha", "-b", "--cc", "-h", "v", " w ", "-5", "-x", "--", "", "a", "c=d" };
	const std::vector<S> equals { "a=v", "alpha= w ", "c=-b", "a", "b", "b=v", "help", "x", "x=y", "a=", "=", "a=1=2", " c = v ", "" , "-" };
	const std::vector<std::vector<S>> befores { { "-a", "1", "-b", "x", "y" }, { "a=1", "b", "z" }, { "-x" } };
	using ST = CommandLineStyle;
	for (auto * voc : { &spaced, &equals }) for (size_t length = 0; length <= (deep ? 5u : 4u); ++length) sequences(voc->size(), length, [&] (const std::vector<int> & s) {
		std::vector<S> a; for (int x : s) a.push_back((*voc)[x]);
		for (ST st : { ST::Detect, ST::SwitchSpaceValue, ST::SwitchEqualsValue }) {
			if (voc == &spaced && st == ST::SwitchEqualsValue && s.size() > 3) continue;
			if (voc == &equals && st == ST::SwitchSpaceValue && s.size() > 3) continue;
			for (Final f : { Final::No, Final::Yes, Final::Maybe }) {
				auto text = [&] { S r = S(sn(st)) + fn(f); for (auto & x : a) r += q(x) + " "; return r; };
				if (!ctx.begin(text)) continue;
				S what = text(); ctx.nontrivial(hash(what));
				one<K>(a, st, f, {}, what);
				if (s.size() < 4) { one<S>(a, st, f, {}, what); for (auto & b : befores) one<K>(a, st, f, b, what + "after another command line"); }
			}
		}
	});
	stringsUpTo({ "0", "1", "9", "-", "+", " ", "x", ".", "e" }, deep ? 6 : 5, number);
	for (S t : { "nan", "inf", "0x1p3", "0X1F", "1e400", "1e-400", "1e39", "1e-46", "-1e39", "12abc", "٣", "1,5", "1_0", "00000000000000000000001", "99999999999999999999999" }) number(t);
	for (int b : { 7, 8, 15, 16, 31, 32, 63, 64, 65 }) for (int d = -3; d <= 3; ++d) { __int128 v = ((__int128) 1 << b) + d; S t; for (__int128 x = v; x; x /= 10) t.insert(t.begin(), (char) ('0' + (int) (x % 10))); number(t); number("-" + t); number("+" + t); number(t + "x"); number(t + " "); number("0" + t); }
	// Help text: every switch and every line of the documentation, in order.
	for (size_t width = 0; width <= 60; width += deep ? 1 : 4) for (size_t indent = 0; indent < 6; ++indent) for (size_t len : { 1, 19, 20, 21, 40, 41, 60, 61, 100, 200 }) for (ST st : { ST::Detect, ST::SwitchSpaceValue, ST::SwitchEqualsValue }) {
		if (!ctx.begin([&] { return "help " + std::to_string(width) + " " + std::to_string(indent) + " " + std::to_string(len); })) continue;
		ctx.nontrivial(hash(std::to_string(width) + "/" + std::to_string(indent) + "/" + std::to_string(len) + sn(st)));
		S doc; for (size_t i = 0; i < len; ++i) doc += (char) ('!' + (i * 7 + i / 80) % 90);
		CommandLine<int> c; c.withOption(1, "a", "alpha", true, doc).withOption(2, "b", false, "short").withHelpOption(3, "h", "help", doc);
		S text = c.getHelpText(indent, width, st), p = st == ST::SwitchEqualsValue ? "" : "-", flat, want;
		for (char x : text) if (x != '\n' && x != ' ') flat += x;
		want = p + "a," + p + p + "alpha-" + doc + p + "b-short" + p + "h," + p + p + "help-" + doc;
		ctx.check(flat == want && (text.empty() || text.back() == '\n'), "help", [&] { return "width " + std::to_string(width) + ": " + q(text); });
	}
	return ctx.finish();
}
