// P29: URL decoding and parameter splitting, against a second decoder written from the rules.
#include <boost/core/demangle.hpp>
#include <Balau/Network/Utilities/UrlDecode.hpp>
#include "vk.hpp"
using namespace vk;
using S = std::string;
using Balau::Network::UrlDecode;
Ctx * C;

int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
bool utf8(const S & s) {
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i]; int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
		if (n < 0 || i + n >= s.size()) return false;
		for (int k = 1; k <= n; ++k) if (((unsigned char) s[i + k] & 0xc0) != 0x80) return false;
		unsigned char d = n ? s[i + 1] : 0;
		if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d > 0x9f) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d > 0x8f)) return false;
		i += n + 1;
	}
	return true;
}
struct D { S out, before, after; bool malformed = false, invalid = false; };
// What the text decodes to; for malformed escapes: what comes before the first run with one, and what is plain after the last escape.
D decode(const S & t, bool validate) {
	D d; size_t i = 0; size_t last = 0; bool any = false;
	while (i < t.size()) {
		if (t[i] != '%') { d.out += t[i] == '+' ? ' ' : t[i]; ++i; continue; }
		S run; S keep = d.out; bool bad = false;
		while (i < t.size() && t[i] == '%') {
			int a = i + 1 < t.size() ? hex(t[i + 1]) : -1, b = i + 2 < t.size() ? hex(t[i + 2]) : -1;
			if (a < 0 || b < 0) { bad = true; ++i; continue; }
			run += (char) (a * 16 + b); i += 3;
		}
		last = i;
		if (bad) { if (!any) d.before = keep; any = d.malformed = true; }
		if (validate && !utf8(run)) d.invalid = true; else d.out += run;
	}
	last = std::min(t.size(), last + 2);
	for (size_t k = last; k < t.size(); ++k) d.after += t[k] == '+' ? ' ' : t[k];
	return d;
}
enum class R { Ok, Net, Other };
template <class F> R run(F f) { try { f(); return R::Ok; } catch (const Balau::Exception::NetworkException &) { return R::Net; } catch (...) { return R::Other; } }
const char * name(R r) { return r == R::Ok ? "returns" : r == R::Net ? "throws NetworkException" : "throws something else"; }

void one(const S & t) {
	for (int validate = 0; validate < 2; ++validate) for (int thr = 0; thr < 2; ++thr) {
		Exact e(t); S got; R r = run([&] { got = UrlDecode::decode(e.view(), validate, thr); });
		D d = decode(t, validate);
		auto what = [&] { return q(t) + (validate ? " checked" : " unchecked") + (thr ? " throwing" : "") + ": " + name(r) + " " + q(got); };
		if (thr && (d.malformed || d.invalid)) { C->check(r == R::Net, "decode.error", what); continue; }
		C->check(r == R::Ok, "decode.throws", what);
		if (r != R::Ok) continue;
		if (!d.malformed) C->check(got == d.out, "decode", [&] { return what() + ", expected " + q(d.out); });
		else {
			C->check(got.compare(0, d.before.size(), d.before) == 0, "decode.before", what);
			C->check(got.size() >= d.after.size() && got.compare(got.size() - d.after.size(), S::npos, d.after) == 0, "decode.after", what);
			C->check(got.size() <= t.size(), "decode.longer", what);
		}
	}
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	const bool deep = ctx.thorough();
	// A. All texts: every kind of character next to and within escapes.
	stringsUpTo({ "%", "4", "a", "F", "+", "g", "é" }, deep ? 8 : 7, [&] (const S & t) {
		if (!ctx.begin([&] { return "decode " + q(t); })) return;
		ctx.nontrivial(hash(t)); one(t);
	});
	// B. All sequences of escapes and boundary bytes of UTF-8.
	stringsUpTo({ "%41", "%c3", "%a9", "%e2", "%82", "%F0", "%9F", "%98", "%ff", "%00", "x", "+" }, deep ? 6 : 5, [&] (const S & t) {
		if (!ctx.begin([&] { return "decode " + q(t); })) return;
		ctx.nontrivial(hash(t)); one(t);
	});
	// C. Every two characters after a percent sign, complete, cut and followed.
	for (int a = 0; a < 256; ++a) {
		if (!ctx.begin([&] { return "escapes of " + std::to_string(a); })) continue;
		ctx.nontrivial(hash("c" + std::to_string(a)));
		for (int b = 0; b < 256; ++b) { S e = S("%") + (char) a + (char) b; one(e); one("x" + e + "y+%41"); one(e + e); }
		one(S("%") + (char) a); one(S("%41%") + (char) a); one(S(1, (char) a));
	}
	// D. Encoding and decoding every text.
	stringsUpTo({ "a", " ", "+", "%", "&", "=", "é", "€", "😀", S(1, '\0') }, deep ? 5 : 4, [&] (const S & t) {
		if (!ctx.begin([&] { return "round trip of " + q(t); })) return;
		ctx.nontrivial(hash("r" + t));
		for (int form = 0; form < 3; ++form) {
			S enc; for (char c : t) { char h[8]; snprintf(h, sizeof h, form == 1 ? "%%%02x" : "%%%02X", (unsigned char) c); if (c == ' ' && form == 2) enc += '+'; else if (form < 2 || !isalnum((unsigned char) c)) enc += h; else enc += c; }
			for (int k = 0; k < 4; ++k) { S got; R r = run([&] { got = UrlDecode::decode(enc, k & 1, k & 2); }); ctx.check(r == R::Ok && got == t, "roundtrip", [&] { return q(enc) + ": " + name(r) + " " + q(got); }); }
			S got; R r = run([&] { auto m = UrlDecode::splitAndDecode(enc + "=" + enc + "&k=" + enc); if (!t.empty() && (m.size() != 2 || m.at(t) != t)) got = "parameter"; if (m.at("k") != t) got = "value"; });
			ctx.check(r == R::Ok && got.empty(), "roundtrip.parameters", [&] { return q(enc) + ": " + name(r) + " " + got; });
		}
	});
	// E. Splitting.
	stringsUpTo({ "a", "b", "=", "&", "%3D", "%26", "+" }, deep ? 8 : 7, [&] (const S & t) {
		if (!ctx.begin([&] { return "split " + q(t); })) return;
		ctx.nontrivial(hash("s" + t));
		std::vector<std::pair<S, S>> ps; bool twice = false; S x;
		for (char c : t + "&") if (c == '&') { if (!x.empty()) { size_t e = x.find('='); if (e != S::npos && x.find('=', e + 1) != S::npos) twice = true; ps.push_back(e == S::npos ? std::make_pair(x, S()) : std::make_pair(x.substr(0, e), x.substr(e + 1))); } x.clear(); } else x += c;
		std::unordered_map<std::string_view, std::string_view> m; std::unordered_map<S, S> d; Exact e(t);
		std::string_view v = e.view();
		R r = run([&] { m = UrlDecode::split(v); }), rd = run([&] { d = UrlDecode::splitAndDecode(v); });
		auto show = [&] { S s = q(t) + " "; s += name(r); for (auto & [k, w] : m) s += " " + q(S(k)) + "=" + q(S(w)); return s; };
		if (twice) { ctx.check(r != R::Other && rd != R::Other, "split.throws", show); if (r == R::Net) { ctx.check(rd == R::Net, "split.both", show); return; } }
		ctx.check(r == R::Ok && rd == R::Ok, "split.throws", show);
		if (r != R::Ok || rd != R::Ok) return;
		std::map<S, std::set<S>> byKey, byDecoded;
		for (auto & [k, w] : ps) { byKey[k].insert(w); byDecoded[decode(k, true).out].insert(decode(w, true).out); }
		bool ok = m.size() == byKey.size(); for (auto & [k, w] : m) ok = ok && byKey.count(S(k)) && byKey[S(k)].count(S(w));
		ctx.check(ok, "split", show);
		ok = d.size() == byDecoded.size(); for (auto & [k, w] : d) ok = ok && byDecoded.count(k) && byDecoded[k].count(w);
		ctx.check(ok, "split.decoded", show);
		for (auto & [k, w] : m) ctx.check((k.empty() || (k.data() >= e.p && k.data() + k.size() <= e.p + t.size())) && (w.empty() || (w.data() >= e.p && w.data() + w.size() <= e.p + t.size())), "split.views", show);
	});
	return ctx.finish();
}
