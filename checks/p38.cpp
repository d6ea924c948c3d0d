// P38: printed quantities denote their value; printed dates and durations read back.
#include <cmath>
#include <boost/core/demangle.hpp>
#include <Balau/Util/PrettyPrint.hpp>
#include <Balau/Util/DateTime.hpp>
#include "vk.hpp"
using namespace vk;
using Balau::Util::PrettyPrint; using Balau::Util::DateTime;
using S = std::string; using LD = long double;
Ctx * C;
S str(LD v) { char b[80]; std::snprintf(b, sizeof b, "%.21Lg", v); return b; }

// -?digits(.digits)? : value and number of decimals; false when it is something else.
bool number(const S & s, LD & v, size_t & decimals) {
	size_t i = 0; bool neg = i < s.size() && s[i] == '-'; if (neg) ++i;
	size_t d = 0; v = 0; decimals = 0;
	while (i < s.size() && isdigit((unsigned char) s[i])) { v = v * 10 + (s[i] - '0'); ++i; ++d; }
	if (!d) return false;
	if (i < s.size() && s[i] == '.') { ++i; LD f = 0, p = 1; while (i < s.size() && isdigit((unsigned char) s[i])) { f = f * 10 + (s[i] - '0'); p *= 10; ++i; ++decimals; } if (!decimals) return false; v += f / p; }
	if (neg) v = -v;
	return i == s.size();
}
const char * PREFIX[] = { "a", "f", "p", "n", "\xce\xbc", "m", "", "k", "M", "G", "T", "P", "E" };
// Splits off the prefix: -6..6, or 99.
int prefixOf(S & t) {
	if (t.size() >= 2 && t.substr(t.size() - 2) == PREFIX[4]) { t.resize(t.size() - 2); return -2; }
	if (!t.empty() && !isdigit((unsigned char) t.back())) { for (int p = 0; p < 13; ++p) if (PREFIX[p] == S(1, t.back())) { t.pop_back(); return p - 6; } return 99; }
	return 0;
}
// whole: the value's type prints no decimals by itself.
void prefixed(const char * key, S t, LD value, size_t decimals, LD base, const S & how) {
	S orig = t; int p = prefixOf(t); LD v; size_t d;
	auto bad = [&] (const S & why) { C->violation(key, how + ": printed " + q(orig) + ": " + why); };
	if (p == 99 || !number(t, v, d)) { bad("not a number and a prefix"); return; }
	if (d != decimals) { bad("not the decimals asked for"); return; }
	LD scale = std::pow(base, (LD) p), ulp = std::pow((LD) 10, -(LD) decimals);
	LD exact = value / scale;
	if (std::fabs(exact - v) > ulp * (0.5L + 1e-6L) + std::fabs(exact) * 1e-15L) { bad("not the value rounded, which is " + str(exact)); return; }
	if (value == 0) { if (p != 0) bad("a prefix for zero"); return; }
	LD m = std::fabs(exact);
	if (m < 1 - 1e-12L && p != -6) bad("the prefix is too large");
	if (m >= base * (1 + 1e-12L) && p != 6) bad("the prefix is too small");
	if ((value < 0) != (t[0] == '-')) bad("wrong sign");
	C->nontrivial(hash(orig));
}

template <class Rep, class Period> void durationOf(std::chrono::duration<Rep, Period> d, size_t decimals) {
	LD total = (LD) d.count() * (LD) Period::num / (LD) Period::den;
	S t = PrettyPrint::duration(d, decimals), orig = t;
	S how = "duration of " + str(total) + " s, " + std::to_string(decimals) + " decimals";
	auto bad = [&] (const S & why) { C->violation("duration", how + ": printed " + q(orig) + ": " + why); };
	if (total == 0) { if (t != "0s") bad("not 0s"); return; }
	bool neg = t[0] == '-'; if (neg) t.erase(0, 1);
	if (neg != (total < 0)) { bad("wrong sign"); return; }
	if (t.empty() || t.back() != 's') { bad("no unit"); return; }
	LD want = std::fabs(total);
	if (want < 60) { t.pop_back(); prefixed("duration", t, want, decimals, 1000, how); return; }
	t.pop_back();
	LD got = 0; long prev = 1 << 30; size_t start = 0; bool first = true;
	for (const char * u = "dhm"; *u; ++u) {
		size_t e = t.find(*u, start); if (e == S::npos) { if (!first) { bad("a unit is missing"); return; } continue; }
		S n = t.substr(start, e - start); if (n.size() < 2 || n.find_first_not_of("0123456789") != S::npos) { bad("not two digits"); return; }
		LD x = std::stold(n); LD unit = *u == 'd' ? 86400 : *u == 'h' ? 3600 : 60;
		if (!first && x >= (*u == 'h' ? 24 : 60)) { bad("a unit above its range"); return; }
		if (first && *u != 'd' && x >= (*u == 'h' ? 24 : 60)) { bad("a first unit above its range"); return; }
		got += x * unit; start = e + 1; first = false; (void) prev;
	}
	if (first) { bad("no minutes"); return; }
	LD sec; size_t d2; if (!number(t.substr(start), sec, d2) || t[start] == '-') { bad("no seconds"); return; }
	if (!(sec < 60)) { bad("60 or more seconds"); return; }
	LD frac = want - std::floor(want);
	if (frac != 0 && d2 != decimals) { bad("not the decimals asked for"); return; }
	if (d2 != 0 && d2 != decimals) { bad("not the decimals asked for"); return; }
	got += sec;
	LD ulp = std::pow((LD) 10, -(LD) d2);
	LD tol = d2 == 0 ? 1 - 1e-12L : 0.5L * ulp + 1e-9L * ulp + want * 1e-17L;   // whole seconds are cut off, decimals rounded
	if (std::fabs(got - want) > tol) { bad("denotes " + str(got) + " s"); return; }
	C->nontrivial(hash(orig));
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	const bool T = ctx.thorough();
	// fixed and scientific: against the C library's correctly rounded output.
	std::vector<double> ds;
	for (int e = -30; e <= 30; ++e) for (double m : { 1.0, 1.5, 2.5, 4.9999, 5.0, 9.4999999, 9.5, 9.999999999, 1.0000001, 3.1415926 }) { double v = m * std::pow(10.0, e); for (double w : { v, std::nextafter(v, 0.0), std::nextafter(v, 1e300) }) { ds.push_back(w); ds.push_back(-w); } }
	for (int k = 0; k <= 1000; ++k) { ds.push_back(k / 8.0); ds.push_back(-k / 8.0); }
	ds.push_back(0.0); ds.push_back(-0.0);
	for (double v : ds) {
		if (!ctx.begin([&] { return "fixed, scientific and metric of " + str(v); })) continue;
		for (size_t dp = 0; dp <= (T ? 12 : 7); ++dp) {
			char b[400], how[120]; std::snprintf(how, sizeof how, "%.17g with %zu decimals", v, dp);
			std::snprintf(b, sizeof b, "%.*f", (int) dp, v); ctx.check(PrettyPrint::fixed(v, dp) == b, "fixed", [&] { return S(how) + ": " + PrettyPrint::fixed(v, dp) + ", expected " + b; });
			std::snprintf(b, sizeof b, "%.*e", (int) dp, v); ctx.check(PrettyPrint::scientific(v, dp) == b, "scientific", [&] { return S(how) + ": " + PrettyPrint::scientific(v, dp) + ", expected " + b; });
			std::snprintf(b, sizeof b, "%.*Lf", (int) dp, (LD) v); ctx.check(PrettyPrint::fixed((LD) v, dp) == b, "fixed", [&] { return S(how) + " (long double): " + PrettyPrint::fixed((LD) v, dp) + ", expected " + b; });
			std::snprintf(b, sizeof b, "%.*f", (int) dp, (double) (float) v); ctx.check(PrettyPrint::fixed((float) v, dp) == b, "fixed", [&] { return S(how) + " (float): " + PrettyPrint::fixed((float) v, dp) + ", expected " + b; });
			if (dp <= 9) { prefixed("metricPrefix", PrettyPrint::metricPrefix(v, dp), v, dp, 1000, S("metric prefix of ") + how); prefixed("metricPrefix", PrettyPrint::metricPrefix((LD) v, dp), v, dp, 1000, S("metric prefix (long double) of ") + how); }
			if (dp <= 9) prefixed("binaryPrefix", PrettyPrint::binaryPrefix(v, dp), v, dp, 1024, S("binary prefix of ") + how);
		}
	}
	// Integers around every power of both bases.
	std::vector<__int128> is;
	for (LD base : { 1000.0L, 1024.0L, 10.0L, 2.0L }) { __int128 p = 1; while (p < ((__int128) 1 << 64)) { for (int d = -6; d <= 6; ++d) is.push_back(p + d); for (int m : { 3, 5, 9, 999, 1000, 1023 }) is.push_back(p * m); is.push_back(p + p / 2); is.push_back(p + p / 1000); p *= (int) base; } }
	for (int k = 0; k <= 2100; ++k) is.push_back(k);
	for (auto i : is) {
		if (i < 0 || i >= ((__int128) 1 << 64)) continue;
		if (!ctx.begin([&] { return "prefixes of the integer " + str((LD) i); })) continue;
		for (size_t dp = 0; dp <= 6; ++dp) {
			S how = str((LD) i) + " with " + std::to_string(dp) + " decimals";
			unsigned long long u = (unsigned long long) i;
			prefixed("metricPrefix", PrettyPrint::metricPrefix(u, dp), (LD) u, dp, 1000, "metric prefix of " + how);
			prefixed("binaryPrefix", PrettyPrint::binaryPrefix(u, dp), (LD) u, dp, 1024, "binary prefix of " + how);
			S b = PrettyPrint::byteValue((size_t) u, dp); if (!b.empty() && b.back() == 'B') prefixed("byteValue", b.substr(0, b.size() - 1), (LD) u, dp, 1024, "bytes " + how); else ctx.violation("byteValue", how + ": " + b);
			if (i < ((__int128) 1 << 63)) { long long n = -(long long) u; prefixed("metricPrefix", PrettyPrint::metricPrefix(n, dp), (LD) n, dp, 1000, "metric prefix of -" + how); prefixed("binaryPrefix", PrettyPrint::binaryPrefix(n, dp), (LD) n, dp, 1024, "binary prefix of -" + how); }
		}
	}
	// Durations.
	using namespace std::chrono;
	const long top = T ? 400000 : 90000;
	for (long s = 0; s <= top; s += 60) {
		if (!ctx.begin([&] { return "durations of " + std::to_string(s) + " to " + std::to_string(s + 59) + " s"; })) continue;
		for (long k = s; k < s + 60; ++k) for (int sign : { 1, -1 }) { durationOf(seconds(sign * k), 0); durationOf(seconds(sign * k), 2);
			if (k < 4000 || k % 60 >= 59 || k % 60 < 2) for (long ms : { 1, 4, 5, 6, 9, 49, 50, 51, 94, 95, 96, 99, 499, 500, 501, 949, 950, 994, 995, 996, 999 }) for (size_t dp : { 0, 1, 2, 3, 4 }) durationOf(milliseconds(sign * (k * 1000 + ms)), dp); }
	}
	for (long unit : { 60l, 3600l, 86400l, 172800l, 8640000l, 86400000l, 8640000000l }) for (long mul : { 1l, 2l, 3l, 23l, 24l, 59l, 60l, 99l, 100l }) {
		if (!ctx.begin([&] { return "durations around " + std::to_string(unit) + " * " + std::to_string(mul); })) continue;
		for (long off : { -1l, -999l, -500000l, -999999l, 0l, 1l, 999l, 499999l, 500000l, 500001l, 999499l, 999500l, 999999l, 59999999l, 59999500l, 59949999l }) for (size_t dp = 0; dp <= 7; ++dp) for (int sign : { 1, -1 }) {
			durationOf(microseconds(sign * (unit * mul * 1000000 + off)), dp);
			if (unit * mul < 8000000000l) durationOf(nanoseconds(sign * (unit * mul * 1000000000 + off)), dp);
			if (unit * mul < 100000000l) durationOf(duration<double>((LD) sign * (LD) (unit * mul) + (LD) sign * (LD) off * 1e-6L), dp > 5 ? 5 : dp); }
		for (int sign : { 1, -1 }) { durationOf(minutes(sign * unit * mul / 60), 0); durationOf(minutes(sign * unit * mul / 60), 3); durationOf(hours(sign * (unit * mul / 3600)), 1); }
	}
	// Hexadecimal bytes: every line length and group size, byte contents of every value.
	static const char * HEX = "0123456789abcdef";
	for (size_t n = 0; n <= (T ? 40u : 20u); ++n) for (size_t line = 0; line <= 45; ++line) {
		if (!ctx.begin([&] { return "hexadecimal of " + std::to_string(n) + " bytes, lines of " + std::to_string(line); })) continue;
		for (size_t group = 0; group <= 9; ++group) for (int pat = 0; pat < 3; ++pat) {
			S in(n, '\0'); for (size_t i = 0; i < n; ++i) in[i] = (char) (pat == 0 ? i * 13 + 120 : pat == 1 ? 0x80 + i * 7 : i);
			Exact e(in); S t = PrettyPrint::printHexBytes(e.p, n, line, group), all;
			S how = std::to_string(n) + " bytes, line " + std::to_string(line) + ", group " + std::to_string(group) + ": " + q(t);
			std::vector<S> lines(1);
			for (char c : t) { if (c == '\n') lines.emplace_back(); else lines.back() += c; if (c != '\n' && c != ' ') all += c; }
			S want; for (unsigned char c : in) { want += HEX[c >> 4]; want += HEX[c & 15]; }
			ctx.check(all == want, "hex.digits", [&] { return how + ", expected the digits " + want; });
			if (line == 0) ctx.check(lines.size() == 1, "hex.single", [&] { return how + ": more than one line"; });
			if (line >= 2 && (group == 0 || 2 * group <= line)) for (auto & l : lines) ctx.check(l.size() <= line + 1 && l.find_last_not_of(' ') + 1 <= line, "hex.line", [&] { return how + ": a line is too long"; });
			if (line >= 2 && group != 0 && 2 * group <= line) for (auto & l : lines) { size_t k = 0; S trimmed = l; while (!trimmed.empty() && trimmed.back() == ' ') trimmed.pop_back(); std::istringstream is2(trimmed); S w; size_t words = 0; std::vector<S> ws; while (is2 >> w) ws.push_back(w); words = ws.size(); for (k = 0; k < words; ++k) ctx.check(ws[k].size() == 2 * group || (&l == &lines.back() && k + 1 == words) || (&l == &lines[lines.size() - (lines.back().empty() ? 2 : 1)] && k + 1 == words), "hex.group", [&] { return how + ": a group of another size"; }); }
			if (group == 0) ctx.check(t.find(' ') == S::npos, "hex.nogroups", [&] { return how + ": groups that were not asked for"; });
			ctx.nontrivial(hash(how));
		}
	}
	for (int v = 0; v < 65536; v += 1) { if ((v & 1023) == 0 && !ctx.begin([&] { return "hexadecimal of the values from " + std::to_string(v); })) { v += 1023; continue; }
		unsigned char b[2] = { (unsigned char) v, (unsigned char) (v >> 8) }; S want; for (unsigned char c : b) { want += HEX[c >> 4]; want += HEX[c & 15]; }
		unsigned short u = (unsigned short) v; S got = PrettyPrint::printHexBytes(u); ctx.check(got == want, "hex.value", [&] { return std::to_string(v) + ": " + got + ", expected " + want; }); }

	// Dates: every day of several years around the calendar's corners, every boundary of a day, and back.
	auto civil = [] (long z, long & y, unsigned & m, unsigned & d) {   // counts days one by one from a known date
		static long cz = 0, cy = 1970; static unsigned cm = 1, cd = 1;
		auto leap = [] (long yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
		auto len = [&] (long yy, unsigned mm) { static const unsigned L[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return L[mm - 1] + (mm == 2 && leap(yy) ? 1 : 0); };
		while (cz < z) { ++cz; if (++cd > len(cy, cm)) { cd = 1; if (++cm > 12) { cm = 1; ++cy; } } }
		while (cz > z) { --cz; if (--cd == 0) { if (--cm == 0) { cm = 12; --cy; } cd = len(cy, cm); } }
		y = cy; m = cm; d = cd;
	};
	const long spans[][2] = { { -25600, -25500 }, { -800, 800 }, { 10800, 11900 }, { 18250, 18700 }, { 47400, 47600 }, { -98700, -98500 } };
	for (auto & sp : spans) for (long day = sp[0]; day <= sp[1]; ++day) {
		if (!ctx.begin([&] { return "day " + std::to_string(day); })) continue;
		long y; unsigned m, d; civil(day, y, m, d);
		for (long sec : { 0l, 1l, 59l, 60l, 3599l, 3600l, 43199l, 43200l, 86399l }) {
			system_clock::time_point tp = system_clock::time_point(duration_cast<system_clock::duration>(seconds(day * 86400 + sec)));
			auto tps = time_point_cast<seconds>(tp);
			char b[64]; std::snprintf(b, sizeof b, "%04ld-%02u-%02u %02ld:%02ld:%02ld", y, m, d, sec / 3600, sec / 60 % 60, sec % 60);
			S got = DateTime::toString("%Y-%m-%d %H:%M:%S", tps);
			ctx.check(got == b, "date.print", [&] { return "day " + std::to_string(day) + " second " + std::to_string(sec) + ": " + got + ", expected " + b; });
			std::ostringstream os; DateTime::toString(os, "%F %T", tps);
			ctx.check(os.str() == b, "date.stream", [&] { return "day " + std::to_string(day) + " second " + std::to_string(sec) + ": " + os.str() + ", expected " + b; });
			S g2 = ::toString(tps); ctx.check(g2 == b, "date.toString", [&] { return "toString of day " + std::to_string(day) + ": " + g2 + ", expected " + b; });
			for (long ms : { 0l, 1l, 10l, 999l }) { auto tpm = time_point_cast<milliseconds>(tp) + milliseconds(ms); char c[80]; std::snprintf(c, sizeof c, "%s.%03ld", b, ms); S g3 = DateTime::toString("%F %T", tpm); ctx.check(g3 == c, "date.millis", [&] { return g3 + ", expected " + c; }); }
			ctx.nontrivial((uint64_t) (day * 86400 + sec));
		}
	}
	for (long s = 0; s < 86400 * 2; s += 1) {
		if (s % 600 == 0 && !ctx.begin([&] { return "durations read back from " + std::to_string(s); })) { s += 599; continue; }
		long h = s / 3600, mi = s / 60 % 60, se = s % 60; char b[64]; std::snprintf(b, sizeof b, "%02ld:%02ld:%02ld", h, mi, se);
		if (h < 24) { S got = DateTime::toString("%T", seconds(s)); ctx.check(got == b, "duration.print", [&] { return std::to_string(s) + ": " + got + ", expected " + b; });
			auto back = DateTime::toDuration<long, std::ratio<1>>("%T", got); ctx.check(back.count() == s, "duration.parse", [&] { return got + " read back as " + std::to_string(back.count()); });
			auto back2 = DateTime::toDuration<long, std::milli>("%T", got); ctx.check(back2.count() == s * 1000, "duration.parse", [&] { return got + " read back as " + std::to_string(back2.count()) + " ms"; });
			for (long ms : { 0l, 1l, 999l }) { char c[80]; std::snprintf(c, sizeof c, "%s.%03ld", b, ms); S g = DateTime::toString("%T", milliseconds(s * 1000 + ms)); ctx.check(g == c, "duration.print", [&] { return g + ", expected " + c; }); auto bk = DateTime::toDuration<long, std::milli>("%T", g); ctx.check(bk.count() == s * 1000 + ms, "duration.parse", [&] { return g + " read back as " + std::to_string(bk.count()) + " ms"; }); } }
		S t = ::toString(seconds(s)); ctx.check(t == std::to_string(s) + "s", "duration.toString", [&] { return std::to_string(s) + ": " + t; });
	}
	return ctx.finish();
}
