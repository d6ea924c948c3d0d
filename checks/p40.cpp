// P40: test reports and writers record exactly the outcomes they are given.
#include "runner.hpp"
#include <Balau/Logging/Logger.hpp>
#include <Balau/Testing/Writers/LogWriter.hpp>
#include "logging.hpp"

using namespace Run;
using Balau::Testing::Impl::TestResult;
using R = TestResult::Result;

static vk::Ctx * C;

// A strict parser of the part of XML that the reports use: declaration, elements, attributes, character data, entities.
struct Element { S name; std::map<S, S> attributes; std::vector<Element> children; };
struct Malformed { S what; size_t at; };
class Parser {
	const S & s; size_t p = 0;
	[[noreturn]] void fail(const char * w) { throw Malformed { w, p }; }
	bool at(const char * t) const { return s.compare(p, strlen(t), t) == 0; }
	void expect(const char * t) { if (!at(t)) fail(t); p += strlen(t); }
	void blank() { while (p < s.size() && strchr(" \t\r\n", s[p])) ++p; }
	S name() { size_t b = p; while (p < s.size() && (isalnum((unsigned char) s[p]) || strchr("_:-.", s[p]))) ++p; if (b == p || !(isalpha((unsigned char) s[b]) || s[b] == '_')) fail("name"); return s.substr(b, p - b); }
	S entity() {
		size_t e = s.find(';', p);
		if (e == S::npos || e - p > 10) fail("entity");
		S n = s.substr(p + 1, e - p - 1);
		p = e + 1;
		if (n == "lt") return "<"; if (n == "gt") return ">"; if (n == "amp") return "&"; if (n == "quot") return "\""; if (n == "apos") return "'";
		if (n.size() > 1 && n[0] == '#') {
			long v = n[1] == 'x' ? strtol(n.c_str() + 2, nullptr, 16) : strtol(n.c_str() + 1, nullptr, 10);
			if (v == 9 || v == 10 || v == 13 || (v >= 32 && v < 127)) return S(1, (char) v);
		}
		fail("unknown entity");
	}
	void characters() {
		// The whole document: well formed UTF-8 of characters that XML 1.0 allows.
		for (size_t i = 0; i < s.size();) {
			unsigned char c = (unsigned char) s[i];
			unsigned n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
			p = i;
			if (!n || i + n > s.size()) fail("malformed UTF-8");
			uint32_t v = n == 1 ? c : c & (0xffu >> (n + 1));
			for (unsigned k = 1; k < n; ++k) { unsigned char d = (unsigned char) s[i + k]; if ((d & 0xc0) != 0x80) fail("malformed UTF-8"); v = v << 6 | (d & 0x3f); }
			if ((n == 3 && v < 0x800) || (n == 4 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) fail("malformed UTF-8");
			if ((v < 32 && v != 9 && v != 10 && v != 13) || v == 0xfffe || v == 0xffff) fail("character");
			i += n;
		}
		p = 0;
	}
	Element element() {
		expect("<");
		Element e;
		e.name = name();
		for (;;) {
			size_t b = p;
			blank();
			if (at("/>")) { p += 2; return e; }
			if (at(">")) { ++p; break; }
			if (b == p) fail("blank before attribute");
			S a = name(), v;
			blank(); expect("="); blank();
			char quote = p < s.size() ? s[p] : 0;
			if (quote != '"' && quote != '\'') fail("quote");
			++p;
			while (p < s.size() && s[p] != quote) {
				if (s[p] == '<') fail("< in attribute");
				if (s[p] == '&') v += entity();
				else { v += strchr("\t\r\n", s[p]) ? ' ' : s[p]; ++p; }
			}
			expect(S(1, quote).c_str());
			if (!e.attributes.emplace(a, v).second) fail("attribute twice");
		}
		for (;;) {
			if (p >= s.size()) fail("end");
			if (at("</")) { p += 2; if (name() != e.name) fail("end tag"); blank(); expect(">"); return e; }
			if (at("<")) e.children.push_back(element());
			else if (s[p] == '&') entity();
			else { if (at("]]>")) fail("]]>"); ++p; }
		}
	}
	public: explicit Parser(const S & t) : s(t) {}
	public: Element parse() {
		characters();
		if (at("<?xml ")) { size_t e = s.find("?>"); if (e == S::npos) fail("declaration"); p = e + 2; }
		blank();
		Element e = element();
		blank();
		if (p != s.size()) fail("text after the document");
		return e;
	}
};

static bool plainText(const S & t) {
	for (unsigned char c : t) if (c < 32 || c >= 127) return false;
	return true;
}

struct Given { S name; R result; S text; long long duration = 1000; };

// Is the document a report of exactly these results?
static void judge(const S & document, const S & group, const std::vector<Given> & given, const std::function<S ()> & d, bool exactTexts = true) {
	Element e;
	try { e = Parser(document).parse(); }
	catch (const Malformed & m) { C->violation("wellFormed", d() + ": " + m.what + " at " + std::to_string(m.at) + ": " + vk::q(document.substr(m.at > 60 ? m.at - 60 : 0, 90))); return; }
	auto number = [&] (const Element & x, const char * a) { auto i = x.attributes.find(a); return i == x.attributes.end() || i->second.empty() || i->second.find_first_not_of("0123456789") != S::npos ? -1L : atol(i->second.c_str()); };
	auto count = [&] (R r) { long n = 0; for (auto & g : given) n += g.result == r; return n; };
	C->check(e.name == "testsuite", "suite", d);
	C->check(number(e, "tests") == (long) given.size(), "tests", d);
	C->check(number(e, "failures") == count(R::Failure), "failures", d);
	C->check(number(e, "errors") == count(R::Error), "errors", d);
	C->check(number(e, "skipped") == count(R::Ignored), "skipped", d);
	if (plainText(group)) C->check(e.attributes["name"] == group, "groupName", d);
	std::vector<const Element *> cases;
	for (auto & c : e.children) if (c.name == "testcase") cases.push_back(&c);
	C->check(cases.size() == given.size(), "cases", d);
	if (cases.size() != given.size()) return;
	std::vector<bool> used(cases.size());
	for (size_t i = 0; i < given.size(); ++i) {
		auto & g = given[i];
		auto & c = *cases[i];
		auto a = c.attributes;
		if (plainText(g.name)) C->check(a["name"] == g.name, "caseName", d);
		unsigned failures = 0, errors = 0, skipped = 0;
		S message;
		for (auto & k : c.children) {
			if (k.name == "failure") ++failures; else if (k.name == "error") ++errors; else if (k.name == "skipped") ++skipped; else continue;
			auto m = k.attributes; message = m["message"];
		}
		C->check(failures == (g.result == R::Failure) && errors == (g.result == R::Error) && skipped == (g.result == R::Ignored), "caseOutcome", d);
		if (exactTexts && g.result != R::Success && plainText(g.text)) C->check(message == g.text, "message", d);
		char * end;
		double t = strtod(a["time"].c_str(), &end);
		C->check(!a["time"].empty() && !*end && std::fabs(t - (double) g.duration / 1e9) < 1e-6 + 1e-9 * t, "time", d);
	}
}

template <typename T> struct Templated : Balau::Testing::TestGroup<Templated<T>> {};
struct Plain : Balau::Testing::TestGroup<Plain> {};

static S folder(const char * what) {
	S f = C->scratch + "/" + what + std::to_string(getpid());
	mkdir(f.c_str(), 0700);
	return f;
}
static std::vector<S> files(const S & dir) {
	std::vector<S> r;
	for (auto & e : boost::filesystem::directory_iterator(dir)) r.push_back(e.path().filename().string());
	std::sort(r.begin(), r.end());
	return r;
}

template <typename G> void report(const std::vector<Given> & given, const std::function<S ()> & text, unsigned times = 1) {
	if (!C->begin(text)) return;
	static G group;
	S dir = folder("reports");
	S name = group.getGroupName();
	for (auto & f : files(dir)) unlink((dir + "/" + f).c_str());
	{
		Balau::Testing::Reporters::SurefireTestReportGenerator generator { Resource::File(dir) };
		std::vector<TestResult> results;
		long long total = 0;
		for (size_t i = 0; i < given.size(); ++i) { results.emplace_back(given[i].name, given[i].duration, 0, (unsigned) i, given[i].result, S(given[i].text)); total += given[i].duration; }
		std::vector<const TestResult *> pointers;
		for (auto & r : results) pointers.push_back(&r);
		// An earlier report of the group is replaced.
		if (times > 1) { std::vector<const TestResult *> twice(pointers); twice.insert(twice.end(), pointers.begin(), pointers.end()); generator.generate(group, std::chrono::nanoseconds(total), twice); }
		try { generator.generate(group, std::chrono::nanoseconds(total), pointers); }
		catch (const std::exception & e) { C->violation("exception", S(e.what())); return; }
	}
	auto f = files(dir);
	S what = f.empty() ? S() : slurp(dir + "/" + f[0]);
	auto d = [&] { return "the report: " + vk::q(what.substr(0, 900)); };
	C->check(f.size() == 1, "files", [&] { return std::to_string(f.size()) + " files"; });
	if (f.size() == 1) judge(what, name, given, d);
	for (auto & x : f) unlink((dir + "/" + x).c_str());
	C->nontrivial(vk::hash(what));
	S st; for (auto & g : given) st += (char) ('0' + (int) g.result);
	C->state(vk::hash(st));
	++C->traces;
}

// The whole way: a run of tests with a report folder.
static void wholeRun(int model, const S & bodies) {
	static const char * const models[] = { "SingleThreaded", "WorkerThreads", "WorkerProcesses", "ProcessPerTest" };
	if (!C->begin([&] { return S(models[model]) + " run of " + bodies + " with reports"; })) return;
	S dir = folder("run");
	for (auto & f : files(dir)) unlink((dir + "/" + f).c_str());
	std::vector<Given> given[2];
	Plan p;
	for (size_t i = 0; i < bodies.size(); ++i) {
		Test t { (int) (i % 2), "t" + std::to_string(i), bodies[i] };
		p.tests.push_back(t);
		char r = resultOf(bodies[i]);
		given[i % 2].push_back({ fullName(t), r == 'S' ? R::Success : r == 'F' ? R::Failure : r == 'I' ? R::Ignored : R::Error, "" });
	}
	p.args = { "-e", models[model], "-c", "2", "-r", dir };
	// The collector takes the place of the generator, so this run uses the generator of its own.
	S out = inChild([&] {
		plan = &p;
		traceFd = open("/dev/null", O_WRONLY);
		int null = open("/dev/null", O_WRONLY);
		dup2(null, 1);
		new Alpha(15); new Alp(15);
		std::vector<S> args { "runner" };
		args.insert(args.end(), p.args.begin(), p.args.end());
		std::vector<char *> argv;
		for (auto & a : args) argv.push_back(&a[0]);
		return std::to_string(Balau::Testing::TestRunner::run((int) argv.size(), argv.data()));
	});
	bool failed = bodies.find_first_of("ftiek") != S::npos;
	C->check(out == (failed ? "1" : "0"), "run", [&] { return out; });
	for (int g = 0; g < 2; ++g) {
		S f = dir + "/TEST-" + groupName(g) + ".xml";
		if (given[g].empty()) { C->check(access(f.c_str(), F_OK) != 0, "noReport", [&] { return f; }); continue; }
		S what = slurp(f);
		// The times are those of the run: take them from the report.
		try {
			Element e = Parser(what).parse();
			size_t i = 0;
			for (auto & c : e.children) if (c.name == "testcase" && i < given[g].size()) given[g][i++].duration = (long long) (strtod(c.attributes["time"].c_str(), nullptr) * 1e9 + 0.5);
		} catch (const Malformed &) {}
		judge(what, groupName(g), given[g], [&] { return "the report " + f + ": " + vk::q(what.substr(0, 1500)); }, false);
	}
	for (auto & x : files(dir)) unlink((dir + "/" + x).c_str());
	C->nontrivial(vk::hash(S(models[model]) + bodies));
	++C->traces;
}

// Writers: every sequence of values, to every combination of writers.
static void writers(const S & values, unsigned mask) {
	if (!C->begin([&] { return "values " + values + " to writers " + std::to_string(mask); })) return;
	S file = folder("writers") + "/file";
	unlink(file.c_str());
	std::ostringstream a, b;
	S got[5], want;
	std::vector<S> wantLog;
	const S texts[] = { "", "text\n", "a {} b", "two\nlines", S(5000, 'x') };
	for (char v : values) {
		S t = v >= '0' && v <= '4' ? texts[v - '0'] : v == 'n' ? "42" : v == 'u' ? "18446744073709551615" : v == 'd' ? "true" : "literal";
		want += t; wantLog.push_back(t);
	}
	{
		Capture capture;
		{
			auto play = [&] (Balau::Testing::Impl::CompositeWriter & w) {
				for (char v : values) switch (v) {
					case 'n': w << 42; break;
					case 'u': w << (size_t) -1; break;
					case 'd': w << true; break;
					case 'l': w << "literal"; break;
					default: w << texts[v - '0'];
				}
			};
			using namespace Balau::Testing;
			OStreamTestWriter wa(a), wb(b);
			StdOutTestWriter ws;
			switch (mask) {
				case 0: { Balau::Testing::Impl::CompositeWriter w(wa); play(w); got[1] = b.str() + want; break; }
				case 1: { Balau::Testing::Impl::CompositeWriter w(wa, wb); play(w); got[1] = b.str(); break; }
				case 2: { FileTestWriter f { Resource::File(file) }; Balau::Testing::Impl::CompositeWriter w(wa, f, wb); play(w); break; }
				case 3: { Balau::Testing::Impl::CompositeWriter w(ws, wa, wb); play(w); break; }
				case 4: { Balau::Testing::Impl::CompositeWriter w(wb, wb, wa); play(w); break; }
				case 5: { Balau::Testing::Impl::CompositeWriter v(wb), w(wa, wb); v = w; play(v); break; }
				case 6: { LogWriter l("recorded"); Balau::Testing::Impl::CompositeWriter w(wa, l, wb); play(w); break; }
			}
		}
		got[3] = capture.out.str();
	}
	auto d = [&] { return "wrote " + vk::q(want.substr(0, 200)) + ", the first stream has " + vk::q(a.str().substr(0, 200)) + ", the second " + vk::q(b.str().substr(0, 200)); };
	C->check(a.str() == want, "stream", d);
	if (mask == 4) {
		S twice; for (auto & t : wantLog) twice += t + t;
		C->check(b.str() == twice, "sameStream", d);
	} else C->check(b.str() == (mask ? want : ""), "otherStream", d);
	if (mask == 2) { S f = slurp(file); C->check(f == want, "file", [&] { return d() + ", the file " + vk::q(f.substr(0, 200)); }); }
	C->check(got[3] == (mask == 3 ? want : ""), "standardOutput", [&] { return d() + ", standard output has " + vk::q(got[3].substr(0, 200)); });
	if (mask == 6) {
		auto & lines = records()["rec:writers"].lines;
		S all; for (auto & l : lines) all += l + '|';
		S exp; for (auto & l : wantLog) exp += l + "\n|";
		C->check(all == exp, "log", [&] { return d() + ", the log has " + vk::q(all.substr(0, 300)); });
		lines.clear();
	}
	C->nontrivial(vk::hash(values + std::to_string(mask)));
	C->transitions += values.size();
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv); C = &ctx;
	bool deep = ctx.thorough();
	const R rs[] = { R::Success, R::Failure, R::Error, R::Ignored };

	// Every sequence of outcomes.
	std::vector<std::vector<R>> all { {} };
	for (size_t from = 0, len = 0; len < (deep ? 6u : 5u); ++len) { size_t to = all.size(); for (; from < to; ++from) for (R r : rs) { auto v = all[from]; v.push_back(r); all.push_back(v); } }
	for (auto & v : all) {
		std::vector<Given> g;
		S o;
		for (size_t i = 0; i < v.size(); ++i) { g.push_back({ "Plain::t" + std::to_string(i), v[i], "text " + std::to_string(i), (long long) i * 1500000 }); o += "SFEI"[(int) v[i]]; }
		report<Plain>(g, [&] { return "outcomes " + o; }, v.size() % 2 + 1);
	}
	// Texts.
	std::vector<S> pieces;
	for (int c = 0; c < 256; ++c) pieces.push_back(S(1, (char) c));
	for (auto & s : std::vector<S> { "\xc2\x80", "\xc3\xa9", "\xe2\x82\xac", "\xef\xbf\xbd", "\xef\xbf\xbe", "\xef\xbf\xbf", "\xed\xa0\x80", "\xf0\x9f\x98\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xe0\x80\x80", "\xf0\x80\x80\x80", "\xe2\x82", "\xf0\x9f\x98", "<![CDATA[", "]]>", "<!--", "-->", "<?", "&#0;", "&amp;", "a<b>c</b>\"d'e", "\r\n", "   " }) pieces.push_back(s);
	std::vector<S> texts { "" };
	for (auto & p : pieces) { texts.push_back(p); texts.push_back("a" + p + "b"); texts.push_back(p + p); }
	std::vector<S> few;
	for (auto & p : pieces) if (p.size() > 1 || strchr("a<>&\"' \t\n\r\x01\x1f\x7f\x80\xc3\xff;#", p[0])) few.push_back(p);
	for (auto & x : few) for (auto & y : few) { texts.push_back(x + y); if (deep) for (auto & z : few) texts.push_back(x + y + z); }
	for (auto & t : texts) {
		std::vector<Given> g;
		for (R r : rs) g.push_back({ S("Plain::") + "t" + std::to_string((int) r), r, t });
		g.push_back({ "Plain::" + t, R::Failure, "text" });
		g.push_back({ t, R::Success, t });
		report<Plain>(g, [&] { return "text " + vk::q(t); });
	}
	report<Plain>({ { "Plain::t", R::Failure, S(300000, '<') }, { S(20000, '&'), R::Error, S(100000, '\x01') } }, [] { return S("long texts"); });
	report<Templated<int>>({ { "t", R::Failure, "text" }, { "u", R::Success, "" } }, [] { return S("a group that is a template"); });
	for (long long ns : { 0LL, 1LL, 499LL, 1000LL, 999999999LL, 1000000000LL, 3600000000000LL, 100000000000000LL }) report<Plain>({ { "t", R::Success, "", ns }, { "u", R::Failure, "text", ns } }, [&] { return "duration " + std::to_string(ns); });
	{
		std::vector<Given> g;
		for (int i = 0; i < 3000; ++i) g.push_back({ "Plain::t" + std::to_string(i), rs[i % 4], "text" });
		report<Plain>(g, [] { return S("3000 tests"); });
	}
	// Whole runs.
	for (int m = 0; m < 4; ++m) {
		S alphabet = m < 2 ? "pfgt" : "pfgek";
		for (size_t n = 1; n <= (m < 2 || deep ? 3u : 2u); ++n) {
			std::function<void (S)> rec = [&] (S s) { if (s.size() == n) { wholeRun(m, s); return; } for (char c : alphabet) rec(s + c); };
			rec("");
		}
	}
	// Writers.
	registerRecorder();
	Logger::configure(S(". {\n    level = trace\n    format = %message\n    stream = rec:writers\n}\n"));
	for (unsigned mask = 0; mask < 7; ++mask) {
		S alphabet = mask == 6 ? "01l34n" : "0124nudl";
		for (size_t n = 0; n <= (deep ? 5u : 4u); ++n) {
			std::function<void (S)> rec = [&] (S s) { if (s.size() == n) { writers(s, mask); return; } for (char c : alphabet) rec(s + c); };
			rec("");
		}
	}
	return ctx.finish();
}
