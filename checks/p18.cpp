// P18: a log line is exactly its format and message with all parameters in place.
#include "logging.hpp"
#include <Balau/System/ThreadName.hpp>
#include <ctime>

struct Situation { std::string ns, abbreviated; int s; bool located; std::string message; };

// What a format gives: a list of literal texts and of moments (%Y and the like), which are checked on their own.
struct Piece { char kind; std::string text; };
std::vector<Piece> piecesOf(const std::string & format, const Situation & x) {
	static const std::vector<std::string> specifiers = { "message", "namespace", "filename", "filepath", "thread", "level", "LEVEL", "ns", "Y", "y", "m", "d", "H", "M", "S", "%", "\"" };
	std::vector<Piece> r;
	auto literal = [&] (const std::string & t) { if (!r.empty() && r.back().kind == 'x') r.back().text += t; else r.push_back({ 'x', t }); };
	for (size_t i = 0; i < format.size();) {
		if (format[i] != '%') { literal(format.substr(i++, 1)); continue; }
		const std::string * found = nullptr;
		for (auto & s : specifiers) if (format.compare(i + 1, s.size(), s) == 0 && (!found || s.size() > found->size())) found = &s;
		if (!found) { literal("%"); ++i; continue; }
		i += 1 + found->size();
		auto & s = *found;
		if (s == "message") literal(x.message);
		else if (s == "namespace") literal(x.ns);
		else if (s == "ns") literal(x.abbreviated);
		else if (s == "filename") literal(x.located ? "File.cpp:17" : "");
		else if (s == "filepath") literal(x.located ? "/src/File.cpp:17" : "");
		else if (s == "thread") literal("worker");
		else if (s == "level") literal(levelNames[x.s]);
		else if (s == "LEVEL") { std::string u = levelNames[x.s]; for (auto & c : u) c = std::toupper(c); literal(u); }
		else if (s == "%" || s == "\"") literal(s);
		else r.push_back({ s[0], "" });
	}
	return r;
}

bool matches(const std::string & line, const std::vector<Piece> & pieces, std::time_t before, std::time_t after) {
	size_t at = 0;
	for (std::time_t t = before; t <= after; ++t) {
		std::tm tm = *std::gmtime(&t);
		at = 0;
		bool ok = true;
		for (auto & p : pieces) {
			std::string want = p.text;
			if (p.kind != 'x') { char b[20]; char f[3] = { '%', p.kind, 0 }; std::strftime(b, sizeof b, f, &tm); want = b; }
			if (line.compare(at, want.size(), want) != 0) { ok = false; break; }
			at += want.size();
			if (p.kind == 'S') {
				// A fraction of six to nine digits.
				size_t digits = 0;
				if (line[at] != '.') { ok = false; break; }
				while (digits < 9 && at + 1 + digits < line.size() && std::isdigit((unsigned char) line[at + 1 + digits])) ++digits;
				if (digits < 6) { ok = false; break; }
				at += 1 + (digits == 9 ? 9 : 6);
			}
		}
		if (ok && line.substr(at) == "\n") return true;
	}
	return false;
}

// What a message gives, with parameters. "{{" may be taken as text or its second brace as the start of a placeholder; missing
// parameters may be replaced by any text. Returns whether the text is right.
bool rightText(const std::string & message, const std::vector<std::string> & parameters, const std::string & text, size_t i = 0, size_t at = 0, size_t next = 0) {
	while (i < message.size()) {
		if (message[i] == '{' && i + 1 < message.size() && message[i + 1] == '}') {
			if (next < parameters.size()) {
				if (text.compare(at, parameters[next].size(), parameters[next]) != 0) return false;
				at += parameters[next++].size();
				i += 2;
				continue;
			}
			for (size_t n = 0; at + n <= text.size(); ++n) if (rightText(message, parameters, text, i + 2, at + n, next)) return true;
			return false;
		}
		if (message.compare(i, 2, "{{") == 0) {
			if (text.compare(at, 2, "{{") == 0 && rightText(message, parameters, text, i + 2, at + 2, next)) return true;
		}
		if (at >= text.size() || text[at] != message[i]) return false;
		++at; ++i;
	}
	return at == text.size();
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	const bool deep = ctx.thorough();
	setenv("TZ", "UTC", 1);
	registerRecorder();
	System::ThreadName::setName("worker");
	auto lineOf = [&] (const std::string & uri) -> std::string { auto & r = records()[uri]; return r.lines.size() == 1 ? r.lines[0] : "(" + std::to_string(r.lines.size()) + " lines)"; };

	// Every format of up to three (thorough: four) tokens.
	const std::vector<std::string> tokens = { "%message", "%namespace", "%ns", "%filename", "%filepath", "%thread", "%level", "%LEVEL", "%Y", "%y", "%m", "%d", "%H", "%M", "%S", "%%", "%\"", "x", " ", "%", "%q", "s", "[%T]", "level", "\"", "$" };
	auto tryFormat = [&] (const std::string & format, bool quoted, int variant, const std::string & kind) {
		// (Blanks at the start of a value belong to the separator; quotes keep them. A quoted format has to be quoted at both ends.)
		if (!quoted && (format.empty() || format.front() == ' ' || format.front() == '"' || format.back() == ' ' || (format.back() == '"' && format.size() > 1 && format[format.size() - 2] != '%'))) return;
		auto describe = [&] { return kind + " " + vk::q(format) + (quoted ? " quoted" : "") + " " + std::to_string(variant); };
		if (!ctx.begin(describe)) return;
		Situation x { variant & 1 ? "ab.cd.ef" : variant & 4 ? "" : "zz", variant & 1 ? "a.c.ef" : variant & 4 ? "" : "zz", variant % 5, (variant & 2) != 0, variant & 8 ? "" : "m%d {1}" };
		std::string error, line;
		std::time_t before, after;
		{
			Capture capture;
			try { configure({ { ".", { { "stream", "rec:x" }, { "level", "trace" }, { "format", quoted ? "\"" + format + "\"" : format } } } }, variant & 16 ? 1 : 0); } catch (const std::exception & e) { error = std::string("configuration throws ") + e.what(); }
			records()["rec:x"] = Record {};
			before = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
			logBy(Logger::getLogger(x.ns), x.s, (x.located ? 2 : 0) + (variant & 1), x.message.c_str());
			after = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
			line = lineOf("rec:x");
			// Invalid specifiers are reported.
			bool invalid = false;
			for (size_t i = 0; i < format.size(); ++i) if (format[i] == '%') {
				size_t n = 0;
				for (std::string s : { "message", "namespace", "filename", "filepath", "thread", "level", "LEVEL", "ns", "Y", "y", "m", "d", "H", "M", "S", "%", "\"" }) if (format.compare(i + 1, s.size(), s) == 0) n = std::max(n, s.size());
				if (!n) invalid = true;
				i += n;
			}
			if (error.empty() && invalid && capture.err.str().empty()) error = "the invalid specifier is not reported";
			if (error.empty() && !invalid && !capture.err.str().empty()) error = "reports " + capture.err.str();
		}
		ctx.check(error.empty() && matches(line, piecesOf(format, x), before, after), error.find("not reported") != std::string::npos ? "unreported specifier" : "format", [&] { return describe() + " in " + x.ns + " gives " + vk::q(line) + " " + error; });
		++ctx.traces;
		++ctx.transitions;
		ctx.state(vk::hash(describe()));
	};
	int variant = 0;
	for (int length = 0; length <= (deep ? 4 : 3); ++length) vk::sequences((int) tokens.size(), length, [&] (const std::vector<int> & c) {
		std::string f;
		for (int t : c) f += tokens[t];
		if (c.size() == 4 && std::hash<std::string>()(f) % 4) return;
		++variant;
		tryFormat(f, c.size() <= 2 ? false : variant & 1, variant * 7 % 32, "format");
		if (c.size() <= 2) { tryFormat(f, true, variant * 5 % 32, "format"); }
		if (c.size() <= 1) for (int v = 0; v < 32; ++v) tryFormat(f, v & 1, v, "all situations");
	});
	ctx.outcome("formats");

	// Every message of up to six (thorough: eight) characters with up to three parameters of every kind.
	Logger & log = Logger::getLogger("m");
	configure({ { ".", { { "stream", "rec:x" }, { "format", "\"<%message>\"" } } } }, 0);
	const std::vector<std::string> texts = { "A", "", "{}", "a{}b", "%message", std::string("n\0l", 3), "line\nbreak", "{", "}" };
	auto tryMessage = [&] (const std::string & m, const std::vector<std::string> & p, int how) {
		auto describe = [&] { std::string r = "message " + vk::q(m) + ", way " + std::to_string(how); for (auto & t : p) r += " " + vk::q(t); return r; };
		if (!ctx.begin(describe)) return;
		records()["rec:x"] = Record {};
		// (The ways with a string view take one that is not terminated.)
		std::string more = m + "{}{}";
		std::string_view v(more.data(), m.size());
		auto location = SourceCodeLocation("f:1");
		auto call = [&] (const auto & ... q) {
			switch (how) {
				case 0: log.info(m.c_str(), q ...); break;
				case 1: log.info(v, q ...); break;
				case 2: log.warn(location, m.c_str(), q ...); break;
				case 3: log.error(location, v, q ...); break;
				case 4: log.log(LoggingLevel::INFO, m.c_str(), q ...); break;
				case 5: log.log(LoggingLevel::WARN, v, q ...); break;
				case 6: log.log(LoggingLevel::INFO, location, m.c_str(), q ...); break;
				default: log.log(LoggingLevel::ERROR, location, v, q ...); break;
			}
		};
		switch (p.size()) { case 0: call(); break; case 1: call(p[0]); break; case 2: call(p[0], p[1]); break; case 3: call(p[0], p[1], p[2]); break; default: call(p[0], p[1], p[2], p[3]); break; }
		auto line = lineOf("rec:x");
		// (Without parameters a message is printed as it is.)
		bool framed = line.size() >= 3 && line[0] == '<' && line.compare(line.size() - 2, 2, ">\n") == 0;
		std::string text = framed ? line.substr(1, line.size() - 3) : "";
		ctx.check(framed && (p.empty() ? text == m : rightText(m, p, text)), "message", [&] { return describe() + " gives " + vk::q(line); });
		++ctx.traces;
		++ctx.transitions;
		ctx.state(vk::hash(describe()));
	};
	int n = 0;
	vk::stringsUpTo({ "{", "}", "x" }, deep ? 8 : 6, [&] (const std::string & m) {
		for (size_t k = 0; k <= 3; ++k) {
			++n;
			std::vector<std::string> p;
			for (size_t j = 0; j < k; ++j) p.push_back(texts[(n + j * (1 + n / 9)) % texts.size()]);
			tryMessage(m, p, n % 8);
			std::vector<std::string> q { "first", "second", "third" };
			q.resize(k);
			if (k && m.size() <= 4) tryMessage(m, q, (n + 3) % 8);
		}
	});
	// All parameter texts in all places, in all ways.
	for (std::string m : { "{}", "{}{}", "a{}b{}c", "{} {} {}", "{x}{}", "}{{}", "no", "{}{", "{{}}{}", "%d{}%" }) for (auto & a : texts) for (auto & b : texts) for (int how = 0; how < 8; ++how) { tryMessage(m, { a, b }, how); if (&b == &texts[0]) tryMessage(m, { a }, how); }
	for (int how = 0; how < 8; ++how) { tryMessage("{}{}{}{}", { "1", "2", "3", "4" }, how); tryMessage("{}{}{}{}{}{}", { "1", "2", "3", "4" }, how); tryMessage("{}", { "1", "2", "3", "4" }, how); }
	ctx.outcome("messages");
	// Kinds of parameters.
	if (ctx.begin([] { return std::string("kinds of parameters"); })) {
		records()["rec:x"] = Record {};
		char buffer[] = "buf";
		log.info("{} {} {} {} {} {} {} {} {} {}", 1, -2L, 3ULL, 'c', true, "text", buffer, std::string("s"), std::string_view("view"), (short) 7);
		ctx.check(lineOf("rec:x") == "<1 -2 3 c true text buf s view 7>\n", "kinds of parameters", [&] { return lineOf("rec:x"); });
		records()["rec:x"] = Record {};
		BalauLogInfo(log, "{}", LoggingLevel::WARN);
		ctx.check(lineOf("rec:x") == "<WARN>\n", "kinds of parameters", [&] { return lineOf("rec:x"); });
	}
	// Long messages and parameters.
	for (size_t length : { 0, 1, 100, 1023, 1024, 1025, 4096, 100000 }) for (int k = 0; k < 3; ++k) {
		auto describe = [&] { return "length " + std::to_string(length) + " " + std::to_string(k); };
		if (!ctx.begin(describe)) continue;
		records()["rec:x"] = Record {};
		std::string t(length, 'l'), want = t;
		if (k == 0) log.info(t); else if (k == 1) { log.info("{}", t); } else { std::string m; want = ""; for (size_t i = 0; i < length / 10; ++i) { m += "{}-"; want += (i == 0 ? t : i == 1 ? "z" : "????") + "-"; } log.info(std::string_view(m), t, "z"); }
		auto line = lineOf("rec:x");
		ctx.check(k < 2 ? line == "<" + want + ">\n" : line.size() >= 3 && (length < 20 || line.compare(0, length + 4, "<" + t + "-z-") == 0), "long message", [&] { return describe() + vk::q(line.substr(0, 200)); });
	}

	// Abbreviated namespaces, of loggers that come first or whose namespaces are configured first, and inherited formats.
	const std::vector<std::string> choices = { "", "\"1 %ns %namespace\"", "\"2 %message %ns\"" };
	const std::vector<std::string> spaces = { ".", "aa", "aa.bb", "aa.bb.cc", "aa.x" };
	std::vector<int> c(5, 0);
	for (int config = 0; config < 243; ++config) for (int before = 0; before < 4; ++before) for (int route = 0; route < 2; ++route) {
		auto describe = [&] { return "inherited formats " + std::to_string(config) + ", loggers " + std::to_string(before) + ", route " + std::to_string(route); };
		if (!ctx.begin(describe)) continue;
		auto result = inChild([&] () -> std::string {
			Conf conf { { ".", { { "stream", "rec:x" } } } };
			int rest = config;
			for (size_t i = 0; i < 5; ++i, rest /= 3) if (rest % 3) { if (i) conf.push_back({ spaces[i], {} }); conf.back().options.push_back({ "format", choices[rest % 3] }); }
			const std::vector<std::pair<std::string, std::string>> names = { { "", "" }, { "aa", "aa" }, { "aa.bb", "a.bb" }, { "aa.bb.cc", "a.b.cc" }, { "aa.bb.cc.dd", "a.b.c.dd" }, { "aa.x", "a.x" }, { "aa.x.yy", "a.x.yy" }, { "q", "q" }, { "qq.r", "q.r" } };
			if (before & 1) for (auto & m : names) Logger::getLogger(m.first);
			if (before == 2) Logger::getLogger("aa.bb.cc.dd");
			if (before == 3) configure({ { "aa", { { "format", "old" } } }, { "aa.bb", { { "format", "old" } } } }, 0);
			configure(conf, route);
			for (auto & m : names) {
				Situation x { m.first, m.second, 2, false, "hello" };
				records()["rec:x"] = Record {};
				auto t = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
				Logger::getLogger(m.first).info("hello");
				auto f = effective(conf, m.first, "format", "\"%Y-%m-%d %H:%M:%S [%thread] %LEVEL - %namespace - %message\"");
				auto pieces = piecesOf(f.substr(1, f.size() - 2), x);
				if (!matches(lineOf("rec:x"), pieces, t, std::chrono::system_clock::to_time_t(std::chrono::system_clock::now()))) return m.first + " gives " + vk::q(lineOf("rec:x")) + " for " + f;
			}
			return "";
		});
		ctx.check(result.empty(), "inherited format", [&] { return describe() + "\n" + result; });
		++ctx.traces;
		ctx.transitions += 9;
		ctx.state(vk::hash(describe()));
		ctx.outcome("inherited");
	}
	return ctx.finish();
}
