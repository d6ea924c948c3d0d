// P19: each message reaches exactly the stream configured for its level.
#include "logging.hpp"
#include <filesystem>

const std::vector<std::string> options = { "error-stream", "warn-stream", "info-stream", "debug-stream", "trace-stream", "stream" };

// The stream of a level: of the nearest namespace with any stream option; its option for the level, its general option, that
// of the next lower level (towards error) which has one, that of the next higher one.
std::string streamOf(const Conf & c, std::string ns, int s) {
	std::map<std::string, std::string> o;
	for (;; ns = parentOf(ns)) {
		for (auto & k : options) if (auto v = option(c, ns, k)) o[k] = *v;
		if (!o.empty()) break;
		if (ns.empty()) { o = { { "warn-stream", "stdout" }, { "error-stream", "stderr" } }; break; }
	}
	if (o.count(options[s])) return o[options[s]];
	if (o.count("stream")) return o["stream"];
	for (int i = s; i >= 0; --i) if (o.count(options[i])) return o[options[i]];
	for (int i = s; i < 5; ++i) if (o.count(options[i])) return o[options[i]];
	return "";
}

struct Where { std::map<std::string, int> count; };

// Logs at every level with every logger and compares where the lines are. "?" streams are invalid: lines for them may go to a
// standard stream or nowhere.
std::string observe(const Conf & c, const std::vector<std::string> & names, long & calls) {
	std::string wrong;
	for (auto & n : names) for (int s = 0; s < 5; ++s) {
		for (auto & r : records()) r.second = Record {};
		std::string message = "m " + n + " " + levelNames[s];
		std::map<std::string, std::string> got;
		{
			Capture capture;
			logBy(Logger::getLogger(n), s, (s + (int) n.size()) % 8, message.c_str());
			++calls;
			if (!capture.out.str().empty()) got["stdout"] = capture.out.str();
			if (!capture.err.str().empty()) got["stderr"] = capture.err.str();
		}
		for (auto & r : records()) { std::string t; for (auto & l : r.second.lines) t += l; if (!t.empty()) got[r.first] = t; }
		std::string stream = streamOf(c, n, s);
		if (stream.size() > 2 && stream.front() == '"') stream = stream.substr(1, stream.size() - 2);
		bool invalid = stream.compare(0, 3, "rec") && stream != "stdout" && stream != "stderr";
		bool flush = effective(c, n, "flush", "true") != "false";
		if (invalid) {
			for (auto & g : got) if (g.first.compare(0, 3, "std")) wrong += levelNames[s] + " of " + n + " is in " + g.first + " instead of an invalid stream; ";
			if (got.size() > 1) wrong += levelNames[s] + " of " + n + " is in two streams; ";
		} else {
			if (got != std::map<std::string, std::string> { { stream, message + "\n" } }) {
				wrong += levelNames[s] + " of " + n + " should be in " + stream + " and is in";
				for (auto & g : got) wrong += " " + g.first + ":" + vk::q(g.second);
				wrong += "; ";
			} else if (stream.compare(0, 3, "rec") == 0 && records()[stream].flushes != (flush ? 1 : 0)) wrong += n + " flushed " + std::to_string(records()[stream].flushes) + " times; ";
		}
		if (Logger::getLogger(n).flushes() != flush) wrong += n + ".flushes() is wrong; ";
		if (wrong.size() > 500) return wrong;
	}
	// Flushing on demand reaches the unflushed streams.
	for (auto & n : names) for (int all = 0; all < 2; ++all) {
		for (auto & r : records()) r.second = Record {};
		Logger & l = Logger::getLogger(n);
		{
			Capture capture;
			for (int s = 0; s < 5; ++s) logBy(l, s, 0, "x");
			if (all) Logger::flushAll(); else l.flush();
		}
		for (auto & r : records()) if (!r.second.flushed) wrong += r.first + " is not flushed by " + (all ? "flushAll" : n + ".flush()") + "; ";
	}
	return wrong;
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	const bool deep = ctx.thorough();
	registerRecorder();
	auto format = [] (Conf c) { bool root = false; for (auto & n : c) if (n.name == ".") { root = true; n.options.push_back({ "format", "%message" }); n.options.push_back({ "level", "trace" }); } if (!root) c.insert(c.begin(), { ".", { { "format", "%message" }, { "level", "trace" } } }); return c; };
	auto run = [&] (const std::string & kind, const std::string & title, const std::vector<Conf> & confs, int before, int route, bool invalid = false) {
		auto describe = [&] { return kind + " " + title + ", loggers " + std::to_string(before) + ", route " + std::to_string(route); };
		if (!ctx.begin(describe)) return;
		const std::vector<std::string> names = { "", "p", "p.c", "p.c.d", "p.x", "q" };
		long calls = 0;
		auto result = inChild([&] {
			if (before == 1) for (auto & n : names) Logger::getLogger(n);
			if (before == 2) Logger::getLogger("p.c.d");
			std::string wrong;
			for (size_t i = 0; i < confs.size() && wrong.empty(); ++i) {
				std::string reported;
				for (auto & r : records()) r.second = Record {};
				{
					Capture capture;
					configure(format(confs[i]), route);
					reported = capture.out.str() + capture.err.str();
				}
				for (auto & r : records()) for (auto & l : r.second.lines) reported += l;
				if (invalid && reported.empty()) wrong = "the invalid setting is not reported";
				if (!invalid && !reported.empty()) wrong = "reported " + reported;
				if (wrong.empty()) wrong = observe(format(confs[i]), names, calls);
				if (!wrong.empty()) wrong = "configuration " + std::to_string(i) + ": " + wrong + "\n" + textOf(format(confs[i]));
			}
			return wrong + "#" + std::to_string(calls);
		});
		auto at = result.rfind('#');
		std::string wrong = at == std::string::npos ? result : result.substr(0, at);
		ctx.check(wrong.empty(), "streams " + kind, [&] { return describe() + "\n" + wrong; });
		++ctx.traces;
		if (at != std::string::npos) ctx.transitions += std::stol(result.substr(at + 1));
		ctx.state(vk::hash(describe()));
		ctx.outcome(kind);
	};
	// All subsets of the stream options of one namespace, with all subsets (quick: some) for an ancestor, and choices for the root.
	auto subset = [&] (const std::string & ns, int bits, const std::string & tag, bool sharing = false) {
		Ns n { ns, {} };
		for (int i = 0; i < 6; ++i) if (bits >> i & 1) n.options.push_back({ options[i], "rec:" + tag + (sharing ? std::to_string(i % 2) : std::to_string(i)) });
		return n;
	};
	int n = 0;
	for (int own = 0; own < 64; ++own) for (int up = 0; up < 64; ++up) {
		if (!deep && up > 3 && up != 32 && up != 35 && up != 48 && own > 3 && own != 32 && own != 35 && own != 49 && (own * 7 + up) % 5) continue;
		for (int root = 0; root < (deep ? 6 : 3); ++root) {
			++n;
			const int roots[] = { 0, 32, 3, 1, 16, 63 };
			if (!deep && root && (own + up + root) % 3) continue;
			Conf c { subset(".", roots[root], "r"), subset("p", up, "p"), subset("p.c", own, "c") };
			if (!up && n % 2) c.erase(c.begin() + 1);
			if (n % 3 == 0) std::reverse(c.begin(), c.end());
			run("inheritance", std::to_string(own) + "/" + std::to_string(up) + "/" + std::to_string(roots[root]), { c }, n % 3, n % 7 == 0);
		}
	}
	// Standard streams, shared streams, quoted streams.
	for (int own = 0; own < 64; ++own) for (int kind = 0; kind < 4; ++kind) for (int before = 0; before < 3; ++before) {
		Conf c { subset("p", own, "s", true) };
		for (auto & o : c[0].options) o.second = kind == 0 ? o.second : kind == 1 ? (o.first[0] % 2 ? "stdout" : "stderr") : kind == 2 ? (o.first[0] % 2 ? "stdout" : o.second) : "\"" + o.second + "\"";
		run("kinds", std::to_string(own) + "/" + std::to_string(kind), { c }, before, own % 2);
	}
	// Flush settings in all places.
	for (int f = 0; f < 81; ++f) for (int before = 0; before < 3; ++before) for (int route = 0; route < 2; ++route) {
		Conf c { subset(".", 32, "r"), { "p", {} }, subset("p.c", 3, "c"), { "p.x", {} } };
		int rest = f;
		for (auto & x : c) { if (rest % 3) x.options.push_back({ "flush", rest % 3 == 1 ? "true" : "false" }); rest /= 3; }
		run("flush", std::to_string(f), { c }, before, route);
	}
	// One configuration after another.
	{
		std::vector<Conf> all;
		for (int up : { 0, 32, 3, 33 }) for (int own : { 0, 32, 1, 20 }) for (int root : { 0, 32 }) all.push_back({ subset(".", root, "r"), subset("p", up, "p"), subset("p.c", own, up == 3 ? "p" : "c") });
		for (size_t a = 0; a < all.size(); ++a) for (size_t b = 0; b < all.size(); ++b) { run("reconfiguration", std::to_string(a) + "," + std::to_string(b), { all[a], all[b] }, (a + b) % 3, (a * 5 + b) % 4 == 0); if (deep) for (size_t d = 0; d < all.size(); ++d) run("reconfiguration", std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(d), { all[a], all[b], all[d] }, (a + b + d) % 3, 0); }
	}
	// Streams that cannot be had, beside others that can.
	{
		std::string dir = ctx.scratch + "/dir" + std::to_string(getpid());
		std::filesystem::create_directories(dir + "/sub");
		std::ofstream(dir + "/plain") << "";
		const std::vector<std::string> bad = { "nope", "nope:1", "file:x", "file:/x", "file://host/x", "file://" + dir + "/sub", "file://" + dir + "/plain/below", "file:///proc/nothing/here", "throws:1", ":", "REC:1" };
		Logger::registerLoggingStreamFactory("throws", [] (std::string_view) -> LoggingStream * { throw std::runtime_error("no stream"); });
		for (size_t b = 0; b < bad.size(); ++b) for (int own = 0; own < 64; ++own) for (int which = 0; which < 6; ++which) {
			if (!(own >> which & 1)) continue;
			Conf c { subset("p", own, "s"), subset("p.x", 32, "x") };
			for (auto & o : c[0].options) if (o.first == options[which]) o.second = bad[b];
			// (Not every stream that is configured is needed.)
			bool needed = false;
			for (int s = 0; s < 5; ++s) if (streamOf(c, "p", s) == bad[b]) needed = true;
			if (!needed) continue;
			run("invalid", bad[b].substr(0, bad[b].find(dir)) + (b == 5 ? " directory" : b == 6 ? " below a file" : "") + " " + std::to_string(own) + "/" + std::to_string(which), { c }, which % 3, (own + which) % 5 == 0, true);
		}
		// Invalid levels and flush settings: reported, and messages are not lost at error level.
		for (std::string l : { "loud", "infoo", "5", "all" }) for (int route = 0; route < 2; ++route) {
			auto describe = [&] { return "invalid level " + l + " " + std::to_string(route); };
			if (!ctx.begin(describe)) continue;
			auto result = inChild([&] () -> std::string {
				std::string reported;
				for (auto & r : records()) r.second = Record {};
				{ Capture capture; configure({ { ".", { { "stream", "rec:x" } } }, { "p", { { "level", l } } } }, route); reported = capture.out.str() + capture.err.str(); }
				Logger::getLogger("p.c").error("e");
				Logger::getLogger("q").info("i");
				if (records()["rec:x"].lines.size() != 2) return "messages are lost";
				return reported.empty() ? "not reported" : "";
			});
			ctx.check(result.empty(), "invalid level", [&] { return describe() + "\n" + result; });
		}
	}
	// Files: every line of every logger, in order, behind what is there; shared files; new folders; placeholders; includes.
	for (int existing = 0; existing < 2; ++existing) for (int shared = 0; shared < 2; ++shared) for (int folder = 0; folder < 2; ++folder) for (int flush = 0; flush < 2; ++flush) for (int again = 0; again < 3; ++again) for (int named = 0; named < 4; ++named) for (int route = 0; route < (named > 0 ? 1 : 2); ++route) {
		auto describe = [&] { return "files " + std::to_string(existing) + std::to_string(shared) + std::to_string(folder) + std::to_string(flush) + std::to_string(again) + std::to_string(named) + std::to_string(route); };
		if (!ctx.begin(describe)) continue;
		std::string dir = ctx.scratch + "/f";
		std::filesystem::remove_all(dir);
		std::filesystem::create_directories(dir);
		std::string a = dir + (folder ? "/n/m/a.log" : "/a.log"), b = shared ? a : dir + "/b.log";
		if (existing) { std::filesystem::create_directories(std::filesystem::path(a).parent_path()); std::ofstream(a) << "before\n"; }
		auto result = inChild([&] () -> std::string {
			Capture capture;
			auto uri = [&] (const std::string & p) { return named == 1 ? "${place}" + p.substr(dir.size()) : named == 2 ? "${outer}" + p.substr(dir.size()) : "file://" + p; };
			Conf c { { ".", { { "format", "%namespace %message" }, { "level", "trace" } } }, { "p", { { "stream", uri(a) }, { "flush", flush ? "true" : "false" } } }, { "p.c", { { "stream", uri(b) }, { "flush", flush ? "true" : "false" } } } };
			auto configureIt = [&] {
				if (named == 3) { std::ofstream(dir + "/included.hconf") << textOf(c); std::ofstream(dir + "/more.hconf") << "@included.hconf\n"; Logger::configure("q {\n stream = stdout\n}\n@file:" + dir + "/more.hconf\n"); }
				else if (named) Logger::configure(textOf(c), { { "place", "file://" + dir }, { "outer", "file://${inner}" }, { "inner", dir } });
				else configure(c, route);
			};
			configureIt();
			std::string wantA = existing ? "before\n" : "", wantB;
			for (int i = 0; i < 6; ++i) {
				Logger::getLogger(i % 2 ? "p.c" : "p.x").warn("line {}", i);
				(i % 2 && !shared ? wantB : wantA) += (i % 2 ? "p.c line " : "p.x line ") + std::to_string(i) + "\n";
				auto read = [] (const std::string & p) { std::ifstream s(p); std::stringstream t; t << s.rdbuf(); return t.str(); };
				if (!flush) { if (i % 3 == 0) Logger::flushAll(); else if (i % 3 == 1) Logger::getLogger(i % 2 ? "p.c" : "p.x").flush(); }
				if (flush || i % 3 == 0) { if (read(a) != wantA) return "file a has " + vk::q(read(a)) + " instead of " + vk::q(wantA); if (!shared && read(b) != wantB) return "file b has " + vk::q(read(b)); }
				// (A configuration flushes.)
				if (again == 1 && i == 2) { configureIt(); if (read(a) != wantA) return "not flushed by a configuration"; }
				if (again == 2 && i == 2) { Logger::resetConfiguration(); Logger::getLogger("p.c").warn("elsewhere"); if (read(a) != wantA) return "not flushed by a reset: " + vk::q(read(a)); configureIt(); }
			}
			return "";
		});
		ctx.check(result.empty(), named == 3 ? "included configuration" : named ? "placeholders" : "files", [&] { return describe() + "\n" + result; });
		++ctx.traces;
		ctx.transitions += 6;
		ctx.state(vk::hash(describe()));
		ctx.outcome("files");
	}
	return ctx.finish();
}
