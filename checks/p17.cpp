// P17: a logger emits a message exactly when its effective level admits it.
#include "logging.hpp"

const std::vector<std::string> spaces = { ".", "a", "a.b", "a.b.c", "b" };
const std::vector<std::string> loggers = { "", "a", "a.b", "a.b.c", "a.b.c.d", "a.x", "a.bb", "b", "b.c.d", "ab", "A", "c" };
const std::vector<std::string> choices = { "", "-", "error", "none", "trace", "warn", "info", "debug" };     // Not there, there without a level, levels.

Conf confOf(const std::vector<int> & c, bool reversed) {
	Conf r;
	for (size_t i = 0; i < c.size(); ++i) {
		auto & choice = choices[c[i]];
		Ns n { spaces[i], {} };
		if (i == 0) n.options.push_back({ "stream", "rec:x" });
		else if (choice.empty()) continue;
		if (i && c[i] == 1) n.options.push_back({ "flush", "true" });
		if (c[i] > 1) n.options.push_back({ "level", choice });
		r.push_back(n);
	}
	if (reversed) std::reverse(r.begin(), r.end());
	return r;
}

// Everything that shows the level of a logger, against the reference. Returns what is wrong.
std::string observe(const Conf & c, bool all, long & calls, const std::vector<Logger *> & known, vk::Ctx & ctx) {
	std::string wrong;
	for (size_t i = 0; i < loggers.size(); ++i) {
		auto & ns = loggers[i];
		if (!all && !known[i]) continue;
		Logger & l = Logger::getLogger(ns);
		if (known[i] && known[i] != &l) wrong += "another logger for " + ns + "; ";
		if (&Logger::getLogger(ns) != &l || (ns.empty() && (&Logger::globalLogger() != &l || &Logger::getLogger(".") != &l))) wrong += "two loggers for " + ns + "; ";
		if (l.getNamespace() != ns) wrong += "logger of " + l.getNamespace() + " for " + ns + "; ";
		std::string level = Util::Strings::toLower(effective(c, ns, "level", "info"));
		int admitted = severity(level);
		if ((int) l.getLevel() != admitted) wrong += ns + " has the level " + toString(l.getLevel()) + " instead of " + level + "; ";
		for (int s = 0; s < 5; ++s) {
			if (l.enabled(levelOf(s)) != (s <= admitted) || enabledBy(l, s) != (s <= admitted)) wrong += ns + " says " + levelNames[s] + " is " + (s <= admitted ? "not " : "") + "enabled; ";
			for (int how = 0; how < 12; ++how) {
				records()["rec:x"] = Record {};
				int evaluated = 0;
				if (how < 8) logBy(l, s, how, "m"); else logLambda(l, s, how - 8, [&] { ++evaluated; return std::string("m"); });
				++calls;
				if (records()["rec:x"].lines.size() != (s <= admitted ? 1u : 0u)) wrong += levelNames[s] + " by way " + std::to_string(how) + " on " + ns + " wrote " + std::to_string(records()["rec:x"].lines.size()) + " lines; ";
				if (how >= 8 && evaluated != (s <= admitted ? 1 : 0)) wrong += "the function of a message was called " + std::to_string(evaluated) + " times; ";
			}
		}
		if (wrong.size() > 400) break;
	}
	(void) ctx;
	return wrong;
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv);
	const bool deep = ctx.thorough();
	registerRecorder();
	// One configuration after another. Which loggers are there before the first, and before the second.
	auto run = [&] (const std::string & kind, const std::vector<std::vector<int>> & confs, int before, int route) {
		auto describe = [&] {
			std::string r = kind + ", loggers " + std::to_string(before) + ", route " + std::to_string(route) + ":";
			for (auto & c : confs) { r += " ["; for (size_t i = 0; i < c.size(); ++i) r += (i ? "," : "") + choices[c[i]]; r += "]"; }
			return r;
		};
		if (!ctx.begin(describe)) return;
		long calls = 0;
		auto result = inChild([&] {
			std::vector<Logger *> known(loggers.size(), nullptr);
			auto get = [&] (size_t i) { known[i] = &Logger::getLogger(loggers[i]); };
			if (before == 1) for (size_t i = 0; i < loggers.size(); ++i) get(i);
			if (before == 2) for (size_t i = loggers.size(); i-- > 0;) get(i);
			if (before == 3) get(3);
			if (before == 4) { get(2); get(8); }
			std::string wrong;
			for (size_t k = 0; k < confs.size() && wrong.empty(); ++k) {
				auto c = confOf(confs[k], before & 1);
				configure(c, route);
				// (The other loggers appear with the second configuration, or after the only one.)
				wrong = observe(c, k + 1 == confs.size(), calls, known, ctx);
				if (!wrong.empty()) wrong = "after configuration " + std::to_string(k) + ": " + wrong;
			}
			return wrong + "#" + std::to_string(calls);
		});
		auto at = result.rfind('#');
		std::string wrong = at == std::string::npos ? result : result.substr(0, at);
		ctx.check(wrong.empty(), "levels " + kind, [&] { return describe() + "\n" + wrong; });
		++ctx.traces;
		if (at != std::string::npos) ctx.transitions += std::stol(result.substr(at + 1));
		ctx.state(vk::hash(describe()));
		ctx.outcome(kind);
	};
	// All single configurations with five choices per namespace (thorough: all eight).
	{
		std::vector<int> base(5, deep ? 8 : 3);
		if (!deep) { base[0] = base[1] = base[2] = 5; base[3] = 3; base[4] = 3; }
		std::vector<int> c(5, 0);
		for (;;) {
			long sum = 0;
			for (int x : c) sum = sum * 8 + x;
			if (deep) { for (int before : { 0, 2, 3 }) run("single", { c }, before, 0); }
			else run("single", { c }, (int) (sum % 5), sum % 7 == 0);
			size_t i = 0;
			while (i < 5 && ++c[i] == base[i]) c[i++] = 0;
			if (i == 5) break;
		}
	}
	// Every level on every namespace alone, in all letter cases.
	for (size_t n = 0; n < spaces.size(); ++n) for (int l = 2; l < 8; ++l) for (int before = 0; before < 5; ++before) for (int route = 0; route < 2; ++route) {
		std::vector<int> c(5, 0);
		c[n] = l;
		run("alone", { c }, before, route);
	}
	for (int l = 2; l < 8; ++l) for (int letters = 0; letters < 3; ++letters) {
		auto describe = [&] { return "letters " + std::to_string(letters) + " of " + choices[l]; };
		if (!ctx.begin(describe)) continue;
		auto result = inChild([&] {
			std::string t = choices[l];
			for (size_t i = 0; i < t.size(); ++i) if (letters == 0 || (letters == 1 && i == 0) || (letters == 2 && i % 2)) t[i] = std::toupper(t[i]);
			Conf c { { ".", { { "stream", "rec:x" } } }, { "a", { { "level", t } } } };
			long calls = 0;
			configure(c, 0);
			return observe(c, true, calls, std::vector<Logger *>(loggers.size(), nullptr), ctx);
		});
		ctx.check(result.empty(), "letter case of levels", [&] { return describe() + "\n" + result; });
		ctx.state(vk::hash(describe()));
	}
	// Pairs (thorough: triples) of configurations of three namespaces with four choices.
	{
		const int per = deep ? 5 : 4;
		std::vector<std::vector<int>> all;
		for (int x = 0; x < per * per * per; ++x) all.push_back({ x % per == 1 ? 4 : x % per, x / per % per == 1 ? 4 : x / per % per, x / per / per == 1 ? 1 : x / per / per });
		for (size_t x = 0; x < all.size(); ++x) for (size_t y = 0; y < all.size(); ++y) {
			run("pair", { all[x], all[y] }, (int) ((x + y) % 5), (x * 3 + y) % 11 == 0);
			if (deep) for (size_t z = (x + y) % 5; z < all.size(); z += 9) run("triple", { all[x], all[y], all[z] }, (int) ((x + y + z) % 5), 0);
		}
	}
	// Back to the initial configuration, failed configurations, locked configurations.
	for (int first = 0; first < 8; ++first) for (int before = 0; before < 5; ++before) for (int what = 0; what < 8; ++what) {
		auto describe = [&] { return "first " + choices[first] + ", loggers " + std::to_string(before) + ", then " + std::to_string(what); };
		if (!ctx.begin(describe)) continue;
		auto result = inChild([&] () -> std::string {
			std::vector<Logger *> known(loggers.size(), nullptr);
			for (size_t i = 0; i < loggers.size(); ++i) if (before == 1 || (before == 2 && i % 2) || (before == 3 && i == 3) || (before == 4 && i == 4)) known[i] = &Logger::getLogger(loggers[i]);
			auto c = confOf({ first, first ? 9 - std::max(first, 2) : 0, first }, false);
			configure(c, 0);
			long calls = 0;
			Conf other { { ".", { { "level", "none" } } }, { "a.b", { { "level", "trace" } } } };
			Capture capture;
			switch (what) {
				case 0: {       // The default: info, on the standard streams.
					Logger::resetConfiguration();
					std::string wrong;
					for (size_t i = 0; i < loggers.size(); ++i) {
						Logger & l = Logger::getLogger(loggers[i]);
						if (l.getLevel() != LoggingLevel::INFO) wrong += loggers[i] + " has the level " + toString(l.getLevel()) + "; ";
						for (int s = 0; s < 5; ++s) {
							capture.out.str(""); capture.err.str("");
							logBy(l, s, 0, "m");
							auto lines = [] (const std::string & t) { return std::count(t.begin(), t.end(), '\n'); };
							if (lines(capture.out.str()) != (s == 1 || s == 2) || lines(capture.err.str()) != (s == 0)) wrong += levelNames[s] + " of " + loggers[i] + " after a reset; ";
						}
					}
					return wrong;
				}
				case 1: try { Logger::configure("a {\n level = trace\n"); return "accepted"; } catch (const std::exception &) {} break;
				case 2: try { Logger::configure("a.b {\n level = trace\n}\n}\n"); return "accepted"; } catch (const std::exception &) {} break;
				case 3: Logger::lockConfiguration(); configure(other, 0); break;
				case 4: Logger::lockConfiguration(); Logger::resetConfiguration(); configure(other, 1); break;
				case 5: Logger::lockConfiguration(true); try { configure(other, 0); return "no exception"; } catch (const Exception::LoggingConfigurationException &) {} break;
				case 6: Logger::lockConfiguration(true); try { configure(other, 1); return "no exception"; } catch (const Exception::LoggingConfigurationException &) {} break;
				default: Logger::lockConfiguration(true); try { Logger::resetConfiguration(); return "no exception"; } catch (const Exception::LoggingConfigurationException &) {} break;
			}
			return observe(c, true, calls, known, ctx);
		});
		ctx.check(result.empty(), what == 0 ? "reset" : what < 3 ? "failed configuration" : "locked configuration", [&] { return describe() + "\n" + result; });
		ctx.state(vk::hash(describe()));
		++ctx.traces;
		ctx.outcome(what == 0 ? "reset" : what < 3 ? "failed" : "locked");
	}
	return ctx.finish();
}
