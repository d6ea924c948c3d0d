// P20: concurrent logging, logger creation and configuration.
#include <thread>
#include <fstream>
#include "logging.hpp"
#include "vsched.hpp"

typedef std::string S;
static vk::Ctx * C;

// A stream that keeps what it is given, with the thread that gave it (outside of the explored program).
struct Line { S uri, text; int tid; bool flush; };
static std::vector<Line> & lines() { static std::vector<Line> l; return l; }
struct Keeper : LoggingStream {
	S uri;
	explicit Keeper(std::string_view u) : uri(u) {}
	void write(const LoggingSystem::LoggerString & s) override { vs::point(); vs::Quiet q; lines().push_back({ uri, S(s.data(), s.size()), vs::tid(), false }); vs::event(vk::hash(uri + S(s.data(), s.size()))); }
	void flush() override { vs::Quiet q; lines().push_back({ uri, "", vs::tid(), true }); }
};
static void registerKeeper(const S & scheme = "rec") { Logger::registerLoggingStreamFactory(scheme, [] (std::string_view uri) -> LoggingStream * { return new Keeper(uri); }); }

static S conf(const S & level, const S & format, const S & stream, const S & rest = "") {
	return ". {\n level = " + level + "\n format = " + format + "\n stream = " + stream + "\n}\n" + rest;
}
static S all() { S r; for (auto & l : lines()) r += (l.flush ? "flush " : "") + l.uri + " " + vk::q(l.text) + "; "; return r; }
static size_t count(const S & uri, const S & text) { size_t n = 0; for (auto & l : lines()) n += !l.flush && l.uri == uri && l.text == text; return n; }
static size_t writes() { size_t n = 0; for (auto & l : lines()) n += !l.flush; return n; }
static void expect(bool ok, const S & key, const S & detail) { if (!ok) vs::fail(key, detail); }

typedef std::function<void ()> Work;
static void together(const std::vector<Work> & works) {
	std::vector<std::thread> ts;
	for (size_t i = 1; i < works.size(); ++i) ts.emplace_back(works[i]);
	works[0]();
	for (auto & t : ts) t.join();
}
// The order of the messages of one thread.
static void inOrder(const S & prefix) {
	int last = -1;
	for (auto & l : lines()) { auto at = l.text.find(prefix); if (l.flush || at == S::npos) continue; int n = atoi(l.text.c_str() + at + prefix.size()); expect(n > last, "order", all()); last = n; }
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv); C = &ctx;
	bool deep = ctx.thorough();
	vs::Bounds b;
	b.isolate = true; b.split = true; b.maxSteps = 200000;
	auto explore = [&] (const S & name, int quick, int thorough, const Work & body, const Work & before = nullptr, bool stranded = false) {
		vs::Bounds bb = b;
		bb.preemptions = deep ? thorough : quick;
		if (before) before(); // In the parent process: every schedule starts from there.
		vs::explore(ctx, name, bb, body,
			stranded ? std::function<S (const std::vector<vs::Blocked> &)>([] (const std::vector<vs::Blocked> & s) {
				for (auto & x : s) if (x.tid == 0 || x.label != "") return "thread " + std::to_string(x.tid) + " never goes on (" + x.what + ")";
				return S();
			}) : std::function<S (const std::vector<vs::Blocked> &)>());
	};
	// The state every scenario but the first ones starts from.
	auto started = [] { registerKeeper(); Logger::configure(conf("info", "%message", "rec:one")); lines().clear(); };
	auto base = [&] (const S & text) { return Work([text] { registerKeeper(); Logger::configure(text); lines().clear(); }); };

	// 1. The very first use by several threads.
	explore("first use by two threads: logger and logger", 1, 2, [&] {
		Logger * g[2];
		together({ [&] { vs::label("thread"); g[0] = &Logger::getLogger("a.b"); }, [&] { vs::label("thread"); g[1] = &Logger::getLogger("a.b"); } });
		expect(g[0] == g[1] && g[0]->getNamespace() == "a.b" && g[0]->infoEnabled() && !g[0]->debugEnabled(), "oneLogger", "");
	});
	explore("first use by two threads: logger and configuration", 1, 1, [&] {
		Logger * g;
		together({ [&] { vs::label("thread"); g = &Logger::getLogger("a.b"); }, [&] { vs::label("thread"); registerKeeper(); Logger::configure(conf("debug", "%message", "rec:one")); } });
		expect(g == &Logger::getLogger("a.b") && g->debugEnabled() && !g->traceEnabled(), "configuration", "");
		g->debug("x");
		expect(count("rec:one", "x\n") == 1 && writes() == 1, "message", all());
	});

	// 2. Threads that obtain loggers: one logger for each namespace.
	const std::vector<std::vector<S>> names {
		{ "a", "a" }, { "a.b", "a.b" }, { "a", "a.b" }, { "a.b", "a.c" }, { "a.b.c", "a.b" }, { "", "a" }, { "ab", "a.b" }, { "a.b", "a.b", "a.b" }, { "a", "a.b", "a.c" }, { "a.b", "a", "b" },
	};
	for (auto & v : names) for (int use = 0; use < 2; ++use) {
		S n; for (auto & x : v) n += " '" + x + "'";
		explore("threads obtain the loggers" + n + (use ? " and log" : ""), v.size() == 3 ? 1 : 2, v.size() == 3 ? 2 : 3, [&] {
			std::vector<Logger *> got(v.size());
			std::vector<Work> w;
			for (size_t i = 0; i < v.size(); ++i) w.push_back([&, i] { vs::label("thread"); Logger & l = Logger::getLogger(v[i]); got[i] = &l; if (use) l.info("t{} {}", (int) i, 0); });
			together(w);
			for (size_t i = 0; i < v.size(); ++i) {
				expect(got[i] == &Logger::getLogger(v[i]), "oneLogger", "the logger of '" + v[i] + "' is another one later");
				expect(got[i]->getNamespace() == v[i], "namespace", "'" + got[i]->getNamespace() + "' instead of '" + v[i] + "'");
				expect(got[i]->infoEnabled() && !got[i]->debugEnabled(), "configuration", "the configuration of '" + v[i] + "' is not that of its parent");
				for (size_t j = 0; j < i; ++j) expect((got[i] == got[j]) == (v[i] == v[j]), "oneLogger", "'" + v[i] + "' and '" + v[j] + "'");
				if (use) expect(count("rec:one", "t" + std::to_string(i) + " 0\n") == 1, "message", all());
			}
			if (use) expect(writes() == v.size(), "messages", all());
			vs::outcome(all());
		}, started);
	}

	// 3. Threads that log, with an unchanged configuration.
	for (int threads = 2; threads <= 3; ++threads) for (int how = 0; how < 4; ++how) {
		static const char * const hows[] = { "one logger", "a logger each", "parameters", "levels" };
		explore(std::to_string(threads) + " threads log twice each: " + hows[how], threads == 3 || how > 1 ? 1 : 2, threads == 3 ? 2 : 3, [&] {
			Logger & common = Logger::getLogger("a");
			std::vector<Work> w;
			for (int i = 0; i < threads; ++i) w.push_back([&, i] {
				vs::label("thread");
				Logger & l = how == 1 ? Logger::getLogger("a.t" + std::to_string(i)) : common;
				for (int k = 0; k < 2; ++k) {
					S m = "t" + std::to_string(i) + "-" + std::to_string(k);
					if (how == 2) l.warn("t{}-{}", i, k);
					else if (how == 3) { l.debug("no"); l.log(k ? LoggingLevel::ERROR : LoggingLevel::INFO, m); }
					else l.info(m);
				}
			});
			together(w);
			for (int i = 0; i < threads; ++i) {
				for (int k = 0; k < 2; ++k) {
					S m = "t" + std::to_string(i) + "-" + std::to_string(k);
					S want = "[a" + S(how == 1 ? ".t" + std::to_string(i) : "") + "] " + (how == 2 ? "WARN" : how == 3 && k ? "ERROR" : "INFO") + " " + m + "\n";
					expect(count("rec:one", want) == 1, "message", m + ": " + all());
				}
				inOrder("t" + std::to_string(i) + "-");
			}
			expect(writes() == (size_t) threads * 2, "messages", all());
			// The flush option is on by default: every message is followed by a flush of its thread.
			for (size_t i = 0; i < lines().size(); ++i) if (!lines()[i].flush) {
				size_t j = i + 1;
				while (j < lines().size() && lines()[j].tid != lines()[i].tid) ++j;
				expect(j < lines().size() && lines()[j].flush, "flush", all());
			}
			S o; for (auto & l : lines()) if (!l.flush) o += l.text;
			vs::outcome(o);
		}, base(conf("info", "[%namespace] %LEVEL %message", "rec:one")));
	}
	// To a file: what is in the file are the lines, unbroken.
	for (int threads = 2; threads <= 3; ++threads) for (int flush = 0; flush < 2; ++flush) {
		explore(std::to_string(threads) + " threads log to a file" + (flush ? "" : ", unflushed"), 1, threads == 3 ? 1 : 2, [&] {
			S file = C->scratch + "/log" + std::to_string(getpid());
			{
				vs::Quiet q;
				unlink(file.c_str());
			}
			Logger::configure(". {\n level = info\n format = %message\n stream = \"file://" + file + "\"\n flush = " + (flush ? "true" : "false") + "\n}\n");
			Logger & l = Logger::getLogger("a");
			std::vector<Work> w;
			for (int i = 0; i < threads; ++i) w.push_back([&, i] { vs::label("thread"); l.info("t{} {}", i, S(40, (char) ('a' + i))); if (flush == 0 && i == 0) l.flush(); });
			together(w);
			Logger::flushAll();
			vs::Quiet q;
			std::ifstream in(file);
			S text((std::istreambuf_iterator<char>(in)), {});
			unlink(file.c_str());
			size_t length = 0;
			for (int i = 0; i < threads; ++i) {
				S want = "t" + std::to_string(i) + " " + S(40, (char) ('a' + i)) + "\n";
				size_t at = text.find(want);
				expect(at != S::npos && (at == 0 || text[at - 1] == '\n'), "file", vk::q(text));
				length += want.size();
			}
			expect(text.size() == length, "file", vk::q(text));
			vs::outcome(text);
		}, nullptr, true);
	}

	// 4. Logging while the configuration is replaced by an equal one: every message once.
	const std::vector<std::pair<S, S>> equal {
		{ "an equal one", conf("debug", "<%message>", "rec:one") },
		{ "an equal one with an explicit child", conf("debug", "<%message>", "rec:one", "a.b {\n level = debug\n}\n") },
	};
	for (auto & e : equal) for (const char * name : { "a", "a.b" }) {
		explore("logging by " + S(name) + " while the configuration is replaced by " + e.first, 1, 2, [&] {
			Logger & l = Logger::getLogger(name);
			together({ [&] { vs::label("thread"); l.debug("m0"); l.debug("m1"); }, [&] { vs::label("thread"); Logger::configure(e.second); } });
			expect(count("rec:one", "<m0>\n") == 1 && count("rec:one", "<m1>\n") == 1 && writes() == 2, "message", all());
			inOrder("<m");
		}, base(e.second));
	}
	// By another one: a message is written at most once, whole, in the old or the new way, and by the new one afterwards.
	struct Change { S name, from, to; std::vector<S> uris, texts; bool must; };
	const std::vector<Change> changes {
		{ "another format", conf("info", "<%message>", "rec:one"), conf("info", "[%message]", "rec:one"), { "rec:one" }, { "<m>\n", "[m]\n" }, true },
		{ "another stream", conf("info", "%message", "rec:one"), conf("info", "%message", "rec:two"), { "rec:one", "rec:two" }, { "m\n" }, true },
		{ "a lower level", conf("info", "%message", "rec:one"), conf("error", "%message", "rec:one"), { "rec:one" }, { "m\n" }, false },
		{ "another stream, level and format", conf("warn", "<%message>", "rec:one"), conf("info", "[%message]", "rec:two"), { "rec:one", "rec:two" }, { "<m>\n", "[m]\n" }, false },
		{ "streams for levels", conf("info", "%message", "rec:one"), ". {\n level = info\n format = %message\n error-stream = rec:two\n info-stream = rec:three\n}\n", { "rec:one", "rec:three" }, { "m\n" }, true },
	};
	for (auto & c : changes) for (int fresh = 0; fresh < 2; ++fresh) {
		explore("logging" + S(fresh ? " by a new logger" : "") + " while the configuration is replaced: " + c.name, 1, 2, [&] {
			Logger * old = fresh ? nullptr : &Logger::getLogger("a.b");
			together({ [&] { vs::label("thread"); Logger & l = old ? *old : Logger::getLogger("a.b"); l.info("m"); }, [&] { vs::label("thread"); Logger::configure(c.to); } });
			size_t n = writes();
			expect(n <= 1 && (n == 1 || !c.must), "message", all());
			if (n) {
				bool ok = false;
				for (auto & u : c.uris) for (auto & t : c.texts) ok |= count(u, t) == 1;
				expect(ok, "whole", all());
			}
			vs::outcome(all());
			// Afterwards it is the new one that counts.
			lines().clear();
			Logger & l = Logger::getLogger("a.b");
			l.error("later"); l.info("m"); l.debug("no");
			bool infos = c.to.find("level = info") != S::npos;
			S f = c.to.find("[%message]") != S::npos ? "[m]\n" : "m\n";
			expect(count(c.uris.back(), f) == (infos ? 1 : 0) && writes() == (infos ? 2 : 1), "later", all());
		}, base(c.from));
	}
	// 5. Two configurations at once: one of them counts afterwards, for every logger.
	for (int fresh = 0; fresh < 2; ++fresh) {
		explore(S("two configurations at once") + (fresh ? " and a new logger" : ""), 1, 2, [&] {
			Logger * a = &Logger::getLogger("a"), * ab = &Logger::getLogger("a.b");
			S one = conf("debug", "1%message", "rec:one", "a.b {\n level = error\n}\n"), two = conf("error", "2%message", "rec:two", "a {\n level = trace\n}\n");
			std::vector<Work> w { [&] { vs::label("thread"); Logger::configure(one); }, [&] { vs::label("thread"); Logger::configure(two); } };
			Logger * d = nullptr;
			if (fresh) w.push_back([&] { vs::label("thread"); d = &Logger::getLogger("a.b.d"); });
			together(w);
			bool first = Logger::getLogger("").debugEnabled();
			S o = first ? "first" : "second";
			expect(a->traceEnabled() == !first && a->debugEnabled(), "mixed", o);
			expect(ab->warnEnabled() == !first && ab->traceEnabled() == !first && ab->errorEnabled(), "mixed", o);
			if (d) expect(d->warnEnabled() == !first && d == &Logger::getLogger("a.b.d"), "mixed", o);
			for (Logger * l : { a, ab, d ? d : ab }) { lines().clear(); l->error("m"); expect(count(first ? "rec:one" : "rec:two", first ? "1m\n" : "2m\n") == 1 && writes() == 1, "mixed", o + ": " + all()); }
			vs::outcome(o);
		}, started);
	}
	// 6. Everything else together.
	explore("configuration and lock at once", 1, 2, [&] {
		bool threw = false;
		together({ [&] { vs::label("thread"); try { Logger::configure(conf("debug", "%message", "rec:two")); } catch (const Exception::LoggingConfigurationException &) { threw = true; } }, [&] { vs::label("thread"); Logger::lockConfiguration(true); } });
		bool configured = Logger::getLogger("x").debugEnabled();
		expect(threw == !configured, "locked", configured ? "threw but configured" : "neither configured nor threw");
		try { Logger::configure(conf("trace", "%message", "rec:two")); vs::fail("locked", "configured later"); } catch (const Exception::LoggingConfigurationException &) {}
		vs::outcome(configured ? "configured" : "locked");
	}, started);
	explore("new scheme and configuration at once", 1, 2, [&] {
		Capture * capture; { vs::Quiet q; capture = new Capture; }
		together({ [&] { vs::label("thread"); registerKeeper("ano"); }, [&] { vs::label("thread"); Logger::configure(conf("info", "%message", "rec:two")); } });
		Logger::configure(conf("info", "%message", "ano:x"));
		{ vs::Quiet q; delete capture; }
		Logger::getLogger("x").info("m");
		expect(count("ano:x", "m\n") == 1 && writes() == 1, "scheme", all());
	}, started);
	explore("flush and configuration at once", 1, 2, [&] {
		Logger & l = Logger::getLogger("a");
		together({ [&] { vs::label("thread"); Logger::flushAll(); l.flush(); }, [&] { vs::label("thread"); Logger::configure(conf("info", "%message", "rec:two")); } });
		bool one = false;
		for (auto & x : lines()) one |= x.flush && x.uri == "rec:one";
		expect(one, "flushed", all());
		lines().clear();
		l.info("m");
		expect(count("rec:two", "m\n") == 1, "message", all());
	}, started);
	explore("the configuration of a logger is read while it is replaced", 1, 2, [&] {
		Logger & l = Logger::getLogger("a");
		S from = l.getConfiguration(), got;
		together({ [&] { vs::label("thread"); got = l.getConfiguration(); }, [&] { vs::label("thread"); Logger::configure(conf("debug", "%message", "rec:two")); } });
		S to = l.getConfiguration();
		expect(from != to && (got == from || got == to), "read", vk::q(got) + " instead of " + vk::q(from) + " or " + vk::q(to));
		vs::outcome(got);
	}, started);
	explore("reset and logging at once", 1, 2, [&] {
		Logger & l = Logger::getLogger("a");
		Capture * capture; { vs::Quiet q; capture = new Capture; }
		together({ [&] { vs::label("thread"); l.debug("m"); }, [&] { vs::label("thread"); Logger::resetConfiguration(); } });
		S out;
		{ vs::Quiet q; out = capture->out.str(); delete capture; }
		expect(writes() + std::count(out.begin(), out.end(), '\n') <= 1, "message", all() + out);
		expect(writes() == 0 || count("rec:one", "m\n") == 1, "message", all() + out);
		expect(l.infoEnabled() && !l.debugEnabled(), "reset", "");
	}, base(conf("debug", "%message", "rec:one")));
	explore("logging, new loggers and configuration at once", 1, 1, [&] {
		Logger & l = Logger::getLogger("a");
		Logger * n = nullptr;
		together({ [&] { vs::label("thread"); l.info("m"); }, [&] { vs::label("thread"); n = &Logger::getLogger("a.n"); n->info("n"); }, [&] { vs::label("thread"); Logger::configure(conf("info", "%message", "rec:one")); } });
		expect(count("rec:one", "m\n") == 1 && count("rec:one", "n\n") == 1 && writes() == 2, "message", all());
		expect(n == &Logger::getLogger("a.n"), "oneLogger", "");
	}, started);
	return ctx.finish();
}
