// What the checks of the logging system share: recording streams, work in forked children, configurations as text and as
// environment properties, and the reference for levels, formats and streams.
#pragma once
#include "vk.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <boost/core/demangle.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <Balau/Application/EnvironmentProperties.hpp>
#include <Balau/Logging/Logger.hpp>
#include <Balau/Exception/LoggingExceptions.hpp>
using namespace Balau;

// Streams of the scheme "rec" record what they are given, by URI.
struct Record { std::vector<std::string> lines; int flushes = 0; bool flushed = true; int unflushed = 0; };
inline std::map<std::string, Record> & records() { static std::map<std::string, Record> r; return r; }
struct Recorder : LoggingStream {
	std::string uri;
	explicit Recorder(std::string_view u) : uri(u) {}
	void write(const LoggingSystem::LoggerString & s) override { auto & r = records()[uri]; r.lines.emplace_back(s.data(), s.size()); r.flushed = false; }
	void flush() override { auto & r = records()[uri]; r.flushed = true; ++r.flushes; }
};
inline void registerRecorder() { Logger::registerLoggingStreamFactory("rec", [] (std::string_view uri) -> LoggingStream * { return new Recorder(uri); }); }

// The standard streams, captured for the time of the object.
struct Capture {
	std::ostringstream out, err;
	std::streambuf * o, * e;
	Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
	~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

// The text that a function returns in a forked child, or how the child ended.
template <typename F> std::string inChild(F f) {
	int p[2];
	if (pipe(p)) return "no pipe";
	std::cout.flush();
	pid_t pid = fork();
	if (!pid) {
		close(p[0]);
		std::string r;
		try { r = "=" + f(); } catch (const std::exception & e) { r = std::string("exception ") + e.what(); } catch (...) { r = "exception"; }
		for (size_t at = 0; at < r.size();) { auto n = write(p[1], r.data() + at, r.size() - at); if (n <= 0) break; at += n; }
		_exit(0);
	}
	close(p[1]);
	std::string r;
	char b[4096];
	for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR);) if (n > 0) r.append(b, n);
	close(p[0]);
	int status = 0;
	waitpid(pid, &status, 0);
	if (!r.empty() && r[0] == '=') return r.substr(1);
	return "! " + (r.empty() ? WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status)) : r);
}

// A configuration: the options of namespaces, in the order given.
struct Ns { std::string name; std::vector<std::pair<std::string, std::string>> options; };
using Conf = std::vector<Ns>;
inline std::string textOf(const Conf & c) {
	std::string r;
	for (auto & n : c) { r += n.name + " {\n"; for (auto & o : n.options) r += "\t" + o.first + " = " + o.second + "\n"; r += "}\n"; }
	return r;
}
// The route by environment properties (every namespace once, composites at the root).
inline void configureByProperties(const Conf & c) {
	std::string types;
	for (auto & n : c) { types += "\t" + n.name + " {\n"; for (auto & o : n.options) types += "\t\t" + o.first + " : " + (o.first == "flush" ? "boolean" : "string") + "\n"; types += "\t}\n"; }
	std::string values;
	for (auto & n : c) { values += "\t" + n.name + " {\n"; for (auto & o : n.options) values += "\t\t" + o.first + " = " + o.second + "\n"; values += "\t}\n"; }
	auto injector = Injector::create(EnvironmentConfiguration(std::string("logging {\n" + values + "}\n"), std::string("logging {\n" + types + "}\n")));
	Logger::configure(injector->getShared<EnvironmentProperties>("logging"));
}
inline void configure(const Conf & c, int route) { if (route) configureByProperties(c); else Logger::configure(textOf(c)); }

inline const std::string * option(const Conf & c, const std::string & ns, const std::string & key) {
	const std::string * r = nullptr;
	for (auto & n : c) if ((n.name == "." ? "" : n.name) == ns) for (auto & o : n.options) if (o.first == key) r = &o.second;
	return r;
}
inline std::string parentOf(const std::string & ns) { auto i = ns.rfind('.'); return i == std::string::npos ? "" : ns.substr(0, i); }
// The value of an option for a logger: that of the nearest namespace which has it.
inline std::string effective(const Conf & c, std::string ns, const std::string & key, const std::string & otherwise) {
	for (;; ns = parentOf(ns)) {
		if (auto v = option(c, ns, key)) return *v;
		if (ns.empty()) return otherwise;
	}
}

inline const std::vector<std::string> levelNames = { "error", "warn", "info", "debug", "trace" };       // By severity.
inline int severity(const std::string & level) { for (size_t i = 0; i < 5; ++i) if (levelNames[i] == level) return i; return level == "none" ? -1 : 2; }
inline LoggingLevel levelOf(int s) { return (LoggingLevel) s; }
template <typename L> bool enabledBy(const L & l, int s) { switch (s) { case 0: return l.errorEnabled(); case 1: return l.warnEnabled(); case 2: return l.infoEnabled(); case 3: return l.debugEnabled(); default: return l.traceEnabled(); } }
// The ways to log a message: ten of them, with up to two parameters.
template <typename L, typename ... P> void logBy(const L & l, int s, int how, const char * m, const P & ... p) {
	auto location = SourceCodeLocation("/src/File.cpp:17");
	std::string_view v(m);
	switch (how) {
		case 0: switch (s) { case 0: l.error(m, p ...); break; case 1: l.warn(m, p ...); break; case 2: l.info(m, p ...); break; case 3: l.debug(m, p ...); break; default: l.trace(m, p ...); } break;
		case 1: switch (s) { case 0: l.error(v, p ...); break; case 1: l.warn(v, p ...); break; case 2: l.info(v, p ...); break; case 3: l.debug(v, p ...); break; default: l.trace(v, p ...); } break;
		case 2: switch (s) { case 0: l.error(location, m, p ...); break; case 1: l.warn(location, m, p ...); break; case 2: l.info(location, m, p ...); break; case 3: l.debug(location, m, p ...); break; default: l.trace(location, m, p ...); } break;
		case 3: switch (s) { case 0: l.error(location, v, p ...); break; case 1: l.warn(location, v, p ...); break; case 2: l.info(location, v, p ...); break; case 3: l.debug(location, v, p ...); break; default: l.trace(location, v, p ...); } break;
		case 4: l.log(levelOf(s), m, p ...); break;
		case 5: l.log(levelOf(s), v, p ...); break;
		case 6: l.log(levelOf(s), location, m, p ...); break;
		default: l.log(levelOf(s), location, v, p ...); break;
	}
}
template <typename L> void logLambda(const L & l, int s, int how, const std::function<std::string ()> & f) {
	auto location = SourceCodeLocation("/src/File.cpp:17");
	switch (how) {
		case 0: switch (s) { case 0: l.error(f); break; case 1: l.warn(f); break; case 2: l.info(f); break; case 3: l.debug(f); break; default: l.trace(f); } break;
		case 1: switch (s) { case 0: l.error(location, f); break; case 1: l.warn(location, f); break; case 2: l.info(location, f); break; case 3: l.debug(location, f); break; default: l.trace(location, f); } break;
		case 2: l.log(levelOf(s), f); break;
		default: l.log(levelOf(s), location, f); break;
	}
}
