// P39: the network library: MIME types of paths, and the library's loggers.
#include "logging.hpp"
#include <Balau/Network/Utilities/BalauLogger.hpp>
#include <Balau/Network/Utilities/MimeTypes.hpp>

typedef std::string S;
static vk::Ctx * C;
using Balau::Network::MimeTypes;

static S lower(S s) { for (auto & c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
// The extension of the last part of a path; no = there is none; open = not decided.
enum class Has { No, Yes, Open };
static Has extension(const S & path, S & e) {
	S last = path.substr(path.rfind('/') == S::npos ? 0 : path.rfind('/') + 1);
	size_t dot = last.rfind('.');
	if (dot == S::npos || dot + 1 == last.size()) return Has::No;
	e = lower(last.substr(dot + 1));
	return dot == 0 ? Has::Open : Has::Yes; // Files whose names begin with the dot.
}
static void look(const MimeTypes & types, const S & which, const S & path) {
	if (!C->begin([&] { return which + " type of " + vk::q(path); })) return;
	S got;
	vk::Exact copy(path);
	try { got = S(types.lookup(path)); } catch (const std::exception & e) { C->violation("exception", e.what()); return; }
	S e;
	auto has = extension(path, e);
	auto found = types.getData().find(e);
	S want = has == Has::No || found == types.getData().end() ? "" : found->second;
	C->check(got == want || (has == Has::Open && got.empty()), "type", [&] { return vk::q(path) + " gives " + vk::q(got) + " instead of " + vk::q(want); });
	C->nontrivial(vk::hash(which + path + got));
}

template <typename L> static S call(const L & l, int s, int how, int params, int & evaluated) {
	auto & lines = records()["rec:x"].lines;
	lines.clear();
	if (how >= 8) logLambda(l, s, how - 8, [&] { ++evaluated; return S("lambda {} text"); });
	else if (params == 0) logBy(l, s, how, "plain {} text");
	else if (params == 1) logBy(l, s, how, "one {} text", 42);
	else logBy(l, s, how, "{}two{} text", S("a {} b"), 'c');
	S r;
	for (auto & x : lines) r += x + "|";
	return r;
}
static S macro(const BalauLogger & l, int s, int params) {
	auto & lines = records()["rec:x"].lines;
	lines.clear();
	switch (s * 2 + params) {
		case 0: BalauBalauLogError(l, "text"); break; case 1: BalauBalauLogError(l, "text {}", 7); break;
		case 2: BalauBalauLogWarn(l, "text"); break; case 3: BalauBalauLogWarn(l, "text {}", 7); break;
		case 4: BalauBalauLogInfo(l, "text"); break; case 5: BalauBalauLogInfo(l, "text {}", 7); break;
		case 6: BalauBalauLogDebug(l, "text"); break; case 7: BalauBalauLogDebug(l, "text {}", 7); break;
		case 8: BalauBalauLogTrace(l, "text"); break; case 9: BalauBalauLogTrace(l, "text {}", 7); break;
	}
	S r;
	for (auto & x : lines) r += x + "|";
	return r;
}

int main(int argc, char ** argv) {
	vk::Ctx ctx(argc, argv); C = &ctx;
	bool deep = ctx.thorough();

	// The types that everybody relies on.
	const std::map<S, S> known {
		{ "avi", "video/x-msvideo" }, { "bmp", "image/bmp" }, { "css", "text/css" }, { "csv", "text/csv" }, { "doc", "application/msword" }, { "epub", "application/epub+zip" },
		{ "gif", "image/gif" }, { "htm", "text/html" }, { "html", "text/html" }, { "jpg", "image/jpeg" }, { "jpeg", "image/jpeg" }, { "json", "application/json" },
		{ "mp3", "audio/mpeg" }, { "mp4", "video/mp4" }, { "mpeg", "video/mpeg" }, { "ogg", "audio/ogg" }, { "pdf", "application/pdf" }, { "png", "image/png" },
		{ "rtf", "application/rtf" }, { "svg", "image/svg+xml" }, { "tif", "image/tiff" }, { "tiff", "image/tiff" }, { "txt", "text/plain" }, { "woff", "font/woff" }, { "woff2", "font/woff2" },
		{ "xhtml", "application/xhtml+xml" }, { "zip", "application/zip" },
	};
	auto & standard = *MimeTypes::defaultMimeTypes;
	for (auto & k : known) if (ctx.begin([&] { return "standard type of " + k.first; })) {
		S got(standard.lookup("/folder/file." + k.first));
		ctx.check(got == k.second, "standard", [&] { return k.first + " gives " + vk::q(got); });
		ctx.nontrivial(vk::hash(k.first));
	}
	// All extensions in all cases, after all kinds of paths.
	const std::vector<S> before { "", "a", "/a/b", "a.b", "/x.html/y", "/a.tar", "a.", "a..", "..", "/", "/a/", "a b", "/a?b=c", "/a%20b", "\xc3\xa9", "/a.b/c.d/e", "/\xf0\x9f\x98\x80.png" };
	std::vector<S> extensions;
	for (auto & d : standard.getData()) extensions.push_back(d.first);
	std::sort(extensions.begin(), extensions.end());
	for (auto & e : extensions) for (auto & b : before) {
		for (unsigned m = 0; m < (1u << e.size()); ++m) {
			S x = e;
			for (size_t i = 0; i < e.size(); ++i) if (m >> i & 1 && x[i] >= 'a' && x[i] <= 'z') x[i] -= 32;
			look(standard, "standard", b + "." + x);
			if (!deep && b.size() > 3 && m == 3) break;
		}
		for (const char * after : { "x", ".", "/", "/a", " ", ".unknown" }) look(standard, "standard", b + "." + e + after);
		look(standard, "standard", b + e);
		look(standard, "standard", b + "." + e.substr(1));
	}
	// All short paths, with few types.
	MimeTypes few { std::unordered_map<S, S> { { "a", "type/a" }, { "ab", "type/ab" }, { "b", "type/b" }, { "ba", "" }, { "aa", "type/aa" } } };
	vk::stringsUpTo({ "a", "A", "b", ".", "/" }, deep ? 8 : 7, [&] (const S & p) { look(few, "few", p); });
	MimeTypes none { std::unordered_map<S, S> {} };
	vk::stringsUpTo({ "a", ".", "/" }, 4, [&] (const S & p) { look(none, "no", p); });

	// The library's loggers.
	registerRecorder();
	const std::vector<S> levels { "none", "error", "warn", "info", "debug", "trace" };
	static const char * const namespaces[] = { "", "net", "net.http" };
	BalauLogger early[3] = { BalauLogger(""), BalauLogger(S("net")), BalauLogger(Logger::getLogger("net.http")) };
	for (auto & root : levels) for (auto & own : levels) {
		Logger::configure(". {\n level = " + root + "\n format = %level %namespace %filename %filepath %message\n stream = rec:x\n}\nnet {\n level = " + own + "\n}\n");
		for (int n = 0; n < 3; ++n) for (int kind = 0; kind < 3; ++kind) {
			BalauLogger late(namespaces[n]), copy(early[n]);
			const BalauLogger & l = kind == 0 ? early[n] : kind == 1 ? late : copy;
			Logger & plain = Logger::getLogger(namespaces[n]);
			int severityOf = (n == 0 ? root : own) == "none" ? -1 : severity(n == 0 ? root : own);
			for (int s = 0; s < 5; ++s) {
				for (int how = 0; how < 12; ++how) for (int params = 0; params < (how < 8 ? 3 : 1); ++params) {
					if (!ctx.begin([&] { return "level " + root + ", " + own + ", logger " + namespaces[n] + " (" + std::to_string(kind) + "), severity " + levelNames[s] + " way " + std::to_string(how) + " parameters " + std::to_string(params); })) continue;
					int evaluated = 0, evaluatedPlain = 0;
					S got = call(l, s, how, params, evaluated), want = call(plain, s, how, params, evaluatedPlain);
					auto d = [&] { return vk::q(got) + " instead of " + vk::q(want); };
					ctx.check(got == want, "message", d);
					ctx.check(got.empty() == (s > severityOf), "admitted", d);
					ctx.check(evaluated == (how >= 8 && s <= severityOf), "evaluated", [&] { return std::to_string(evaluated) + " times"; });
					ctx.check(enabledBy(l, s) == (s <= severityOf) && l.enabled(levelOf(s)) == (s <= severityOf), "enabled", [&] { return S("enabled?"); });
					ctx.check(l.getLevel() == plain.getLevel(), "level", [&] { return S("level"); });
					ctx.nontrivial(vk::hash(got + std::to_string(how) + std::to_string(kind)));
				}
				for (int params = 0; params < 2; ++params) {
					if (!ctx.begin([&] { return "level " + root + ", " + own + ", logger " + namespaces[n] + " (" + std::to_string(kind) + "), macro of " + levelNames[s] + " parameters " + std::to_string(params); })) continue;
					S got = macro(l, s, params);
					bool ok = s > severityOf ? got.empty() : got.find(params ? " text 7\n|" : " text\n|") != S::npos && got.find("p39.cpp") != S::npos && got.find(levelNames[s] + " ") == 0;
					ctx.check(ok, "macro", [&] { return vk::q(got); });
					ctx.nontrivial(vk::hash(got));
				}
			}
		}
	}
	return ctx.finish();
}
