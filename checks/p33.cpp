// P33: a zip archive against a map, under every sequence of operations and commits.
#include <boost/core/demangle.hpp>
#include <Balau/Util/Zip.hpp>
#include <Balau/Resource/ZipFile.hpp>
#include <Balau/Resource/ZipEntry.hpp>
#include <zlib.h>
#include <unistd.h>
#include "vk.hpp"
using namespace vk;
using namespace Balau;
using Util::Zipper; using Util::Unzipper; using Resource::File;
using Exception::ZipException;
using S = std::string;
Ctx * C;
S path, aside;

S big(size_t n, int seed) { S s(n, '\0'); uint64_t x = 88172645463325252ull + (uint64_t) seed; for (auto & c : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (char) x; } return s; }
const S L = big(5000, 1), SPARSE = S(3000, 'z');

struct Archive { std::map<S, S> e; S comment; bool operator == (const Archive & o) const { return e == o.e && comment == o.comment; } };
struct Model { Archive now, stored; };

struct Op { const char * name; std::function<void (Zipper &)> act; std::function<int (Archive &)> model; };   // model: 0 done, 1 must be an error, 2 not examined
void parents(Archive & a, const S & n) { for (size_t i = n.find('/'); i != S::npos; i = n.find('/', i + 1)) a.e.emplace(n.substr(0, i + 1), ""); }
Op put(const char * label, S name, S clean, S content, int how) {
	return { label, [=] (Zipper & z) {
		if (how == 0) { auto p = std::make_unique<S>(content); z.putEntry(name, *p); p->assign(p->size(), '#'); }                                   // the data need not outlive the call
		else if (how == 1) { std::vector<char> v(content.begin(), content.end()); z.putEntry(name, v); std::fill(v.begin(), v.end(), '#'); }
		else { std::ofstream o(aside + std::to_string(content.size()), std::ios::binary); o << content; o.close(); z.putEntry(name, File(aside + std::to_string(content.size()))); } },
		[=] (Archive & a) { parents(a, clean.substr(0, clean.rfind('/') + 1)); a.e[clean] = content; return 0; } };
}
Op dir(const char * label, S name, S clean) { return { label, [=] (Zipper & z) { z.putDirectory(name); }, [=] (Archive & a) { if (!a.e.count(clean)) parents(a, clean); return 0; } }; }
Op ren(const char * label, S from, S to) {
	return { label, [=] (Zipper & z) { z.renameEntry(from, to); }, [=] (Archive & a) {
		if (from.back() != '/') { if (!a.e.count(from)) return 1; if (from != to && a.e.count(to)) return 1; S c = a.e[from]; a.e.erase(from); a.e[to] = c; return 0; }
		Archive b = a; bool any = false;
		for (auto & p : a.e) if (p.first.compare(0, from.size(), from) == 0) { any = true; S t = to + p.first.substr(from.size()); if (a.e.count(t)) return 2; b.e.erase(p.first); b.e[t] = p.second; }
		if (!any) return 2;
		a = b; return 0; } };
}
Op del(const char * label, S name) {
	return { label, [=] (Zipper & z) { z.deleteEntry(name); }, [=] (Archive & a) {
		if (name.back() != '/') { if (!a.e.count(name)) return 1; a.e.erase(name); return 0; }
		bool any = false; for (auto i = a.e.begin(); i != a.e.end(); ) if (i->first.compare(0, name.size(), name) == 0) { i = a.e.erase(i); any = true; } else ++i;
		return any ? 0 : 2; } };
}
Op com(const char * label, S text) { return { label, [=] (Zipper & z) { z.putArchiveComment(text); }, [=] (Archive & a) { a.comment = text; return 0; } }; }

template <class F> S attempt(F f) { try { f(); return "ok"; } catch (const ZipException &) { return "error"; } catch (const std::exception & e) { return S("another exception: ") + typeid(e).name() + " " + e.what(); } }

// The stored archive must be exactly this one.
void verify(const Archive & want, const S & how) {
	auto bad = [&] (const S & key, const S & why) { C->violation(key, how + ": " + why); };
	if (want.e.empty()) { Unzipper u; S r = attempt([&] { u.open(File(path), true); if (u.entryCount() != 0) throw std::runtime_error("entries"); }); if (r != "ok" && r != "error") bad("empty", r); return; }
	try {
		Unzipper u; u.open(File(path), true);
		if (u.entryCount() != (long long) want.e.size()) { bad("count", std::to_string(u.entryCount()) + " entries, expected " + std::to_string(want.e.size())); return; }
		std::set<S> names; for (auto & n : u.entryNames()) if (!names.insert(n).second) bad("names", "twice " + q(n));
		for (auto & n : names) if (!want.e.count(n)) { bad("names", "unexpected entry " + q(n)); return; }
		if (u.readArchiveComment() != want.comment) bad("comment", "comment " + q(u.readArchiveComment()) + ", expected " + q(want.comment));
		for (auto & p : want.e) {
			if (!u.hasEntry(p.first)) { bad("hasEntry", q(p.first)); continue; }
			long long i = u.getEntryIndex(p.first);
			if (u.getEntryName(i) != p.first) bad("index", q(p.first) + " has the index of " + q(u.getEntryName(i)));
			Util::ZipEntryInfo info; u.getEntryInfo(p.first, info);
			if (info.name != p.first || info.index != i || info.uncompressedSize != (long long) p.second.size() || info.crc != crc32(0, (const Bytef *) p.second.data(), (uInt) p.second.size())) bad("info", q(p.first) + ": " + Util::toString(info));
			auto same = [&] (const S & got, const char * key) { if (got != p.second) bad(key, q(p.first) + ": " + std::to_string(got.size()) + " bytes " + q(got.substr(0, 20)) + ", expected " + std::to_string(p.second.size()) + " bytes " + q(p.second.substr(0, 20))); };
			same(u.readEntryAsString(i), "stringByIndex");
			auto v = u.readEntryAsBytes(i); same(S(v.begin(), v.end()), "bytesByIndex");
			if (p.first.back() != '/') {
				same(u.readEntryAsString(p.first), "string"); v = u.readEntryAsBytes(p.first); same(S(v.begin(), v.end()), "bytes");
				same(u.readEntryAsString("/" + p.first), "leadingSlash"); same(u.readEntryAsString(" //" + p.first + " "), "blanks");
				S d; for (char c : p.first) { d += c; if (c == '/') d += '/'; } same(u.readEntryAsString(d), "doubleSlash");
			} else if (attempt([&] { u.readEntryAsString(p.first); }) != "error") bad("readDirectory", q(p.first) + " read as a file");
			if (u.readEntryComment(p.first) != "") bad("entryComment", q(p.first));
		}
		for (S n : { "zz", "a/", "d/zz" }) if (!want.e.count(n)) {
			if (u.hasEntry(n)) bad("hasEntry", n);
			S r = attempt([&] { u.readEntryAsBytes(n); }); if (r != "error") bad("missing", n + ": " + r);
			r = attempt([&] { Util::ZipEntryInfo i; u.getEntryInfo(n, i); }); if (r != "error") bad("missing", n + ": " + r);
		}
		S r = attempt([&] { u.readEntryAsString((long long) want.e.size()); }); if (r != "error") bad("missing", "index past the end: " + r);
		// By iteration.
		Resource::ZipFile zf { File(path) };
		std::map<S, S> seen, seen32; 
		auto it = zf.recursiveZipFileIterator(true);
		while (it.hasNext()) { auto e = it.next(); if (e.isEntryDirectory() != (e.name().back() == '/')) bad("isDirectory", e.name()); if (e.size() != want.e.at(e.name()).size()) bad("entrySize", e.name());
			if (!seen.emplace(e.name(), e.readEntryAsString()).second) bad("iteration", "twice " + e.name());
			if (e.isEntryFile()) { auto r1 = e.getByteReadResource(); S t((std::istreambuf_iterator<char>(r1.readStream())), std::istreambuf_iterator<char>()); if (t != want.e.at(e.name())) bad("byteStream", e.name() + " " + std::to_string(t.size()) + " bytes"); } }
		if (seen != want.e) bad("iteration", "other entries or contents");
		size_t n = 0; const Resource::Uri & uri = zf; auto ui = uri.recursiveIterator(); while (ui->hasNext()) { auto e = ui->next(); ++n; if (e->toUriString().find("file://" + path + "#") != 0 || !want.e.count(e->toUriString().substr(path.size() + 8))) bad("uri", e->toUriString()); }
		if (n != want.e.size()) bad("iteration", "uri iterator: " + std::to_string(n) + " entries");
	} catch (const std::exception & e) { bad("exception", e.what()); }
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	path = ctx.scratch + "/p33." + std::to_string(getpid()) + ".zip"; aside = ctx.scratch + "/p33." + std::to_string(getpid()) + ".src";
	const std::vector<Op> ops = {
		put("put a=1 (text)", "a", "a", "1", 0), put("put a=large (bytes)", "/a", "a", L, 1), put("put d/a=2 (file)", "d//a", "d/a", "22", 2), put("put d/e/b= (text)", " /d/e/b", "d/e/b", "", 0), put("put d/a=sparse (bytes)", "d/a", "d/a", SPARSE, 1),
		dir("directory d/", "d/", "d/"), dir("directory x/y/", "//x//y/", "x/y/"),
		ren("rename a to b", "a", "b"), ren("rename d/a to a", "d/a", "a"), ren("rename d/ to x/", "d/", "x/"), ren("rename d/e/ to e/", "d/e/", "e/"), ren("rename zz to a", "zz", "a"),
		del("delete a", "a"), del("delete d/a", "d/a"), del("delete d/", "d/"), del("delete x/", "x/"), del("delete zz", "zz"),
		com("comment hello", "hello"), com("no comment", ""),
		{ "commit and open", nullptr, nullptr }, { "discard and open", nullptr, nullptr } };
	const size_t depth = ctx.thorough() ? 5 : 4; const int N = (int) ops.size();

	std::vector<int> seq;
	std::function<void ()> walk = [&] {
		if (!seq.empty() && ctx.begin([&] { S d; for (int o : seq) d += S(ops[(size_t) o].name) + "; "; return d; })) {
			S how; for (int o : seq) how += S(ops[(size_t) o].name) + "; ";
			::unlink(path.c_str());
			Model m; bool over = false;
			{ Zipper z; bool opened = false;
				try {
					z.open(File(path), true); opened = true;
					for (int o : seq) {
						auto & op = ops[(size_t) o]; ++ctx.transitions;
						if (o == N - 2) { z.commit(); if (z.isOpen()) ctx.violation("open", how + "open after commit"); m.stored = m.now; if (m.stored.e.empty()) m.stored.comment = m.now.comment = ""; z.open(File(path), true); }
						else if (o == N - 1) { z.close(); if (z.isOpen()) ctx.violation("open", how + "open after close"); m.now = m.stored; z.open(File(path), false); }
						else {
							Archive before = m.now; int w = op.model(m.now);
							S r = attempt([&] { op.act(z); });
							if (w == 2) { over = true; break; }
							if (w == 1) { m.now = before; if (r != "error") { ctx.violation("noError", how + op.name + ": " + r); over = true; break; } }
							else if (r != "ok") { ctx.violation("error", how + op.name + ": " + r); over = true; break; }
						}
					}
					if (!over) { z.commit(); m.stored = m.now; if (m.stored.e.empty()) m.stored.comment = ""; }
				} catch (const std::exception & e) { ctx.violation("exception", how + (opened ? e.what() : "cannot open: " + S(e.what()))); over = true; } }
			if (!over) { verify(m.stored, how); ++ctx.traces; S st; for (auto & p : m.stored.e) st += p.first + "=" + std::to_string(p.second.size()) + ","; st += m.stored.comment; ctx.state(hash(st)); }
			ctx.nontrivial(hash(how));
		}
		if (seq.size() == depth) return;
		for (int o = 0; o < N; ++o) {
			if (!seq.empty() && seq.back() >= N - 2 && o >= N - 2) continue;    // two ends of a session in a row
			seq.push_back(o); walk(); seq.pop_back();
		}
	};
	walk();

	// Sizes around the read buffer, by every way of putting and reading.
	for (size_t n : { 0u, 1u, 2u, 1023u, 1024u, 1025u, 2046u, 2047u, 2048u, 2049u, 4095u, 4096u, 4097u, 6144u, 8192u, 8193u, 65535u, 65536u, 65537u, 200000u }) for (int how = 0; how < 3; ++how) for (int pat = 0; pat < 2; ++pat) {
		if (!ctx.begin([&] { return "content of " + std::to_string(n) + " bytes put by method " + std::to_string(how); })) continue;
		::unlink(path.c_str()); Archive a; S c = pat ? S(n, 'q') : big(n, (int) n);
		try { Zipper z; z.open(File(path), true); Op p = put("", "f/g", "f/g", c, how); p.act(z); p.model(a); Op p2 = put("", "h", "h", c + "!", how); p2.act(z); p2.model(a); z.commit(); } catch (const std::exception & e) { ctx.violation("exception", e.what()); continue; }
		verify(a, "content of " + std::to_string(n) + " bytes");
		if (n && pat) { // as characters
			Resource::ZipFile zf { File(path) }; auto it = zf.recursiveZipFileIterator(); while (it.hasNext()) { auto e = it.next(); if (e.name() != "f/g") continue; auto r = e.getUtf8To32ReadResource(); std::u32string t((std::istreambuf_iterator<char32_t>(r.readStream())), std::istreambuf_iterator<char32_t>()); if (t != std::u32string(n, U'q')) ctx.violation("utf32Stream", std::to_string(t.size()) + " characters of " + std::to_string(n)); } }
	}
	// Names in every clean and unclean form.
	std::vector<S> unclean; stringsUpTo({ "a", "/", " " }, 5, [&] (const S & s) { unclean.push_back(s); });
	for (const S & n : unclean) {
		if (!ctx.begin([&] { return "name " + q(n); })) continue;
		S t = n; while (!t.empty() && t.front() == ' ') t.erase(0, 1); while (!t.empty() && t.back() == ' ') t.pop_back();
		S clean; for (char c : t) if (c != '/' || clean.empty() || clean.back() != '/') clean += c; if (!clean.empty() && clean[0] == '/') clean.erase(0, 1);
		if (clean.empty() || clean[0] == 0x20 || clean.find("/ ") != S::npos || clean.find(" /") != S::npos) continue;   // blanks within a path
		::unlink(path.c_str()); Archive a;
		try {
			Zipper z; z.open(File(path), false); bool isDir = t.back() == '/';
			S r1 = attempt([&] { z.putEntry(n, S("x")); }), r2 = isDir ? attempt([&] { z.putDirectory(n); }) : "error";
			if (isDir) { ctx.check(r1 == "error", "entryAsDirectory", [&] { return q(n) + ": " + r1; }); ctx.check(r2 == "ok", "directory", [&] { return q(n) + ": " + r2; }); parents(a, clean); }
			else { ctx.check(r1 == "ok", "entry", [&] { return q(n) + ": " + r1; }); parents(a, clean.substr(0, clean.rfind('/') + 1)); a.e[clean] = "x"; S r3 = attempt([&] { z.putDirectory(n); }); ctx.check(r3 == "error", "directoryAsEntry", [&] { return q(n) + ": " + r3; }); }
			z.commit();
		} catch (const std::exception & e) { ctx.violation("exception", q(n) + ": " + e.what()); continue; }
		verify(a, "name " + q(n));
	}
	// A closed or never opened archive.
	for (int used = 0; used < 3; ++used) {
		if (!ctx.begin([&] { return "closed archive " + std::to_string(used); })) continue;
		::unlink(path.c_str());
		Zipper z; if (used) { z.open(File(path), false); z.putEntry("a", S("1")); if (used == 1) z.commit(); else z.close(); }
		Util::ZipEntryInfo info;
		std::vector<std::pair<const char *, std::function<void ()>>> calls = {
			{ "readArchiveComment", [&] { z.readArchiveComment(); } }, { "entryCount", [&] { z.entryCount(); } }, { "entryNames", [&] { z.entryNames(); } }, { "hasEntry", [&] { z.hasEntry("a"); } }, { "getEntryIndex", [&] { z.getEntryIndex("a"); } },
			{ "getEntryName", [&] { z.getEntryName(0); } }, { "getEntryInfo name", [&] { z.getEntryInfo("a", info); } }, { "getEntryInfo index", [&] { z.getEntryInfo(0, info); } }, { "readEntryComment name", [&] { z.readEntryComment("a"); } }, { "readEntryComment index", [&] { z.readEntryComment(0); } },
			{ "bytes name", [&] { z.readEntryAsBytes("a"); } }, { "bytes index", [&] { z.readEntryAsBytes(0); } }, { "string name", [&] { z.readEntryAsString("a"); } }, { "string index", [&] { z.readEntryAsString(0); } },
			{ "putArchiveComment", [&] { z.putArchiveComment("x"); } }, { "deleteComment", [&] { z.deleteComment(); } }, { "putDirectory", [&] { z.putDirectory("d/"); } }, { "putEntry", [&] { z.putEntry("d", S("x")); } }, { "putEntry bytes", [&] { z.putEntry("d", std::vector<char>(3)); } },
			{ "renameEntry", [&] { z.renameEntry("a", "b"); } }, { "renameEntry directory", [&] { z.renameEntry("a/", "b/"); } }, { "deleteEntry", [&] { z.deleteEntry("a"); } }, { "deleteEntry directory", [&] { z.deleteEntry("a/"); } } };
		for (auto & c : calls) { S r = attempt(c.second); ctx.check(r == "error", S("closed ") + c.first, [&] { return r; }); }
		ctx.check(!z.isOpen(), "isOpen", [] { return S("open"); });
		z.close(); z.commit();
	}
	// Damage: every truncation and every changed byte of a small archive is an error or harmless.
	::unlink(path.c_str()); Archive da;
	{ Zipper z; z.open(File(path), false); z.putEntry("one", S("one one one one one one")); z.putEntry("d/two", S("2")); z.putArchiveComment("c"); z.commit(); da.e = { { "one", "one one one one one one" }, { "d/two", "2" }, { "d/", "" } }; }
	S image; { std::ifstream i(path, std::ios::binary); image.assign(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
	auto damaged = [&] (const S & img, const S & how) {
		{ std::ofstream o(path, std::ios::binary); o << img; }
		for (int v = 0; v < 2; ++v) { S wrong;
			S r = attempt([&] { Unzipper u; u.open(File(path), v == 1);
				for (long long i = 0; i < u.entryCount(); ++i) for (int bytes = 0; bytes < 2; ++bytes) { S r2 = attempt([&] { S n = u.getEntryName(i); S c; if (bytes) { auto x = u.readEntryAsBytes(i); c = S(x.begin(), x.end()); } else c = u.readEntryAsString(i); if (da.e.count(n) && c != da.e[n]) wrong = n + ": " + q(c); }); if (r2.size() > 5) throw std::runtime_error(r2); } });
			ctx.outcome(r.size() > 5 ? "other" : r);
			if (r.size() > 5) ctx.violation("damage.exception", how + ": " + r);
			if (!wrong.empty()) ctx.violation("damage.content", how + ": " + wrong);
		}
		ctx.nontrivial(hash(img));
	};
	for (size_t n = 0; n < image.size(); ++n) if (ctx.begin([&] { return "truncated to " + std::to_string(n) + " of " + std::to_string(image.size()); })) damaged(image.substr(0, n), "truncated to " + std::to_string(n));
	for (size_t n = 0; n < image.size(); ++n) { const std::vector<int> masks = ctx.thorough() ? std::vector<int> { 1, 2, 4, 8, 16, 32, 64, 128, 255, 254 } : std::vector<int> { 1, 16, 128, 255 };
		for (int mask : masks) if (ctx.begin([&] { return "byte " + std::to_string(n) + " of " + q(image) + " xor " + std::to_string(mask); })) { S i = image; i[n] = (char) (i[n] ^ mask); damaged(i, "byte " + std::to_string(n) + " xor " + std::to_string(mask)); } }
	::unlink(path.c_str());
	for (auto & c : { S("1"), L, S("22"), S(), SPARSE }) ::unlink((aside + std::to_string(c.size())).c_str());
	return ctx.finish();
}
