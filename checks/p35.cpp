// P35: file and string resources, file queries and directory iteration.
#include <boost/core/demangle.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Resource/ByteReadResource.hpp>
#include <Balau/Resource/ByteWriteResource.hpp>
#include <Balau/Resource/Utf8To32ReadResource.hpp>
#include <Balau/Resource/Utf32To8WriteResource.hpp>
#include <Balau/Util/Files.hpp>
#include <Balau/Util/Streams.hpp>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include "vk.hpp"
using namespace vk;
using namespace Balau;
using namespace Balau::Resource;
using S = std::string; using U = std::u32string;
Ctx * C;
S dir;

S enc(const U & u) {
	S r;
	for (char32_t c : u) {
		if (c < 0x80) r += (char) c;
		else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); }
		else if (c < 0x10000) { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
		else { r += (char) (0xf0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
	}
	return r;
}
S slurp(const S & f) { std::ifstream i(f, std::ios::binary); return S((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
void spit(const S & f, const S & s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), (std::streamsize) s.size()); }
template <class I, class T> T readAll(I & s, int how) {
	using Ch = typename T::value_type; T r;
	if (how == 0) return T((std::istreambuf_iterator<Ch>(s)), std::istreambuf_iterator<Ch>());
	if (how == 1) { Ch c; while (s.get(c)) r += c; return r; }
	Ch b[7]; while (s.read(b, 7) || s.gcount()) r.append(b, (size_t) s.gcount()); return r;
}
void bytesOf(const S & s, const S & how, bool deep) {
	auto bad = [&] (const char * key, const S & got) { if (got != s) C->violation(key, how + ": " + std::to_string(got.size()) + " bytes " + q(got.substr(0, 40)) + " for " + std::to_string(s.size()) + " bytes " + q(s.substr(0, 40))); };
	S p = dir + "/f"; File f(p);
	for (int w = 0; w < 4; ++w) {
		spit(p, "previous content that is longer than most");
		if (w == 0) { auto r = f.getByteWriteResource(); r.writeStream() << s; r.close(); }
		else if (w == 1) { auto r = f.byteWriteResource(); for (char c : s) r->writeStream().put(c); }
		else if (w == 2) { auto r = f.getByteWriteResource(); auto r2 = std::move(r); r2.writeStream().write(s.data(), (std::streamsize) s.size()); if (!(r2.uri() == f) || !(r2.getFile() == f)) bad("uri", "uri"); }
		else { auto r = f.byteWriteResource(); r->writeStream().write(s.data(), (std::streamsize) s.size()); r->writeStream().flush(); bad("flush", slurp(p)); r->close(); }
		bad("write", slurp(p));
		if (!deep) break;
	}
	spit(p, s);
	for (int how2 = 0; how2 < (deep ? 3 : 1); ++how2) {
		{ auto r = f.getByteReadResource(); auto r2 = std::move(r); bad("read", readAll<std::istream, S>(r2.readStream(), how2)); if (!(r2.uri() == f)) bad("uri", "uri"); }
		{ auto r = f.byteReadResource(); bad("readUri", readAll<std::istream, S>(r->readStream(), how2)); }
		{ StringUri u(s); auto r = u.getByteReadResource(); auto r2 = std::move(r); bad("stringUri", readAll<std::istream, S>(r2.readStream(), how2)); auto r3 = u.byteReadResource(); bad("stringUri", readAll<std::istream, S>(r3->readStream(), how2)); }
	}
	bad("readToString", Util::Files::readToString(f)); auto v = Util::Files::readToVector(f); bad("readToVector", S(v.begin(), v.end()));
	std::vector<S> lines; { S cur; bool any = false; for (char c : s) { any = true; if (c == '\n') { lines.push_back(cur); cur.clear(); any = false; } else cur += c; } if (any) lines.push_back(cur); }
	C->check(Util::Files::toLines(f) == lines, "toLines", [&] { return how; });
	{ std::istringstream i(s); C->check(Util::Streams::readLinesToVector(i) == lines, "readLines", [&] { return how; }); }
	{ std::istringstream i(s); bad("streamToString", ::toString(i)); }
	if (!s.empty()) { std::istringstream i(s); std::ostringstream o; Util::Streams::consume(o, i); bad("consume", o.str()); }
	::unlink((dir + "/g").c_str()); Util::Files::copy(f, File(dir + "/g")); bad("copy", slurp(dir + "/g")); ::unlink((dir + "/g").c_str());
	C->check(f.size() == s.size(), "size", [&] { return how; });
}
void charsOf(const U & u, const S & how, bool deep) {
	const S s = enc(u); S p = dir + "/f"; File f(p);
	for (int w = 0; w < 3; ++w) {
		spit(p, "previous content that is longer than most");
		if (w == 0) { auto r = f.getUtf32To8WriteResource(); r.writeStream().write(u.data(), (std::streamsize) u.size()); r.close(); }
		else if (w == 1) { auto r = f.utf32To8WriteResource(); for (char32_t c : u) r->writeStream().put(c); }
		else { auto r = f.getUtf32To8WriteResource(); auto r2 = std::move(r); size_t h = u.size() / 2; r2.writeStream().write(u.data(), (std::streamsize) h); r2.writeStream().flush(); r2.writeStream().write(u.data() + h, (std::streamsize) (u.size() - h)); }
		S got = slurp(p); C->check(got == s, "write32", [&] { return how + ", writing " + std::to_string(w) + ": " + std::to_string(got.size()) + " bytes " + q(got.substr(0, 40)) + ", expected " + std::to_string(s.size()) + " bytes " + q(s.substr(0, 40)); });
		if (!deep) break;
	}
	spit(p, s);
	auto bad = [&] (const char * key, const U & got) { if (got != u) C->violation(key, how + ": " + std::to_string(got.size()) + " characters " + q(enc(got.substr(0, 20))) + " for " + std::to_string(u.size()) + " characters " + q(s.substr(0, 40))); };
	for (int h = 0; h < 3; ++h) {
		{ auto r = f.getUtf8To32ReadResource(); auto r2 = std::move(r); bad("read32", readAll<std::u32istream, U>(r2.readStream(), h)); }
		{ auto r = f.utf8To32ReadResource(); bad("read32Uri", readAll<std::u32istream, U>(r->readStream(), h)); }
		{ StringUri x(s); auto r = x.getUtf8To32ReadResource(); auto r2 = std::move(r); bad("stringUri32", readAll<std::u32istream, U>(r2.readStream(), h)); auto r3 = x.utf8To32ReadResource(); bad("stringUri32", readAll<std::u32istream, U>(r3->readStream(), h)); }
		if (!deep) break;
	}
	{ auto r = f.utf8To32ReadResource(); bad("toString32", ::toString32(r->readStream())); }
	{ StringUri x; for (char32_t c : u) x.append(c); C->check(x.getString() == s && x.toRawString() == s, "stringUriAppend", [&] { return how; }); }
}

void wipe(const S & d) { if (DIR * h = opendir(d.c_str())) { while (dirent * e = readdir(h)) { S n = e->d_name; if (n == "." || n == "..") continue; S p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) { wipe(p); ::rmdir(p.c_str()); } else ::unlink(p.c_str()); } closedir(h); } }

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	dir = ctx.scratch + "/p35." + std::to_string(getpid()); ::mkdir(dir.c_str(), 0700);
	const bool T = ctx.thorough();
	// Bytes.
	{ std::vector<S> al = { "a", "\n", "\r", S(1, '\0'), "\xff", "\x1a" };
	  stringsUpTo(al, T ? 5 : 4, [&] (const S & s) { if (!ctx.begin([&] { return "bytes " + q(s); })) return; bytesOf(s, "bytes", s.size() < 4); ctx.nontrivial(hash(s)); }); }
	for (size_t k : { 256u, 512u, 1024u, 4096u, 8191u, 8192u, 65536u }) for (size_t d = k - 2; d <= k + 2; ++d) for (int p = 0; p < 2; ++p) { if (!ctx.begin([&] { return std::to_string(d) + " bytes of pattern " + std::to_string(p); })) continue; S s(d, 'x'); uint64_t x = d; for (auto & c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char) (p ? x >> 33 : 'a'); } bytesOf(s, std::to_string(d) + " bytes", true); ctx.nontrivial(hash(s)); }
	// Characters.
	{ const U al = { U'a', U'\n', U'\r', U'\x7f', U'\x80', U'\x7ff', U'\x800', U'\uffff', U'\U00010000', U'\U0010ffff' };
	  for (size_t n = 0; n <= (T ? 5u : 4u); ++n) sequences(al.size(), n, [&] (const std::vector<int> & v) { U u; for (int i : v) u += al[(size_t) i]; if (!ctx.begin([&] { return "characters " + q(enc(u)); })) return; charsOf(u, "characters " + q(enc(u)), u.size() < 4); ctx.nontrivial(hash(enc(u)) + 1); }); }
	for (size_t k : { 128u, 256u, 511u, 512u, 1023u, 1024u, 2047u, 2048u, 4095u, 4096u, 8191u, 8192u, 16384u, 32768u }) for (long d = -4; d <= 4; ++d) for (char32_t c : { U'\xe9', U'\u20ac', U'\U0001f600' }) for (int shape = 0; shape < 3; ++shape) {
		size_t n = (size_t) ((long) k + d);
		if (!ctx.begin([&] { return "a character of " + std::to_string(enc(U(1, c)).size()) + " bytes at offset " + std::to_string(n) + " shape " + std::to_string(shape); })) continue;
		U u = shape == 0 ? U(n, U'a') + c : shape == 1 ? U(n, U'a') + U(40, c) + U(300, U'b') : U(n % 5, U'a') + U(n, c);
		charsOf(u, "offset " + std::to_string(n) + " shape " + std::to_string(shape), true); ctx.nontrivial(hash(enc(u)) + 2);
	}
	// Resources of absent files are errors.
	if (ctx.beginAll([] { return S("absent files"); })) {
		File f(dir + "/absent"), g(dir + "/absent/x");
		auto err = [&] (const char * n, std::function<void ()> a) { bool ok = false; try { a(); } catch (const Exception::FileNotFoundException &) { ok = true; } catch (...) {} ctx.check(ok, S("absent ") + n, [] { return S("no FileNotFoundException"); }); };
		err("byteRead", [&] { f.getByteReadResource(); }); err("byteReadUri", [&] { f.byteReadResource(); }); err("utf8Read", [&] { f.getUtf8To32ReadResource(); }); err("utf8ReadUri", [&] { f.utf8To32ReadResource(); });
		err("byteWrite", [&] { g.getByteWriteResource(); }); err("utf32Write", [&] { g.getUtf32To8WriteResource(); }); err("toLines", [&] { Util::Files::toLines(f); }); err("readToString", [&] { Util::Files::readToString(f); }); err("readToVector", [&] { Util::Files::readToVector(f); });
		ctx.check(!f.exists() && !f.isRegularFile() && !f.isRegularDirectory(), "absent queries", [] { return S(); });
		bool thrown = false; try { f.size(); } catch (const Exception::IOException &) { thrown = true; } catch (...) {} ctx.check(thrown, "absent size", [] { return S(); });
	}
	// Every tree: entry i is a file (0), a directory (1) or absent (2), below the root or below an earlier directory.
	const int N = T ? 5 : 4;
	sequences(3, (size_t) N, [&] (const std::vector<int> & kind) { sequences((size_t) N, (size_t) N, [&] (const std::vector<int> & par) {
		for (int i = 0; i < N; ++i) { if (kind[(size_t) i] == 2) { if (par[(size_t) i]) return; continue; } if (par[(size_t) i] > i) return; if (par[(size_t) i] && kind[(size_t) par[(size_t) i] - 1] != 1) return; }
		S how; for (int i = 0; i < N; ++i) how += std::to_string(kind[(size_t) i]) + "<" + std::to_string(par[(size_t) i]) + " ";
		if (!ctx.begin([&] { return "tree " + how; })) return;
		S root = dir + "/t"; wipe(root); ::mkdir(root.c_str(), 0700);
		std::vector<S> ps; std::map<S, int> all, top;
		for (int i = 0; i < N; ++i) { S p = (par[(size_t) i] ? ps[(size_t) par[(size_t) i] - 1] : root) + "/" + (i % 2 ? "é " : "n") + std::to_string(i); ps.push_back(p); int k = kind[(size_t) i]; if (k == 2) continue; if (k == 1) { File d(p); ctx.check(!d.exists() && d.createDirectories() && d.exists(), "createDirectories", [&] { return how; }); } else spit(p, S((size_t) i, 'x')); all[p] = k; if (!par[(size_t) i]) top[p] = k; }
		auto same = [&] (const char * key, const std::vector<S> & got, const std::map<S, int> & want) { std::map<S, int> g; for (auto & p : got) if (g[p]++) ctx.violation(key, how + ": twice " + p); bool ok = g.size() == want.size(); for (auto & p : want) ok = ok && g.count(p.first); ctx.check(ok, key, [&] { S t; for (auto & p : g) t += p.first + " "; return how + ": got " + t; }); };
		File r(root); std::vector<S> got;
		{ auto i = r.fileIterator(); while (i.hasNext()) { File f = i.next(); got.push_back(f.toRawString()); int k = all.count(f.toRawString()) ? all[f.toRawString()] : 9; ctx.check(f.exists() && f.isRegularDirectory() == (k == 1) && f.isRegularFile() == (k == 0) && f.getParentDirectory() == r, "entry", [&] { return how + f.toRawString(); }); } same("fileIterator", got, top); }
		got.clear(); { auto i = r.recursiveFileIterator(); while (i.hasNext()) { File f = i.next(); got.push_back(f.toRawString()); int k = all.count(f.toRawString()) ? all[f.toRawString()] : 9; ctx.check(f.isRegularDirectory() == (k == 1) && f.isRegularFile() == (k == 0), "recursiveEntry", [&] { return how + f.toRawString(); }); ctx.check(r / f.relative(r).toRawString() == f, "relative", [&] { return how + f.relative(r).toRawString(); }); } same("recursiveFileIterator", got, all); }
		const Uri & u = r; got.clear(); { auto i = u.iterator(); while (i->hasNext()) got.push_back(i->next()->toRawString()); same("iterator", got, top); }
		got.clear(); { auto i = u.recursiveIterator(); while (i->hasNext()) { auto e = i->next(); got.push_back(e->toRawString()); ctx.check(e->toUriString() == "file://" + e->toRawString(), "toUriString", [&] { return e->toUriString(); }); } same("recursiveIterator", got, all); }
		for (auto & p : all) { File f(p.first); if (p.second == 0) { bool thrown = false; try { f.iterator(); } catch (const Exception::NotImplementedException &) { thrown = true; } ctx.check(thrown && !f.isIterable() && !f.isRecursivelyIterable(), "iterateFile", [&] { return how; }); struct stat st; ::stat(p.first.c_str(), &st); ctx.check(f.size() == (size_t) st.st_size && std::chrono::system_clock::to_time_t(f.getModifiedTimestamp()) == st.st_mtime, "stat", [&] { return how; }); } else ctx.check(f.isIterable() && f.isRecursivelyIterable(), "iterable", [&] { return how; }); }
		// Removing everything, deepest first; the same objects must notice.
		std::vector<File> fs; for (auto & p : all) fs.emplace_back(p.first);
		for (size_t i = fs.size(); i-- > 0; ) { bool was = fs[i].exists(); bool rem = fs[i].removeFile(); ctx.check(was && rem && !fs[i].exists() && !fs[i].removeFile() && ::access(fs[i].toRawString().c_str(), F_OK) != 0, "removeFile", [&] { return how + fs[i].toRawString(); }); }
		ctx.state(hash(how)); ++ctx.traces;
	}); });
	// Histories on one object: it always tells the present state.
	const char * names[] = { "write", "mkdir", "remove" };
	sequences(3, T ? 8 : 6, [&] (const std::vector<int> & v) {
		if (!ctx.begin([&] { S s; for (int i : v) s += S(names[i]) + " "; return s; })) return;
		S p = dir + "/h"; File f(p); int st = 0; S content;
		for (int i : v) {
			if (i == 0) { content += "x"; try { auto r = f.getByteWriteResource(); r.writeStream() << content; r.close(); ctx.check(st != 1, "writeToDirectory", [] { return S(); }); st = 2; } catch (const Exception::FileNotFoundException &) { ctx.check(st == 1, "cannotWrite", [] { return S(); }); } }
			else if (i == 1) { bool made = false, err = false; try { made = f.createDirectories(); } catch (const boost::filesystem::filesystem_error &) { err = true; } ctx.check(err == (st == 2) && made == (st == 0), "createDirectories", [] { return S(); }); if (st == 0) st = 1; }
			else { bool r = f.removeFile(); ctx.check(r == (st != 0), "remove", [] { return S(); }); st = 0; }
			ctx.check(f.exists() == (st != 0) && f.isRegularDirectory() == (st == 1) && f.isRegularFile() == (st == 2), "stale", [&] { S s; for (int k : v) s += S(names[k]) + " "; return s; });
			if (st == 2) ctx.check(f.size() == content.size() && slurp(p) == content, "content", [] { return S(); });
			++ctx.transitions;
		}
		f.removeFile();
	});
	// Path construction.
	{ const std::vector<S> comps = { "a", "b.c", "d e", "\xc3\xa9" };
	  for (auto & a : comps) for (auto & b : comps) for (S base : { S("/"), S("/x"), S("x/y"), S("/x/y") }) { if (!ctx.begin([&] { return "paths " + base + " " + a + " " + b; })) continue;
		S j = base == "/" ? "/" : base + "/"; File f(base);
		S want1 = j + a, want2 = j + a + "/" + b;
		auto eq = [&] (const char * k, const File & g, const S & w) { ctx.check(g.toRawString() == w && g == File(w) && g.hashcode() == File(w).hashcode() && !(g < File(w)) && !(File(w) < g), k, [&] { return g.toRawString() + ", expected " + w; }); };
		eq("slash", f / a, want1); eq("slash", f / a / b, want2); eq("slash", f / a.c_str() / std::string_view(b), want2); { File g(f); g /= a; g /= b.c_str(); eq("slashAssign", g, want2); } { File g(base); g /= std::string_view(a); eq("slashAssign", g, want1); }
		eq("container", f / std::vector<S> { a, b }, want2); eq("two", File(base, a), want1); eq("two", File(f, a), want1); eq("sub", f.getSubDirectory(a), want1); eq("child", f.getChildEntry(a).getChildEntry(b), want2); eq("plus", (f / a) + b, want1 + b);
		eq("parent", (f / a / b).getParentDirectory(), want1); eq("append", dynamic_cast<const File &>(*f.append(a)), want1); { File g; g = boost::filesystem::path(want2); eq("assign", g, want2); File h(std::move(g)); eq("move", h, want2); g = h; eq("copy", g, want2); }
		ctx.check((f / a).toUriString() == "file://" + want1, "uriString", [&] { return (f / a).toUriString(); }); ctx.check(!((f / a) == (f / (a + "x"))), "different", [] { return S(); });
		{ auto c = (f / a).clone(); ctx.check(*c == (f / a), "clone", [] { return S(); }); } { File t("q"); fromString(t, want2); eq("fromString", t, want2); }
		if (base[0] == '/') ctx.check((f / a / b).relative(f).toRawString() == a + "/" + b, "relative", [&] { return (f / a / b).relative(f).toRawString(); }); else eq("absolute", File(base).toAbsolutePath(), boost::filesystem::current_path().string() + "/" + base);
		ctx.nontrivial(hash(want2)); } }
	wipe(dir); ::rmdir(dir.c_str());
	return ctx.finish();
}
