// P28: resolving paths against URIs, normalising and appending, against the rules for relative references.
#include <boost/core/demangle.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Resource/Http.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Resource/UriResolve.hpp>
#include <Balau/Resource/ZipFile.hpp>
#include <Balau/Util/Zip.hpp>
#include "vk.hpp"
#include <sys/stat.h>
#include <fstream>
using namespace vk;
using S = std::string;
using namespace Balau::Resource;
Ctx * C;

std::vector<S> parts(const S & p) { std::vector<S> r; S x; for (char c : p + "/") if (c == '/') { r.push_back(x); x.clear(); } else x += c; return r; }
// Without empty, current and parent components, not above the root.
S norm(const S & p) {
	bool abs = !p.empty() && p[0] == '/'; std::vector<S> out;
	for (auto & c : parts(p)) {
		if (c.empty() || c == ".") continue;
		if (c == ".." && !out.empty() && out.back() != "..") out.pop_back();
		else if (c == ".." && abs) continue;
		else out.push_back(c);
	}
	S r = abs ? "/" : ""; for (size_t i = 0; i < out.size(); ++i) r += (i ? "/" : "") + out[i];
	return r;
}
// The same path, whether it is written as a directory or not.
S canon(const S & p) { S r = norm(p); return r.empty() ? "." : r; }
bool dirLike(const S & p) { auto c = parts(p); return c.back().empty() || c.back() == "." || c.back() == ".."; }
S baseOf(const S & p) { size_t i = p.rfind('/'); return i == S::npos ? "" : p.substr(0, i + 1); }
bool hasScheme(const S & s) {
	size_t i = 0; auto al = [] (char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
	if (s.empty() || !al(s[0])) return false;
	while (i < s.size() && (al(s[i]) || (s[i] >= '0' && s[i] <= '9') || s[i] == '+' || s[i] == '-' || s[i] == '.')) ++i;
	return i < s.size() && s[i] == ':';
}
S kind(const Uri & u) { return boost::core::demangle(typeid(u).name()); }
template <class F> S run(F f) { try { return f(); } catch (const Balau::Exception::BalauException & e) { return S("throws ") + boost::core::demangle(typeid(e).name()); } catch (const std::exception & e) { return S("THROWS ") + e.what(); } }

// Everything before the path of an http URI, the path, and what follows.
struct H { S pre, path, post; };
H cut(const S & u) { H h; size_t a = u.find("://") + 3, b = u.find_first_of("/?#", a); if (b == S::npos) b = u.size(); size_t c = u.find_first_of("?#", b); if (c == S::npos) c = u.size(); return { u.substr(0, b), u.substr(b, c - b), u.substr(c) }; }

template <class U> void http(const S & base, const S & ref) {
	if (!C->begin([&] { return "resolve " + q(base) + " with " + q(ref); })) return;
	C->nontrivial(hash(base + "|" + ref));
	S got = run([&] { U u { S(base) }; auto r = UriResolve::resolve(u, ref); auto r2 = UriResolve::resolve(static_cast<const Uri &>(u), ref); return kind(*r) + " " + r->toUriString() + (*r == *r2 ? "" : " differs through the base class"); });
	if (hasScheme(ref)) {
		S want = run([&] { std::unique_ptr<Uri> x; Balau::Resource::fromString(x, ref); return kind(*x) + " " + x->toUriString(); });
		C->check(got == want, "http.scheme", [&] { return base + " with " + ref + ": " + got + ", expected " + want; });
		return;
	}
	H h = cut(base); size_t m = ref.find_first_of("?#"); S rp = ref.substr(0, m), rest = m == S::npos ? "" : ref.substr(m);
	S dir = h.path.empty() ? "/" : baseOf(h.path);
	S want = !ref.empty() && ref[0] == '/' ? rp : dir + rp;
	S prefix = boost::core::demangle(typeid(U).name()) + " ";
	C->check(got.compare(0, prefix.size(), prefix) == 0, "http.kind", [&] { return base + " with " + ref + ": " + got; });
	if (got.compare(0, prefix.size(), prefix) != 0) return;
	H g = cut(got.substr(prefix.size()));
	C->check(g.pre == h.pre, "http.authority", [&] { return base + " with " + ref + ": " + got + ", the authority is " + h.pre; });
	C->check(g.post == rest, "http.query", [&] { return base + " with " + ref + ": " + got + ", query and fragment are " + rest; });
	C->check(canon(g.path.empty() ? "/" : g.path) == canon(want) && dirLike(g.path.empty() ? "/" : g.path) == dirLike(want), "http.path", [&] { return base + " with " + ref + ": " + got + ", expected the path " + want; });
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	const bool deep = ctx.thorough();
	// A. Normalisation.
	stringsUpTo({ "a", "b", "..", ".", "/" }, deep ? 9 : 8, [&] (const S & p) {
		if (!ctx.begin([&] { return "normalise " + q(p); })) return;
		ctx.nontrivial(hash(p));
		S got = run([&] { return UriComponents::normalizePath(p); }), want = norm(p);
		ctx.check(got == want, "normalise", [&] { return q(p) + ": " + q(got) + ", expected " + q(want); });
		S again = run([&] { return UriComponents::normalizePath(got); });
		ctx.check(again == got, "normalise.twice", [&] { return q(p) + ": " + q(got) + " then " + q(again); });
	});
	// B. http and https.
	std::vector<S> refs; stringsUpTo({ "a", "b.c", "..", ".", "/" }, deep ? 6 : 5, [&] (const S & p) { if (p.compare(0, 2, "//") != 0) refs.push_back(p); });
	std::vector<S> extra;
	for (auto & r : refs) if (r.size() < 4 && !r.empty()) for (S x : { "?q=1", "#f", "?q#f" }) extra.push_back(r + x);
	for (S r : { "http://x/y", "https://x", "file:a", "a:b", "a,b:c", "a+b:c", "a-b.c:d", "a_b:c", "1a:b", "_:b", "a/b:c", "é:x", "x,:", "HTTP:a" }) extra.push_back(r);
	for (S base : { "h", "h:8080", "u@h", "u@h:1", "[::1]:80" }) for (S path : { "", "/", "/p", "/p/", "/p/q", "/p/q/", "/p/../q", "//p" }) for (S post : { "", "?x=/y", "#f/g", "?#" }) {
		for (auto & r : refs) { if (!post.empty() && r.size() > 4) continue; http<Http>("http://" + base + path + post, r); if (base == "u@h:1") http<Https>("https://" + base + path + post, r); }
		for (auto & r : extra) { http<Http>("http://" + base + path + post, r); http<Https>("https://" + base + path + post, r); }
		for (S c : { "c", "c.d", "c/d" }) {
			S b = "http://" + base + path + post;
			if (!ctx.begin([&] { return "append to " + q(b) + " " + q(c); })) continue;
			ctx.nontrivial(hash(b + "+" + c));
			S got = run([&] { return Http(S(b)).append(c)->toUriString(); }), gots = run([&] { return Https("https" + b.substr(4)).append(c)->toUriString(); });
			S sum = run([&] { std::unique_ptr<Uri> h = std::make_unique<Http>(S(b)); return (h / c)->toUriString(); });
			H h = cut(b), g = cut(got);
			ctx.check(g.pre == h.pre && g.post == h.post, "append.rest", [&] { return b + " + " + c + ": " + got; });
			ctx.check(norm(g.path) == norm(h.path + "/" + c) && g.path.back() == c.back(), "append.path", [&] { return b + " + " + c + ": " + got; });
			ctx.check(gots == "https" + got.substr(4) && sum == got, "append.https", [&] { return b + " + " + c + ": " + got + ", https: " + gots + ", operator: " + sum; });
		}
	}
	// C. Files: bases that are directories, files, and absent, absolute and relative.
	S root = ctx.scratch + "/t"; mkdir(root.c_str(), 0700); mkdir((root + "/d").c_str(), 0700); mkdir((root + "/d/e").c_str(), 0700); { std::ofstream(root + "/d/f") << "x"; }
	if (chdir(root.c_str())) return 3;
	for (S base : { root, root + "/d", root + "/d/", root + "/d/e", root + "/d/f", root + "/d/absent", root + "/no/way", S("d"), S("d/"), S("d/e"), S("d/f"), S("nil"), S("no/way"), S("../t/d"), S("./d/f"), S("/"), S("/absent") }) {
		struct stat st; bool dir = base.back() == '/' || (stat(base.c_str(), &st) == 0 && S_ISDIR(st.st_mode));
		S from = dir ? base : base.find('/') == S::npos ? "" : baseOf(base);
		auto file = [&] (const S & ref, const S & want) {
			if (!ctx.begin([&] { return "resolve file " + q(base) + " with " + q(ref); })) return;
			ctx.nontrivial(hash(base + "|" + ref));
			S got = run([&] { File f(base); auto r = UriResolve::resolve(f, ref); auto r2 = UriResolve::resolve(static_cast<const Uri &>(f), ref); return kind(*r) + " " + (*r == *r2 ? "" : "differs ") + r->toRawString(); });
			const S prefix = "Balau::Resource::File ";
			S w = want == "!" ? "throws Balau::Exception::IllegalArgumentException" : prefix + want;
			bool ok = got == w || (want != "!" && got.compare(0, prefix.size(), prefix) == 0 && canon(got.substr(prefix.size())) == canon(want));
			ctx.check(ok, "file", [&] { return base + (dir ? " (directory)" : "") + " with " + ref + ": " + got + ", expected " + w; });
		};
		for (auto & r : refs) {
			S want = !r.empty() && r[0] == '/' ? r : from.empty() ? r : from + "/" + r;
			file(r, want);
			if (r.empty()) { file("file://", want); continue; }
			if (r[0] == '/') { file("file://" + r, r); file("file:" + r, "!"); if (r != "/") file("file:/" + r, "!"); }
			else { file("file:" + r, want); file("file://" + r, "!"); }
		}
		for (auto & r : extra) if (hasScheme(r)) {
			if (r.compare(0, 5, "file:") == 0) continue;
			if (!ctx.begin([&] { return "resolve file " + q(base) + " with " + q(r); })) continue;
			S got = run([&] { auto x = UriResolve::resolve(File(base), r); return kind(*x) + " " + x->toUriString(); }), want = run([&] { std::unique_ptr<Uri> x; Balau::Resource::fromString(x, r); return kind(*x) + " " + x->toUriString(); });
			ctx.check(got == want, "file.scheme", [&] { return base + " with " + r + ": " + got + ", expected " + want; });
		} else file(r, r[0] == '/' || from.empty() ? r : from + "/" + r);
		// Archives: a path is relative to the directory of the archive.
		for (auto & r : refs) if (!r.empty() && r.size() < 6) {
			if (dir) continue;
			if (!ctx.begin([&] { return "resolve archive " + q(base) + ".zip with " + q(r); })) continue;
			S got = run([&] { auto x = UriResolve::resolve(ZipFile(File(base + ".zip")), r); return kind(*x) + " " + x->toRawString(); });
			S want = r[0] == '/' ? r : from + r; const S prefix = "Balau::Resource::ZipFile ";
			ctx.check(got.compare(0, prefix.size(), prefix) == 0 && canon(got.substr(prefix.size())) == canon(want), "archive", [&] { return base + ".zip with " + r + ": " + got + ", expected " + want; });
		}
	}
	// D. Entries of an archive.
	const std::vector<S> names = { "a", "b.c", "d/", "d/a", "d/e/", "d/e/a", "d/e/b.c" };
	S zip = ctx.scratch + "/t/x.zip";
	{ Balau::Util::Zipper z; z.open(File(zip), true); S x = "x"; for (auto & n : names) if (n.back() == '/') z.putDirectory(n); else z.putEntry(n, x); z.commit(); }
	for (auto & name : names) for (auto & r : refs) {
		S want = norm("/" + (r[0] == '/' ? r : baseOf(name) + r)).substr(1);
		S target; for (auto & n : names) if (n == want || n == want + "/") target = n;
		if (r.empty() || target.empty()) continue;
		if (dirLike(r) && target.back() != '/') continue;
		if (!ctx.begin([&] { return "resolve entry " + q(name) + " with " + q(r); })) continue;
		ctx.nontrivial(hash(name + "!" + r));
		S got = run([&] { ZipFile f { File(zip) }; auto i = f.recursiveZipFileIterator(); while (i.hasNext()) { auto e = i.next(); if (e.name() == name) { auto x = UriResolve::resolve(e, r); auto * z = dynamic_cast<ZipEntry *>(x.get()); return z ? z->name() : S("not an entry"); } } return S("no base"); });
		ctx.check(got == target, "entry", [&] { return name + " with " + r + ": " + got + ", expected " + target; });
	}
	// E. The text of a URI is parsed back to an equal URI.
	std::vector<S> paths; stringsUpTo({ "a", ".zip", "..", "/", " ", "é" }, deep ? 5 : 4, [&] (const S & p) { if (!p.empty()) paths.push_back(p); });
	for (auto & p : paths) {
		if (p.compare(0, 2, "//") == 0) continue;
		bool z = p.size() >= 4 && p.compare(p.size() - 4, 4, ".zip") == 0;
		if (!ctx.begin([&] { return "URI of file " + q(p); })) continue;
		ctx.nontrivial(hash("f" + p));
		S got = run([&] { std::unique_ptr<Uri> u; if (z) u = std::make_unique<ZipFile>(File(p)); else u = std::make_unique<File>(p); std::unique_ptr<Uri> x; std::shared_ptr<Uri> y; std::shared_ptr<const Uri> w; S t = u->toUriString(); Balau::Resource::fromString(x, t); Balau::Resource::fromString(y, t); Balau::Resource::fromString(w, t); return *x == *u && *y == *u && *w == *u && kind(*x) == kind(*u) ? S("same") : t + " gives " + kind(*x) + " " + x->toRawString(); });
		ctx.check(got == "same", "text", [&] { return p + ": " + got; });
		S plain = run([&] { std::unique_ptr<Uri> x; Balau::Resource::fromString(x, p); return kind(*x) + " " + x->toRawString(); });
		ctx.check(plain == S("Balau::Resource::") + (z ? "ZipFile " : "File ") + p, "plain", [&] { return p + ": " + plain; });
	}
	for (S u : { "http://h", "http://h:8/p?q#f", "https://u@h/", "https://[::1]/a.zip" }) {
		if (!ctx.begin([&] { return "URI " + q(u); })) continue;
		S got = run([&] { std::unique_ptr<Uri> x; Balau::Resource::fromString(x, u); return kind(*x) + " " + x->toUriString(); });
		ctx.check(got == S("Balau::Resource::") + (u[4] == 's' ? "Https " : "Http ") + u, "text", [&] { return u + ": " + got; });
	}
	return ctx.finish();
}
