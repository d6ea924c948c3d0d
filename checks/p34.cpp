// P34: gzip and gunzip in every combination, and every damage of a small archive.
#include <boost/core/demangle.hpp>
#include <Balau/Util/Compression.hpp>
#include <zlib.h>
#include <unistd.h>
#include "vk.hpp"
using namespace vk;
using namespace Balau;
using Util::GZip; using Resource::File;
using S = std::string;
Ctx * C;
S dir;

S content(int p, size_t n) {
	S s(n, '\0'); uint64_t x = 88172645463325252ull + (uint64_t) n;
	for (size_t i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s[i] = p == 0 ? (char) x : p == 1 ? '\0' : p == 2 ? "\r\n\x1a\0\xff"[i % 5] : (char) ('a' + x % 4); }
	return s;
}
S slurp(const S & f) { std::ifstream i(f, std::ios::binary); return S((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
void spit(const S & f, const S & s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), (std::streamsize) s.size()); }
// zlib's own reading of a gzip file; false when it is not a complete, intact one.
bool inflateAll(const S & in, S & out) {
	z_stream z {}; if (inflateInit2(&z, 15 + 16) != Z_OK) return false;
	z.next_in = (Bytef *) in.data(); z.avail_in = (uInt) in.size(); out.clear(); int r;
	do { char b[65536]; z.next_out = (Bytef *) b; z.avail_out = sizeof b; r = inflate(&z, Z_NO_FLUSH); out.append(b, sizeof b - z.avail_out); } while (r == Z_OK && (z.avail_in || z.avail_out == 0));
	bool ok = r == Z_STREAM_END && z.avail_in == 0; inflateEnd(&z); return ok;
}
S deflateAll(const S & in, int level) {
	z_stream z {}; deflateInit2(&z, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY); S out(compressBound(in.size()) + 64, '\0');
	z.next_in = (Bytef *) in.data(); z.avail_in = (uInt) in.size(); z.next_out = (Bytef *) &out[0]; z.avail_out = (uInt) out.size(); deflate(&z, Z_FINISH); out.resize(z.total_out); deflateEnd(&z); return out;
}
template <class F> bool attempt(F f) { try { f(); return true; } catch (const std::exception &) { return false; } }
// 0: to a file, 1: to a string, 2: to a stream read at once, 3: to a stream read one character at a time, 4: to a stream read by lines of get()
bool gunzip(int how, const S & from, S & out) {
	File f(from);
	if (how == 0) { S to = dir + ".out"; ::unlink(to.c_str()); bool ok = attempt([&] { GZip::gunzip(f, File(to)); }); out = slurp(to); ::unlink(to.c_str()); return ok; }
	if (how == 1) { out = "before"; return attempt([&] { GZip::gunzip(f, out); }); }
	out.clear(); std::unique_ptr<std::istream> s;
	if (!attempt([&] { GZip::gunzip(f, s); })) return false;
	s->exceptions(std::ios::badbit);
	return attempt([&] {
		if (how == 2) { std::ostringstream o; char b[4096]; while (s->read(b, sizeof b) || s->gcount()) o.write(b, s->gcount()); out = o.str(); if (s->bad()) throw std::runtime_error("bad"); }
		else { int c; while ((c = s->get()) != EOF) out += (char) c; if (s->bad()) throw std::runtime_error("bad"); } });
}
void gzip(int how, const S & s, const S & to) {
	if (how == 0) { spit(dir + ".in", s); GZip::gzip(File(dir + ".in"), File(to)); }
	else if (how == 1) GZip::gzip(s, File(to));
	else { std::istringstream i(s); GZip::gzip(i, File(to)); }
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	dir = ctx.scratch + "/p34." + std::to_string(getpid()); const S gz = dir + ".gz";
	std::vector<size_t> ns; for (size_t n = 0; n <= (ctx.thorough() ? 600u : 150u); ++n) ns.push_back(n);
	for (size_t k : { 256u, 1024u, 4096u, 8192u, 16384u, 32768u, 65536u, 131072u }) for (size_t d = k - 3; d <= k + 3; ++d) ns.push_back(d);
	for (size_t k : { 100000u, 262144u, 1000003u }) ns.push_back(k);
	for (size_t n : ns) for (int p = 0; p < 4; ++p) {
		if (!ctx.begin([&] { return "content " + std::to_string(p) + " of " + std::to_string(n) + " bytes"; })) continue;
		S s = content(p, n); ctx.nontrivial(hash(s) + (uint64_t) p);
		for (int how = 0; how < 3; ++how) {
			S what = "content " + std::to_string(p) + " of " + std::to_string(n) + " bytes, gzip " + std::to_string(how), back;
			spit(gz, S(200, 'x'));                                 // an earlier file must be replaced
			if (!attempt([&] { gzip(how, s, gz); })) { ctx.violation("gzip", what + ": exception"); continue; }
			ctx.check(inflateAll(slurp(gz), back) && back == s, "zlib", [&] { return what + ": zlib does not read it back"; });
			for (int un = 0; un < 4; ++un) { if (un == 3 && n > 20000) continue; S got; bool ok = gunzip(un, gz, got); ctx.check(ok && got == s, "roundTrip" + std::to_string(how) + std::to_string(un), [&] { return what + ", gunzip " + std::to_string(un) + (ok ? ": other content of " + std::to_string(got.size()) + " bytes" : ": exception"); }); }
		}
		for (int level : { 0, 1, 9 }) { spit(gz, deflateAll(s, level)); for (int un = 0; un < 3; ++un) { S got; bool ok = gunzip(un, gz, got); ctx.check(ok && got == s, "foreign" + std::to_string(un), [&] { return "zlib's gzip of level " + std::to_string(level) + ", " + std::to_string(n) + " bytes, gunzip " + std::to_string(un); }); } }
	}
	// Damage.
	for (int k = 0; k < 4; ++k) {
		S s = k == 0 ? S("") : k == 1 ? S("x") : k == 2 ? S("one one one one two two one") : content(0, ctx.thorough() ? 300 : 60);
		spit(gz, ""); gzip(1, s, gz); S image = slurp(gz);
		auto damaged = [&] (const S & img, const S & how) {
			spit(gz, img); ctx.nontrivial(hash(img)); S ref; bool intact = inflateAll(img, ref);
			for (int un = 0; un < 4; ++un) { S got; bool ok = gunzip(un, gz, got);
				ctx.outcome(ok ? "accepted" : "rejected");
				// Accepted: then it is the original, or (where only the header changed) what zlib reads too.
				if (ok && got != s) ctx.violation("damage" + std::to_string(un), how + ", gunzip " + std::to_string(un) + ": accepted as " + q(got) + (intact ? " (zlib accepts it)" : "") + " for " + q(s)); } };
		for (size_t n = 1; n < image.size(); ++n) if (ctx.begin([&] { return "gzip of " + q(s) + " truncated to " + std::to_string(n) + " of " + std::to_string(image.size()) + " bytes"; })) damaged(image.substr(0, n), "truncated to " + std::to_string(n) + " of " + std::to_string(image.size()));
		for (size_t n = 0; n < image.size(); ++n) for (int mask = 1; mask < 256; mask = ctx.thorough() ? mask + 1 : mask == 128 ? 255 : mask * 2) if (ctx.begin([&] { return "gzip of " + q(s) + ", byte " + std::to_string(n) + " xor " + std::to_string(mask); })) { S i = image; i[n] = (char) (i[n] ^ mask); damaged(i, "byte " + std::to_string(n) + " xor " + std::to_string(mask)); }
	}
	for (S e : { ".in", ".out", ".gz" }) ::unlink((dir + e).c_str());
	return ctx.finish();
}
