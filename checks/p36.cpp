// P36: digests against independent implementations (OpenSSL, zlib, a plain Keccak) at every length and every split.
#include <boost/core/demangle.hpp>
#include <Balau/Util/Hashing.hpp>
#include <Balau/ThirdParty/HashLibrary/hmac.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <zlib.h>
#include <unistd.h>
#include "vk.hpp"
using namespace vk;
using namespace Balau;
using Util::Hashing;
using S = std::string;
Ctx * C;

S hex(const unsigned char * p, size_t n) { static const char * d = "0123456789abcdef"; S r; for (size_t i = 0; i < n; ++i) { r += d[p[i] >> 4]; r += d[p[i] & 15]; } return r; }

// Keccak by the definition of the permutation (no optimised schedule).
struct RefKeccak {
	uint64_t a[5][5];
	static uint64_t rot(uint64_t v, int n) { return n % 64 ? v << (n % 64) | v >> (64 - n % 64) : v; }
	void permute() {
		unsigned lfsr = 1;
		for (int round = 0; round < 24; ++round) {
			uint64_t c[5], b[5][5];
			for (int x = 0; x < 5; ++x) c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
			for (int x = 0; x < 5; ++x) { uint64_t d = c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1); for (int y = 0; y < 5; ++y) a[x][y] ^= d; }
			int off[5][5] = {}; { int x = 1, y = 0; for (int t = 0; t < 24; ++t) { off[x][y] = (t + 1) * (t + 2) / 2 % 64; int n = (2 * x + 3 * y) % 5; x = y; y = n; } }
			for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) b[y][(2 * x + 3 * y) % 5] = rot(a[x][y], off[x][y]);
			for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) a[x][y] = b[x][y] ^ (~b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
			uint64_t rc = 0;
			for (int j = 0; j < 7; ++j) { if (lfsr & 1) rc |= 1ull << ((1 << j) - 1); lfsr = lfsr & 0x80 ? (lfsr << 1 ^ 0x71) & 0xff : lfsr << 1; }
			a[0][0] ^= rc;
		}
	}
	S digest(const S & in, size_t bits, unsigned char domain) {
		std::memset(a, 0, sizeof a);
		size_t rate = 200 - bits / 4;
		S m = in; m += (char) domain; while (m.size() % rate) m += '\0'; m[m.size() - 1] = (char) (m[m.size() - 1] | 0x80);
		for (size_t i = 0; i < m.size(); i += rate) {
			for (size_t k = 0; k < rate; ++k) { size_t l = k / 8; a[l % 5][l / 5] ^= (uint64_t) (unsigned char) m[i + k] << (8 * (k % 8)); }
			permute();
		}
		unsigned char o[200];
		for (size_t k = 0; k < bits / 8; ++k) { size_t l = k / 8; o[k] = (unsigned char) (a[l % 5][l / 5] >> (8 * (k % 8))); }
		return hex(o, bits / 8);
	}
};

S evp(const EVP_MD * md, const S & in) { unsigned char o[EVP_MAX_MD_SIZE]; unsigned n = 0; EVP_Digest(in.data(), in.size(), o, &n, md, nullptr); return hex(o, n); }
S refCrc(const S & in) { unsigned long c = crc32(0, (const Bytef *) in.data(), (uInt) in.size()); unsigned char o[4] = { (unsigned char) (c >> 24), (unsigned char) (c >> 16), (unsigned char) (c >> 8), (unsigned char) c }; return hex(o, 4); }

struct Alg {
	const char * name;
	std::function<S (const S &)> ref;
	std::function<S (S &)> text;
	std::function<S (std::istream &)> stream;
	std::function<S (const Resource::File &)> file;
	std::function<S (const std::vector<std::pair<const char *, size_t>> &, bool)> parts;   // true: asks twice for the digest
};
template <class D> S feed(D d, const std::vector<std::pair<const char *, size_t>> & v, bool twice) { if (std::is_same<D, HashLibrary::SHA3>::value || std::is_same<D, HashLibrary::Keccak>::value) twice = false; /* these two finish the state: one digest for each reset */ for (auto & p : v) d.add(p.first, p.second); S r = d.getHash(); if (twice) { S s = d.getHash(); if (s != r) return "second reading differs: " + r + " " + s; } return r; }
#define ALG(NAME, FN, REF, MAKE) Alg { NAME, [] (const S & s) -> S { return REF; }, [] (S & s) { return Hashing::FN(s); }, [] (std::istream & s) { return Hashing::FN(s); }, [] (const Resource::File & f) { return Hashing::FN(f); }, \
	[] (const std::vector<std::pair<const char *, size_t>> & v, bool t) { return feed(MAKE, v, t); } }

// Delivers at most `chunk` characters at a time.
struct Slow : std::streambuf {
	const S & s; size_t at = 0, chunk;
	Slow(const S & s_, size_t c) : s(s_), chunk(c) {}
	int_type underflow() override {
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (at >= s.size()) return traits_type::eof();
		size_t n = std::min(chunk, s.size() - at); char * p = const_cast<char *>(s.data()) + at;
		setg(p, p, p + n); at += n; return traits_type::to_int_type(*p);
	}
};

S content(int pattern, size_t n) {
	S s(n, '\0'); uint64_t x = 88172645463325252ull;
	for (size_t i = 0; i < n; ++i) switch (pattern) {
		case 0: s[i] = '\0'; break;
		case 1: s[i] = (char) 0xff; break;
		case 2: s[i] = (char) (i * 7 + 1); break;
		case 3: x ^= x << 13; x ^= x >> 7; x ^= x << 17; s[i] = (char) x; break;
		default: s[i] = "\r\n\x1a\0a"[i % 5]; break;
	}
	return s;
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	const std::vector<Alg> algs = {
		ALG("md5", md5, evp(EVP_md5(), s), HashLibrary::MD5()), ALG("sha1", sha1, evp(EVP_sha1(), s), HashLibrary::SHA1()), ALG("sha256", sha256, evp(EVP_sha256(), s), HashLibrary::SHA256()),
		ALG("sha3", sha3, evp(EVP_sha3_256(), s), HashLibrary::SHA3(HashLibrary::SHA3::Bits256)), ALG("keccak", keccak, RefKeccak().digest(s, 256, 1), HashLibrary::Keccak(HashLibrary::Keccak::Keccak256)),
		ALG("crc32", crc32, refCrc(s), HashLibrary::CRC32()) };
	auto eq = [&] (const S & key, const S & got, const S & want, const S & how) { ctx.check(got == want, key, [&] { return how + ": " + got + ", expected " + want; }); };

	{ ctx.beginAll([] { return S("the reference Keccak agrees with OpenSSL's SHA3"); });
		for (size_t n : { 0u, 1u, 135u, 136u, 137u, 271u, 272u, 273u, 500u }) eq("reference", RefKeccak().digest(content(3, n), 256, 6), evp(EVP_sha3_256(), content(3, n)), "self test"); }

	// Every length, every algorithm, by text, stream, slow stream and file.
	const size_t top = ctx.thorough() ? 1200 : 420;
	const size_t B = 144 * 7 * 1024;
	std::vector<size_t> lengths; for (size_t n = 0; n <= top; ++n) lengths.push_back(n);
	for (size_t k : { 4096u, 65536u }) for (size_t d = k - 1; d <= k + 1; ++d) lengths.push_back(d);
	for (size_t k = 1; k <= 2; ++k) for (size_t d = k * B - (ctx.thorough() ? 70 : 1); d <= k * B + (ctx.thorough() ? 70 : 1); ++d) lengths.push_back(d);
	for (int pattern : { 3, 0, 1, 4 }) for (size_t n : lengths) {
		if (pattern != 3 && n > 300 && !ctx.thorough() && n != B) continue;
		if (!ctx.begin([&] { return "content " + std::to_string(pattern) + " of " + std::to_string(n) + " bytes"; })) continue;
		S s = content(pattern, n); const S path = ctx.scratch + "/p36." + std::to_string(getpid());
		{ std::ofstream o(path, std::ios::binary); o.write(s.data(), (std::streamsize) n); }
		ctx.nontrivial(hash(s));
		for (auto & a : algs) {
			S want = a.ref(s), how = S(a.name) + " of content " + std::to_string(pattern) + ", " + std::to_string(n) + " bytes";
			eq(S(a.name) + ".text", a.text(s), want, how);
			{ std::istringstream i(s); eq(S(a.name) + ".stream", a.stream(i), want, how); }
			if (n <= top ? n % 8 == 0 || n < 140 : true) { for (size_t c : { size_t(1), size_t(7), size_t(64), size_t(100) }) { if (n > 70000 && c < 64) continue; if (n > 70000 && !ctx.thorough()) continue; Slow b(s, c); std::istream i(&b); eq(S(a.name) + ".slow", a.stream(i), want, how); } }
			eq(S(a.name) + ".file", a.file(Resource::File(path)), want, how);
			Exact e(s);
			eq(S(a.name) + ".add", a.parts({ { e.p, n } }, true), want, how);
		}
		::unlink(path.c_str());
	}

	// Every split of a content into two, and three, pieces.
	const size_t two = ctx.thorough() ? 420 : 290;
	for (size_t n = 0; n <= two; ++n) {
		if (!ctx.begin([&] { return "all splits in two of " + std::to_string(n) + " bytes"; })) continue;
		S s = content(3, n);
		for (auto & a : algs) { S want = a.ref(s);
			for (size_t i = 0; i <= n; ++i) { eq(S(a.name) + ".split", a.parts({ { s.data(), i }, { s.data() + i, n - i } }, (i & 15) == 0), want, S(a.name) + " of " + std::to_string(i) + " and " + std::to_string(n - i) + " bytes"); ctx.nontrivial(n << 20 | i); } }
	}
	std::vector<size_t> edges = { 0, 1, 3, 55, 56, 63, 64, 65, 119, 127, 128, 135, 136, 137, 143, 144, 200, 272 };
	for (size_t i : edges) for (size_t j : edges) {
		if (!ctx.begin([&] { return "pieces of " + std::to_string(i) + ", " + std::to_string(j) + " and others"; })) continue;
		for (size_t k : edges) { S s = content(3, i + j + k);
			for (auto & a : algs) eq(S(a.name) + ".pieces", a.parts({ { s.data(), i }, { s.data() + i, j }, { s.data() + i + j, k } }, false), a.ref(s), S(a.name) + " of " + std::to_string(i) + ", " + std::to_string(j) + ", " + std::to_string(k)); }
	}
	// The other widths, objects used again, and keyed digests.
	for (size_t n = 0; n <= (ctx.thorough() ? 600u : 330u); ++n) {
		if (!ctx.begin([&] { return "widths, reuse and hmac of " + std::to_string(n) + " bytes"; })) continue;
		S s = content(3, n), t = content(2, 77);
		namespace H = HashLibrary;
		using HS = H::SHA3; using HK = H::Keccak;
		for (auto & w : { std::make_pair(HS::Bits224, EVP_sha3_224()), std::make_pair(HS::Bits256, EVP_sha3_256()), std::make_pair(HS::Bits384, EVP_sha3_384()), std::make_pair(HS::Bits512, EVP_sha3_512()) }) {
			HS d(w.first); eq("sha3.widths", d(t), evp(w.second, t), "first"); eq("sha3.widths", d(s), evp(w.second, s), "width " + std::to_string(w.first) + ", " + std::to_string(n)); }
		for (auto & w : { std::make_pair(HK::Keccak224, 224u), std::make_pair(HK::Keccak256, 256u), std::make_pair(HK::Keccak384, 384u), std::make_pair(HK::Keccak512, 512u) }) {
			HK d(w.first); eq("keccak.widths", d(t), RefKeccak().digest(t, w.second, 1), "first"); eq("keccak.widths", d(s), RefKeccak().digest(s, w.second, 1), "width " + std::to_string(w.first) + ", " + std::to_string(n)); }
		{ H::MD5 d; eq("md5.reuse", d(t), evp(EVP_md5(), t), "first"); eq("md5.reuse", d(s), evp(EVP_md5(), s), std::to_string(n)); }
		{ H::SHA1 d; eq("sha1.reuse", d(t), evp(EVP_sha1(), t), "first"); eq("sha1.reuse", d(s), evp(EVP_sha1(), s), std::to_string(n)); }
		{ H::SHA256 d; eq("sha256.reuse", d(t), evp(EVP_sha256(), t), "first"); eq("sha256.reuse", d(s), evp(EVP_sha256(), s), std::to_string(n)); }
		{ H::CRC32 d; eq("crc32.reuse", d(t), refCrc(t), "first"); eq("crc32.reuse", d(s), refCrc(s), std::to_string(n)); }
		auto mac = [&] (const EVP_MD * md, const S & m, const S & k) { unsigned char o[EVP_MAX_MD_SIZE]; unsigned l = 0; HMAC(md, k.empty() ? "" : k.data(), (int) k.size(), (const unsigned char *) m.data(), m.size(), o, &l); return hex(o, l); };
		for (size_t kn : { 0u, 1u, 20u, 63u, 64u, 65u, 130u }) { S k = content(2, kn);
			eq("hmac.md5", H::hmac<H::MD5>(s, k), mac(EVP_md5(), s, k), std::to_string(n) + " key " + std::to_string(kn));
			eq("hmac.sha1", H::hmac<H::SHA1>(s, k), mac(EVP_sha1(), s, k), std::to_string(n) + " key " + std::to_string(kn));
			eq("hmac.sha256", H::hmac<H::SHA256>(s, k), mac(EVP_sha256(), s, k), std::to_string(n) + " key " + std::to_string(kn)); }
	}
	return ctx.finish();
}
