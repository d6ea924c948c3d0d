// Verification kit for bounded-exhaustive (explicit-state) harnesses.
//
// A harness enumerates cases in a fixed, deterministic order. The n-th case belongs to shard n % shards.
// Every harness reports what it covered, and every mismatch it saw, through a Ctx.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace vk {

inline std::string jsonEscape(const std::string & s) {
	std::string r;
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
		else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char) c;
	}
	return r;
}

// Printable form of a string that may hold anything.
inline std::string q(const std::string & s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		char b[8];
		if (c == '\n') r += "\\n";
		else if (c == '\r') r += "\\r";
		else if (c == '\t') r += "\\t";
		else if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
		else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += (char) c;
	}
	return r + "\"";
}

inline uint64_t hash(const void * p, size_t n, uint64_t h = 1469598103934665603ull) {
	auto * c = (const unsigned char *) p;
	for (size_t m = 0; m < n; ++m) { h ^= c[m]; h *= 1099511628211ull; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
	return h;
}
inline uint64_t hash(const std::string & s) { return hash(s.data(), s.size()); }

struct Shared { std::atomic<uint64_t> current; std::atomic<uint64_t> heartbeat; };

class Ctx {
public:
	std::string tier = "quick", out, describeTo, scratch, schedule;
	uint64_t shard = 0, shards = 1, only = ~0ull;
	bool single = false;
	double budget = 1e18;
	uint64_t idx = 0, evaluations = 0, transitions = 0, traces = 0;
	bool thorough() const { return tier == "thorough"; }

	Ctx(int argc, char ** argv) {
		std::string hb;
		for (int m = 1; m + 1 < argc; m += 2) {
			std::string k = argv[m], v = argv[m + 1];
			if (k == "--tier") tier = v;
			else if (k == "--out") out = v;
			else if (k == "--shard") shard = std::stoull(v);
			else if (k == "--shards") shards = std::stoull(v);
			else if (k == "--only") { only = std::stoull(v); single = true; }
			else if (k == "--hb") hb = v;
			else if (k == "--budget") budget = std::stod(v);
			else if (k == "--scratch") scratch = v;
			else if (k == "--describe") describeTo = v;
			else if (k == "--schedule") schedule = v;
		}
		if (scratch.empty()) scratch = "/tmp";
		if (!hb.empty()) {
			int fd = open(hb.c_str(), O_RDWR | O_CREAT, 0600);
			if (ftruncate(fd, sizeof(Shared))) {}
			void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			close(fd);
			sh = (Shared *) p;
		} else sh = &local;
		sh->current = ~0ull; sh->heartbeat = 0;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
	}

	double elapsed() const {
		timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
		return double(t.tv_sec - t0.tv_sec) + 1e-9 * double(t.tv_nsec - t0.tv_nsec);
	}

	// Starts the next case; false when the case is another shard's.
	template <class F> bool begin(F describe) {
		uint64_t me = idx++;
		if (single) { if (me != only) return false; }
		else if (me % shards != shard) return false;
		if (!exhaustedBudget && (me & 63) == 0 && elapsed() > budget) exhaustedBudget = true;
		if (exhaustedBudget) { ++skipped; return false; }
		cur = me;
		sh->current = me; ++sh->heartbeat;
		++evaluations;
		if (!describeTo.empty()) { std::ofstream o(describeTo); o << describe(); }
		else if (single) std::fprintf(stderr, "case %lu: %s\n", (unsigned long) me, describe().c_str());
		if (samples.size() < 4 && evaluations >= nextSample) { samples.push_back(describe()); nextSample = nextSample * 7 + 1; }
		return true;
	}
	// A case that every shard takes part in.
	template <class F> bool beginAll(F describe) {
		if (single) return begin(describe);
		uint64_t keepShards = shards, keepShard = shard;
		shards = 1; shard = 0;
		bool r = begin(describe);
		shards = keepShards; shard = keepShard;
		return r;
	}
	void overBudget() { exhaustedBudget = true; ++skipped; }
	void beat() { ++sh->heartbeat; }
	void nontrivial(uint64_t h) { if (distinct.size() < 4000000) distinct.insert(h); }
	void state(uint64_t h) { if (states.size() < 4000000) states.insert(h); }
	void outcome(const std::string & k) { ++outcomes[k]; }
	void note(const std::string & k, const std::string & v) { notes[k] = v; }

	// key: short and stable: what known_findings.txt names. detail: all that is needed to see the failure.
	void violation(const std::string & key, const std::string & detail) {
		++violations;
		auto & v = found[key];
		if (v.count++ == 0) { v.idx = cur; v.detail = detail; }
	}
	bool check(bool ok, const std::string & key, const std::function<std::string ()> & detail) {
		if (!ok) violation(key, detail());
		return ok;
	}

	int finish() {
		if (out.empty()) {
			std::fprintf(stderr, "evaluations %lu distinct %zu states %zu transitions %lu violations %lu skipped %lu\n", (unsigned long) evaluations,
				distinct.size(), states.size(), (unsigned long) transitions, (unsigned long) violations, (unsigned long) skipped);
			for (auto & o : outcomes) std::fprintf(stderr, "  outcome %s: %lu\n", o.first.c_str(), (unsigned long) o.second);
			for (auto & f : found) std::fprintf(stderr, "  VIOL %s (x%lu, case %lu): %s\n", f.first.c_str(), (unsigned long) f.second.count, (unsigned long) f.second.idx, f.second.detail.c_str());
			return violations ? 1 : 0;
		}
		FILE * o = std::fopen(out.c_str(), "w");
		std::fprintf(o, "{\"evaluations\":%lu,\"transitions\":%lu,\"traces\":%lu,\"skipped\":%lu,\"cases\":%lu,\"violations\":[", (unsigned long) evaluations,
			(unsigned long) transitions, (unsigned long) traces, (unsigned long) skipped, (unsigned long) idx);
		bool first = true;
		for (auto & f : found) {
			std::fprintf(o, "%s{\"key\":\"%s\",\"count\":%lu,\"idx\":%lu,\"detail\":\"%s\"}", first ? "" : ",", jsonEscape(f.first).c_str(),
				(unsigned long) f.second.count, (unsigned long) f.second.idx, jsonEscape(f.second.detail).c_str());
			first = false;
		}
		std::fprintf(o, "],\"samples\":[");
		first = true;
		for (auto & s : samples) { std::fprintf(o, "%s\"%s\"", first ? "" : ",", jsonEscape(s).c_str()); first = false; }
		std::fprintf(o, "],\"outcomes\":{");
		first = true;
		for (auto & s : outcomes) { std::fprintf(o, "%s\"%s\":%lu", first ? "" : ",", jsonEscape(s.first).c_str(), (unsigned long) s.second); first = false; }
		std::fprintf(o, "},\"notes\":{");
		first = true;
		for (auto & s : notes) { std::fprintf(o, "%s\"%s\":\"%s\"", first ? "" : ",", jsonEscape(s.first).c_str(), jsonEscape(s.second).c_str()); first = false; }
		std::fprintf(o, "}}\n");
		std::fclose(o);
		dump(out + ".distinct", distinct);
		dump(out + ".states", states);
		return 0;
	}

private:
	struct Found { uint64_t count = 0, idx = 0; std::string detail; };
	Shared local; Shared * sh;
	timespec t0;
	uint64_t cur = 0, nextSample = 1, violations = 0, skipped = 0;
	bool exhaustedBudget = false;
	std::unordered_set<uint64_t> distinct, states;
	std::map<std::string, uint64_t> outcomes;
	std::map<std::string, Found> found;
	std::map<std::string, std::string> notes;
	std::vector<std::string> samples;

	static void dump(const std::string & f, const std::unordered_set<uint64_t> & s) {
		FILE * o = std::fopen(f.c_str(), "w");
		for (auto h : s) std::fwrite(&h, 8, 1, o);
		std::fclose(o);
	}
};

// All strings over the alphabet (of byte strings) of exactly n items: f(string).
template <class F> void strings(const std::vector<std::string> & alphabet, size_t n, F f) {
	std::vector<size_t> ix(n, 0);
	while (true) {
		std::string s;
		for (auto i : ix) s += alphabet[i];
		f(s);
		size_t p = n;
		while (p > 0) { if (++ix[p - 1] < alphabet.size()) break; ix[--p] = 0; }
		if (p == 0) return;
	}
}
template <class F> void stringsUpTo(const std::vector<std::string> & alphabet, size_t n, F f) {
	for (size_t m = 0; m <= n; ++m) strings(alphabet, m, f);
}
// All sequences of n digits below base: f(vector<int>).
template <class F> void sequences(size_t base, size_t n, F f) {
	std::vector<int> ix(n, 0);
	while (true) {
		f(ix);
		size_t p = n;
		while (p > 0) { if (++ix[p - 1] < (int) base) break; ix[--p] = 0; }
		if (p == 0) return;
	}
}

// An input string in a heap block of exactly its size, so that the address sanitiser sees any read past its end.
struct Exact {
	char * p; size_t n;
	explicit Exact(const std::string & s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p, s.data(), n); }
	~Exact() { delete [] p; }
	Exact(const Exact &) = delete;
	std::string_view view() const { return std::string_view(p, n); }
};

} // namespace vk
