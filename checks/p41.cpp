// P41: random numbers lie within the range asked for, reach both of its ends, and come again with the same seed.
#include <cmath>
#include <limits>
#include <set>
#include <Balau/Util/Random.hpp>
#include "vk.hpp"
using namespace vk;
using S = std::string;
Ctx * C;

template <class T> S str(T v) { std::ostringstream o; o.precision(21); o << v; return o.str(); }

// Values at most this far (in representable values) above the first; the number of values in a small range.
template <class T> T up(T v, unsigned n) { if constexpr (std::is_floating_point_v<T>) { while (n--) v = std::nextafter(v, std::numeric_limits<T>::max()); return v; } else return (T) (v + n); }
template <class T> bool fits(T v, unsigned n) { if constexpr (std::is_floating_point_v<T>) return v < std::numeric_limits<T>::max() / 2; else return (unsigned long long) std::numeric_limits<T>::max() - (unsigned long long) v >= n; }

template <class G, class T> void range(const char * type, T lower, T upper, unsigned seeds, unsigned draws) {
	S how = S(type) + " from " + str(lower) + " to " + str(upper);
	for (unsigned seed = 0; seed < seeds; ++seed) {
		G a(lower, upper, seed), b(lower, upper, seed);
		T v = T(), w = T();
		for (unsigned k = 0; k < draws; ++k) {
			v = a(); w = b(); ++C->transitions;
			if (!(v >= lower && v <= upper)) { C->violation("range", how + ", seed " + std::to_string(seed) + ": number " + std::to_string(k) + " is " + str(v)); return; }
			if (!(v == w)) { C->violation("seed", how + ", seed " + std::to_string(seed) + ": number " + std::to_string(k) + " is " + str(v) + " and then " + str(w)); return; }
		}
		C->nontrivial(hash(how) ^ (seed * 1000003u));
		C->beat(); ++C->traces;
	}
	for (int k = 0; k < 2; ++k) {   // Not seeded.
		G a(lower, upper);
		for (unsigned m = 0; m < draws; ++m) { T v = a(); if (!(v >= lower && v <= upper)) { C->violation("range", how + ", without a seed: " + str(v)); return; } }
	}
}
// All n+1 values from lower occur, and different seeds give different sequences.
template <class G, class T> void reached(const char * type, T lower, unsigned n) {
	T upper = up(lower, n);
	S how = S(type) + " from " + str(lower) + " to " + str(upper) + " (" + std::to_string(n + 1) + " values)";
	std::set<T> seen; std::set<S> sequences;
	unsigned draws = 64 * (n + 1);
	for (unsigned seed = 0; seed < 16; ++seed) {
		G g(lower, upper, seed); S seq;
		for (unsigned k = 0; k < draws; ++k) { T v = g(); ++C->transitions; if (!(v >= lower && v <= upper)) { C->violation("range", how + ", seed " + std::to_string(seed) + ": " + str(v)); return; } seen.insert(v); if (k < 64) seq += str(v) + " "; }
		sequences.insert(seq); C->beat(); ++C->traces;
	}
	if (seen.size() != n + 1) C->violation("reached", how + ": only " + std::to_string(seen.size()) + " values in 16 sequences of " + std::to_string(draws) + ", from " + str(*seen.begin()) + " to " + str(*seen.rbegin()));
	if (n && sequences.size() != 16) C->violation("seed", how + ": only " + std::to_string(sequences.size()) + " sequences for 16 seeds");
	C->nontrivial(hash(how));
}

template <class G, class T> void type(const char * name) {
	using L = std::numeric_limits<T>;
	std::vector<T> vs;
	if constexpr (std::is_floating_point_v<T>) {
		for (T m : { (T) 0, L::denorm_min(), L::min(), (T) 1e-30, (T) 0.1, (T) 0.5, (T) 1, (T) 3, (T) 10, (T) 1000.25, (T) 16777216, (T) 9007199254740992.0, (T) 1e30 }) for (T s : { (T) 1, (T) -1 }) { vs.push_back(s * m); vs.push_back(up(s * m, 1)); }
		vs.push_back(L::max() / 4); vs.push_back(-L::max() / 4);
	} else {
		for (T m : { (T) 0, (T) 1, (T) 2, (T) 3, (T) 10, (T) 100, (T) 1000003, (T) (L::max() / 2), (T) (L::max() - 1), L::max(), L::min(), (T) (L::min() + 1) }) vs.push_back(m);
		if constexpr (std::is_signed_v<T>) for (T m : { (T) -1, (T) -2, (T) -10, (T) -1000003 }) vs.push_back(m);
	}
	std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
	for (size_t a = 0; a < vs.size(); ++a) {
		if (!C->begin([&] { return S(name) + ": ranges from " + str(vs[a]); })) continue;
		for (size_t b = a; b < vs.size(); ++b) range<G, T>(name, vs[a], vs[b], C->thorough() ? 256 : 48, C->thorough() ? 64 : 32);
		for (unsigned n = 0; n <= (C->thorough() ? 24u : 9u); ++n) if (fits(vs[a], n)) reached<G, T>(name, vs[a], n);
	}
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	using namespace Balau::Util;
	type<UniformDouble, double>("UniformDouble");
	type<UniformFloat, float>("UniformFloat");
	type<UniformInt32, int>("UniformInt32");
	type<UniformInt64, long>("UniformInt64");
	type<UniformUInt32, unsigned int>("UniformUInt32");
	type<UniformUInt64, unsigned long long>("UniformUInt64");
	type<UniformReal<double>, double>("UniformReal<double>");
	type<UniformReal<float>, float>("UniformReal<float>");
	type<UniformInt<short>, short>("UniformInt<short>");
	type<UniformInt<unsigned short>, unsigned short>("UniformInt<unsigned short>");
	// The other distributions: the same sequence for the same seed.
	if (ctx.begin([] { return S("normal distributions"); })) {
		for (double mean : { -1000.0, -1.0, 0.0, 0.5, 1e6 }) for (double dev : { 0.001, 0.5, 1.0, 100.0 }) for (unsigned seed = 0; seed < 64; ++seed) {
			NormalDouble a(mean, dev, seed), b(mean, dev, seed); NormalFloat fa((float) mean, (float) dev, seed), fb((float) mean, (float) dev, seed);
			double sum = 0, sq = 0;
			for (int k = 0; k < 400; ++k) {
				double v = a(); float f = fa(); sum += (v - mean) / dev; sq += (v - mean) / dev * ((v - mean) / dev);
				if (v != b() || f != fb()) { ctx.violation("seed", "a normal distribution does not come again with its seed"); break; }
				if (std::fabs((v - mean) / dev) > 9) ctx.violation("normal", "a number of the normal distribution of mean " + str(mean) + " and deviation " + str(dev) + " is " + str(v));
			}
			if (std::fabs(sum / 400) > 0.35 || sq / 400 < 0.5 || sq / 400 > 1.7) ctx.violation("normal", "400 numbers of the normal distribution of mean " + str(mean) + " and deviation " + str(dev) + ", seed " + std::to_string(seed) + ": mean " + str(sum / 400) + ", variance " + str(sq / 400) + " (of the standardised values)");
			ctx.transitions += 400; ++ctx.traces; ctx.nontrivial(hash(str(mean) + " " + str(dev)) ^ seed);
		}
	}
	ctx.finish();
	return 0;
}
