// P11: the dependency graph against an adjacency matrix.
#include <algorithm>
#include <string>
#include <Balau/Container/DependencyGraph.hpp>
#include "vk.hpp"
using namespace vk;
using namespace Balau;

struct Edge { int v = 0; Edge() = default; Edge(int v_) : v(v_) {} };
struct Model {
	static const int N = 6;
	int n = 0;                       // Names in use are below this.
	bool in[N] = {};
	std::vector<int> order;
	int e[N][N] = {};                // 0: no edge; otherwise 1 + data.
	bool reach(int a, int b, bool nonEmpty) const {
		bool seen[N] = {}; std::vector<int> st;
		if (!nonEmpty && a == b) return true;
		st.push_back(a);
		while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y = 0; y < N; ++y) if (e[x][y]) { if (y == b) return true; if (!seen[y]) { seen[y] = true; st.push_back(y); } } }
		return false;
	}
	bool cyclic() const { for (int i = 0; i < N; ++i) if (in[i] && reach(i, i, true)) return true; return false; }
	int level(int v) const { int r = 0; for (int x = 0; x < N; ++x) if (e[x][v]) r = std::max(r, 1 + level(x)); return r; }
	std::string show() const {
		std::string r = "nodes";
		for (int x : order) r += " " + std::to_string(x);
		r += " edges";
		for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) if (e[a][b]) r += " " + std::to_string(a) + ">" + std::to_string(b) + (e[a][b] > 1 ? ":" + std::to_string(e[a][b] - 1) : "");
		return r;
	}
};
static std::string show(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string r; for (auto & s : v) r += s + " "; return r; }
static std::string name(int v) { return "node-" + std::to_string(v); }

template <class G, bool Iter, bool Data> void observe(Ctx & ctx, G & g, const Model & m, const std::string & how, bool full) {
	const G & cg = g;
	auto eq = [&] (const char * key, const std::string & got, const std::string & want) {
		ctx.check(got == want, key, [&] { return how + ": " + m.show() + ": got " + got + ", expected " + want; });
	};
	const bool cyc = m.cyclic();
	eq("cycle test", cg.hasCycles() ? "y" : "n", cyc ? "y" : "n");
	std::vector<std::pair<std::string, std::string>> edges { { "x", "y" } };
	bool r = cg.hasCycles(edges);
	eq("cycle test with edges", r ? "y" : "n", cyc ? "y" : "n");
	eq("cycle test keeps earlier edges", edges.empty() ? "" : edges[0].first, "x");
	Model cut = m;
	for (size_t i = 1; i < edges.size(); ++i) {
		int a = edges[i].first.back() - '0', b = edges[i].second.back() - '0';
		eq("cycle edge exists", m.e[a][b] ? "y" : "n", "y");
		eq("cycle edge is on a cycle", m.reach(b, a, false) ? "y" : "n", "y");
		cut.e[a][b] = 0;
	}
	eq("removing the cycle edges breaks every cycle", cut.cyclic() ? "n" : "y", "y");
	for (int v = 0; v < Model::N; ++v) {
		eq("has", cg.hasDependency(name(v)) ? "y" : "n", m.in[v] ? "y" : "n");
		auto * l = cg.lookupDependency(name(v));
		eq("lookup", l ? *l : "none", m.in[v] ? name(v) : "none");
		if (m.in[v]) {
			std::vector<std::string> want;
			for (int x = 0; x < Model::N; ++x) if (m.e[x][v]) want.push_back(name(x));
			eq("direct dependencies", show(cg.directDependenciesOf(name(v))), show(want));
		} else if (full) {
			bool threw = false; try { cg.directDependenciesOf(name(v)); } catch (...) { threw = true; }
			eq("direct dependencies of an unknown node", threw ? "y" : "n", "y");
		}
	}
	if constexpr (Data) {
		for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) {
			std::string got, want = !m.in[a] || !m.in[b] ? "no node" : m.e[a][b] ? std::to_string(m.e[a][b] - 1) : "no edge";
			try { got = std::to_string(cg.getRelation(name(a), name(b)).v); }
			catch (const Exception::ItemDoesNotExistException<std::string> &) { got = "no node"; }
			catch (const Exception::RelationshipDoesNotExistException<std::string, std::string> &) { got = "no edge"; }
			eq("relation", got, want);
		}
	}
	if (cyc) {
		if (full) {
			bool t1 = false, t2 = false;
			try { cg.dependencyOrder(); } catch (...) { t1 = true; }
			try { cg.parallelDependencyOrder(); } catch (...) { t2 = true; }
			eq("dependency order of a cyclic graph", t1 ? "throws" : "returns", "throws");
			eq("parallel dependency order of a cyclic graph", t2 ? "throws" : "returns", "throws");
		}
	} else {
		auto o = cg.dependencyOrder();
		std::vector<std::string> all; for (int x : m.order) all.push_back(name(x));
		eq("order visits each node once", show(o), show(all));
		std::map<std::string, size_t> pos; for (size_t i = 0; i < o.size(); ++i) pos[o[i]] = i;
		for (int a = 0; a < Model::N; ++a) for (int b = 0; b < Model::N; ++b) if (m.e[a][b]) eq("dependencies first", pos[name(a)] < pos[name(b)] ? "y" : "n", "y");
		auto p = cg.parallelDependencyOrder();
		std::map<int, std::vector<std::string>> want; int maxL = 0;
		for (int x : m.order) { want[m.level(x)].push_back(name(x)); maxL = std::max(maxL, m.level(x)); }
		std::string gs, ws;
		for (auto & l : p) gs += show(l) + "/ ";
		for (int l = 0; l <= maxL; ++l) ws += show(want[l]) + "/ ";
		eq("parallel order", gs, ws);
	}
	if constexpr (Iter) {
		std::vector<std::string> a, b, all; size_t lim = 10;
		for (auto i = g.begin(); i != g.end() && lim; ++i, --lim) a.push_back(*i);
		lim = 10;
		for (auto i = cg.begin(); i != cg.end() && lim; ++i, --lim) b.push_back(*i);
		for (int x : m.order) all.push_back(name(x));
		eq("iteration", show(a), show(all)); eq("iteration", show(b), show(all));
	}
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv);
	const bool th = ctx.thorough();
	using G = Container::DependencyGraph<std::string>;
	using GD = Container::DependencyGraph<std::string, Edge>;
	// 1. Every graph of up to 4 nodes with self loops (thorough: 5 nodes without), nodes added in several orders, edges forwards and backwards.
	auto graph = [&] (int n, bool loops, uint64_t bits, const std::vector<int> & order, bool back) {
		std::vector<std::pair<int, int>> es;
		for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (loops || a != b) es.emplace_back(a, b);
		Model m; m.n = n;
		G g;
		for (int v : order) { g.addDependency(name(v)); m.in[v] = true; m.order.push_back(v); }
		for (size_t i = 0; i < es.size(); ++i) { size_t k = back ? es.size() - 1 - i : i; if (bits >> k & 1) { g.addRelationship(name(es[k].first), name(es[k].second)); m.e[es[k].first][es[k].second] = 1; } }
		++ctx.transitions; ctx.state(hash(m.show())); ctx.nontrivial(bits * 64 + (uint64_t) n);
		observe<G, true, false>(ctx, g, m, "built", true);
	};
	for (int n = 0; n <= 4; ++n) {
		std::vector<int> order; for (int i = 0; i < n; ++i) order.push_back(i);
		do {
			if (n == 4 && !th && (order[0] > order[1]) != (order[2] < order[3])) continue;
			const uint64_t lim = 1ull << (n * n);
			for (uint64_t lo = 0; lo < lim; lo += 1024) {
				if (!ctx.begin([&] { std::string s; for (int v : order) s += std::to_string(v); return "graphs of " + std::to_string(n) + " nodes added in order " + s + " from " + std::to_string(lo); })) continue;
				for (uint64_t bits = lo; bits < std::min(lim, lo + 1024); ++bits) { if (n == 4 && !th && __builtin_popcountll(bits) > 6) continue; graph(n, true, bits, order, order.size() > 1 && order[0] > order[1]); }
			}
		} while (std::next_permutation(order.begin(), order.end()));
	}
	{
		const uint64_t lim = 1ull << 20;
		for (uint64_t lo = 0; lo < lim; lo += 1024) {
			if (!th && __builtin_popcountll(lo >> 10) > 2) continue;
			if (!ctx.begin([&] { return "graphs of 5 nodes from " + std::to_string(lo); })) continue;
			for (uint64_t bits = lo; bits < lo + 1024; ++bits) if (th || __builtin_popcountll(bits) <= 5) graph(5, false, bits, { 4, 1, 3, 0, 2 }, false);
		}
	}
	// 2. Every sequence of operations over three names.
	struct Op { int kind, a, b; };
	std::vector<Op> ops;
	for (int v = 0; v < 3; ++v) for (int k = 0; k < 4; ++k) ops.push_back({ k, v, 0 });
	for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int k = 4; k < 7; ++k) ops.push_back({ k, a, b });
	auto str = [] (const Op & o) {
		const char * n[] = { "add", "addIfNew", "remove", "removeIfThere", "relate", "relate=5", "unrelate" };
		return std::string(n[o.kind]) + "(" + std::to_string(o.a) + (o.kind >= 4 ? "," + std::to_string(o.b) : "") + ")";
	};
	auto step = [&] (GD & g, Model & m, const Op & o, const std::string & how) {
		std::string got = "ok", want = "ok";
		try {
			switch (o.kind) {
				case 0: g.addDependency(name(o.a)); break;
				case 1: g.addDependency(name(o.a), false); break;
				case 2: g.removeDependency(name(o.a)); break;
				case 3: g.removeDependency(name(o.a), false); break;
				case 4: g.addRelationship(name(o.a), name(o.b)); break;
				case 5: g.addRelationship(name(o.a), name(o.b), 5); break;
				case 6: g.removeRelationship(name(o.a), name(o.b)); break;
			}
		}
		catch (const Exception::ItemExistsException<std::string> &) { got = "exists"; }
		catch (const Exception::ItemDoesNotExistException<std::string> &) { got = "does not exist"; }
		catch (const std::exception & e) { got = std::string("exception ") + e.what(); }
		if (o.kind < 2) { if (m.in[o.a]) { if (o.kind == 0) want = "exists"; } else { m.in[o.a] = true; m.order.push_back(o.a); } }
		else if (o.kind < 4) {
			if (!m.in[o.a]) { if (o.kind == 2) want = "does not exist"; }
			else { m.in[o.a] = false; m.order.erase(std::find(m.order.begin(), m.order.end(), o.a)); for (int x = 0; x < Model::N; ++x) m.e[x][o.a] = m.e[o.a][x] = 0; }
		} else if (!m.in[o.a] || !m.in[o.b]) want = "does not exist";
		else if (o.kind == 6) m.e[o.a][o.b] = 0;
		else if (!m.e[o.a][o.b]) m.e[o.a][o.b] = o.kind == 5 ? 6 : 1;
		++ctx.transitions;
		ctx.check(got == want, "outcome of an operation", [&] { return how + ": got " + got + ", expected " + want; });
	};
	// Prefixes that make the interesting states, then every continuation.
	std::vector<std::vector<Op>> prefixes = { {}, { { 0, 0, 0 }, { 0, 1, 0 }, { 0, 2, 0 } }, { { 0, 2, 0 }, { 0, 0, 0 }, { 0, 1, 0 }, { 4, 0, 1 }, { 5, 1, 2 } },
		{ { 0, 0, 0 }, { 0, 1, 0 }, { 0, 2, 0 }, { 5, 0, 1 }, { 4, 1, 2 }, { 5, 2, 0 } } };
	for (auto & pre : prefixes) for (auto & o1 : ops) for (auto & o2 : ops) {
		std::string how; for (auto & o : pre) how += str(o) + " ";
		how += str(o1) + " " + str(o2);
		if (!ctx.begin([&] { return how; })) continue;
		GD g; Model m;
		for (auto & o : pre) step(g, m, o, how);
		step(g, m, o1, how);
		step(g, m, o2, how);
		observe<GD, false, true>(ctx, g, m, how, true);
		ctx.state(hash(m.show())); ctx.nontrivial(hash(how));
		std::function<void (const GD &, const Model &, const std::string &, int)> go = [&] (const GD & g0, const Model & m0, const std::string & h0, int left) {
			for (auto & o3 : ops) {
				GD g3(g0); Model m3 = m0; auto h = h0 + " " + str(o3);
				step(g3, m3, o3, h);
				ctx.state(hash(m3.show()));
				++ctx.traces;
				observe<GD, false, true>(ctx, g3, m3, h, false);
				if (left > 1) go(g3, m3, h, left - 1);
			}
		};
		go(g, m, how, th ? 2 : 1);
	}
	return ctx.finish();
}
