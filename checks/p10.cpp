// P10: the object trie against a plain tree of values.
#include <deque>
#include <list>
#include <memory>
#include <Balau/Container/ObjectTrie.hpp>
#include "vk.hpp"
using namespace vk;
using Balau::Container::ObjectTrie;
using Balau::Container::ObjectTrieNode;

// Values compare by key only, so that replacing shows in the tag. A value that was moved from has no key.
struct V {
	int key = 0, tag = 0;
	std::shared_ptr<int> payload = std::make_shared<int>(0);
	V() = default;
	V(int k, int t) : key(k), tag(t) {}
	V(const V &) = default;
	V(V && v) noexcept : key(v.key), tag(v.tag), payload(std::move(v.payload)) { if (&v != this) { v.key = -1; v.tag = -1; } }
	V & operator = (const V &) = default;
	V & operator = (V && v) noexcept { if (&v != this) { key = v.key; tag = v.tag; payload = std::move(v.payload); v.key = v.tag = -1; } return *this; }
	bool operator == (const V & v) const { return key == v.key; }
};
std::ostream & operator << (std::ostream & o, const V & v) { return o << v.key << '.' << v.tag; }
using Trie = ObjectTrie<V>;
using Node = ObjectTrieNode<V>;

struct M { int key = 0, tag = 0; std::vector<M> c; };

std::string show(const M & m) {
	std::string r = std::to_string(m.key) + "." + std::to_string(m.tag);
	if (!m.c.empty()) { r += "("; for (auto & x : m.c) r += show(x) + " "; r.back() = ')'; }
	return r;
}
std::string show(const Node & n) {
	std::string r = std::to_string(n.value.key) + "." + std::to_string(n.value.tag);
	if (n.count()) { r += "("; for (size_t i = 0; i < n.count(); ++i) r += show(n[i]) + " "; r.back() = ')'; }
	return r;
}
size_t sizeOf(const M & m) { size_t r = 1; for (auto & x : m.c) r += sizeOf(x); return r; }
void depth(const M & m, std::vector<const M *> path, std::vector<std::vector<const M *>> & out) {
	path.push_back(&m); out.push_back(path);
	for (auto & x : m.c) depth(x, path, out);
}
std::vector<const M *> breadth(const M & m) {
	std::vector<const M *> r { &m };
	for (size_t i = 0; i < r.size(); ++i) for (auto & x : r[i]->c) r.push_back(&x);
	return r;
}
M * nth(M & m, size_t & n) { if (n == 0) return &m; for (auto & x : m.c) { --n; if (auto * r = nth(x, n)) return r; } return nullptr; }
Node * nth(Node & m, size_t & n) { if (n == 0) return &m; for (size_t i = 0; i < m.count(); ++i) { --n; if (auto * r = nth(m[i], n)) return r; } return nullptr; }
M * mAt(M & m, size_t n) { return nth(m, n); }
Node * nAt(Node & m, size_t n) { return nth(m, n); }
M * mFind(M & m, int key) { for (auto & x : m.c) if (x.key == key) return &x; return nullptr; }
std::string one(const M * m) { return m ? std::to_string(m->key) + "." + std::to_string(m->tag) + "#" + std::to_string(m->c.size()) : "none"; }
std::string one(const Node * m) { return m ? std::to_string(m->value.key) + "." + std::to_string(m->value.tag) + "#" + std::to_string(m->count()) : "none"; }
void build(Node & n, const M & m) { for (auto & x : m.c) build(n.addAndReturnChild(V(x.key, x.tag)), x); }
Trie makeTrie(const M & m) { Trie t(V(m.key, m.tag)); build(t.root(), m); return t; }

template <class It, class T> std::string walk(It i, It e, size_t limit, T) {
	std::string r;
	for (; i != e; ++i) {
		if (limit-- == 0) return r + "...endless";
		r += std::to_string(i->value.key) + "." + std::to_string((*i).value.tag);
		T::more(i, r);
		r += " ";
	}
	return r;
}
struct Plain { template <class I> static void more(I &, std::string &) {} };
struct Anc {
	template <class I> static void more(I & i, std::string & r) {
		for (size_t l = 0; l < 8; ++l) { auto * a = i.getAncestor(l); r += a ? "<" + std::to_string(a->value.key) + "." + std::to_string(a->value.tag) : std::string("|"); if (!a) break; }
	}
};
struct AncAll { template <class I> static void more(I & i, std::string & r) { Anc::more(i, r); std::vector<const Node *> v { nullptr }; i.getAncestors(v); r += "/"; for (auto * a : v) r += std::to_string(a->value.key); } };

// Everything that can be seen of a trie without changing it.
void observe(Ctx & ctx, Trie & t, const M & m, const std::string & how) {
	const Trie & ct = t;
	const std::string want = show(m);
	auto eq = [&] (const std::string & key, const std::string & got, const std::string & expected) {
		ctx.check(got == expected, key, [&] { return how + " tree " + want + ": got " + got + ", expected " + expected; });
	};
	eq("content", show(ct.root()), want);
	if (show(ct.root()) != want) return;
	std::vector<std::vector<const M *>> d; depth(m, {}, d);
	std::string dp, da, dall, bp, bs;
	for (auto & p : d) {
		auto s = std::to_string(p.back()->key) + "." + std::to_string(p.back()->tag);
		dp += s + " ";
		std::string a = s, all;
		for (size_t l = 0; l < p.size(); ++l) a += "<" + std::to_string(p[p.size() - 1 - l]->key) + "." + std::to_string(p[p.size() - 1 - l]->tag);
		a += "|";
		for (auto * x : p) all += std::to_string(x->key);
		da += a + " ";
		dall += a + "/" + all + " ";
	}
	for (auto * x : breadth(m)) { auto s = std::to_string(x->key) + "." + std::to_string(x->tag); bp += s + " "; bs += s + "\n"; }
	const size_t lim = d.size() + 2;
	eq("depth order", walk(t.begin(), t.end(), lim, Plain()), dp);
	eq("depth order", walk(ct.begin(), ct.end(), lim, Plain()), dp);
	eq("depth ancestors", walk(t.depthBegin(), t.depthEnd(), lim, AncAll()), dall);
	eq("depth ancestors", walk(ct.depthBegin(), ct.depthEnd(), lim, Anc()), da);
	eq("breadth order", walk(t.breadthBegin(), t.breadthEnd(), lim, Plain()), bp);
	eq("breadth order", walk(ct.breadthBegin(), ct.breadthEnd(), lim, Plain()), bp);
	std::ostringstream o; o << ct; eq("printed", o.str(), bs);
	eq("empty", ct.empty() ? "y" : "n", m.c.empty() ? "y" : "n");
	eq("count", std::to_string(ct.count()), std::to_string(m.c.size()));
	for (size_t i = 0; i < m.c.size(); ++i) { eq("index", one(&t[i]), one(&m.c[i])); eq("index", one(&ct[i]), one(&m.c[i])); }
	for (size_t n = 0; n < d.size(); ++n) {
		Node & node = *nAt(t.root(), n); const Node & cn = node; const M & mm = *d[n].back();
		eq("node count", std::to_string(cn.count()), std::to_string(mm.c.size()));
		eq("node empty", cn.empty() ? "y" : "n", mm.c.empty() ? "y" : "n");
		std::string a, b, w;
		size_t l = mm.c.size() + 1;
		for (auto * p = node.begin(); p != node.end() && l; ++p, --l) a += one(p) + " ";
		l = mm.c.size() + 1;
		for (auto * p = cn.begin(); p != cn.end() && l; ++p, --l) b += one(p) + " ";
		for (auto & x : mm.c) w += one(&x) + " ";
		eq("node children", a, w); eq("node children", b, w);
		for (int k = 0; k < 3; ++k) {
			const M * f = mFind(const_cast<M &>(mm), k);
			auto cmp = [] (const V & x, const V & y) { return x.key == y.key; };
			auto cmpInt = [] (const V & x, const int & y) { return x.key == y; };
			eq("node find", one(node.find(V(k, 9))), one(f)); eq("node find", one(cn.find(V(k, 9))), one(f));
			eq("node find", one(node.find(V(k, 9), cmp)), one(f)); eq("node find", one(cn.find(V(k, 9), cmp)), one(f));
			eq("node find other type", one(node.find<int>(k, cmpInt)), one(f)); eq("node find other type", one(cn.find<int>(k, cmpInt)), one(f));
		}
	}
}

void lookups(Ctx & ctx, Trie & t, const M & m, size_t len, int keys) {
	const Trie & ct = t;
	const std::string want = show(m);
	for (size_t n = 0; n <= len; ++n) sequences((size_t) keys, n, [&] (const std::vector<int> & p) {
		std::vector<V> vv; std::list<int> ll(p.begin(), p.end()); std::deque<V> dq;
		for (int k : p) { vv.emplace_back(k, 9); dq.emplace_back(k, 9); }
		std::string ps; for (int k : p) ps += std::to_string(k);
		auto cmp = [] (const auto & x, const auto & y) { return x == y; };
		auto cmpInt = [] (const V & x, const int & y) { return x.key == y; };
		for (int skip = 0; skip < 2; ++skip) {
			// The model: descend by the first child of each key.
			const M * cur = &m; const M * nearest = nullptr; bool whole = !p.empty(); size_t i = 0;
			if (!skip && !p.empty()) { if (m.key != p[0]) { cur = nullptr; whole = false; } else { nearest = &m; i = 1; } }
			for (; cur && i < p.size(); ++i) { cur = mFind(const_cast<M &>(*cur), p[i]); if (cur) nearest = cur; else whole = false; }
			const M * exact = whole ? cur : nullptr;
			const M * leaf = nearest && nearest->c.empty() ? nearest : nullptr;
			auto eq = [&] (const char * key, const Node * got, const M * expected) {
				ctx.check(one(got) == one(expected), key, [&] { return "tree " + want + " path " + ps + " skipRoot " + std::to_string(skip) + ": got " + one(got) + ", expected " + one(expected); });
			};
			bool s = skip;
			eq("find", t.find(vv, s), exact); eq("find", ct.find(vv, s), exact); eq("find", t.find(dq, cmp, s), exact); eq("find", ct.find(dq, cmp, s), exact);
			eq("find", t.find(ll, cmpInt, s), exact); eq("find", ct.find(ll, cmpInt, s), exact);
			eq("findNearest", t.findNearest(vv, s), nearest); eq("findNearest", ct.findNearest(vv, s), nearest); eq("findNearest", t.findNearest(dq, cmp, s), nearest);
			eq("findNearest", ct.findNearest(dq, cmp, s), nearest); eq("findNearest", ct.findNearest(ll, cmpInt, s), nearest); eq("findNearest", t.findNearest(ll, cmpInt, s), nearest);
			eq("findNearestLeaf", t.findNearestLeaf(vv, s), leaf); eq("findNearestLeaf", ct.findNearestLeaf(vv, s), leaf); eq("findNearestLeaf", t.findNearestLeaf(dq, cmp, s), leaf);
			eq("findNearestLeaf", ct.findNearestLeaf(dq, cmp, s), leaf); eq("findNearestLeaf", ct.findNearestLeaf(ll, cmpInt, s), leaf); eq("findNearestLeaf", t.findNearestLeaf(ll, cmpInt, s), leaf);
			++ctx.transitions;
		}
		// findOrAdd, on copies.
		for (int variant = 0; variant < 3; ++variant) {
			Trie c(ct); M mc = m;
			M * cur = &mc;
			int made = 0;
			for (int k : p) { M * f = mFind(*cur, k); if (!f) { cur->c.push_back(M { k, variant == 0 ? 9 : variant == 1 ? 9 : 40 + made, {} }); ++made; f = &cur->c.back(); } cur = f; }
			int n2 = 0;
			Node & r = variant == 0 ? c.findOrAdd(vv) : variant == 1 ? c.findOrAdd(dq, cmp) : c.findOrAdd(ll, cmpInt, [&] (const int & k) { return V(k, 40 + n2++); });
			ctx.check(one(&r) == one(cur), "findOrAdd result", [&] { return "tree " + want + " path " + ps + ": got " + one(&r) + " expected " + one(cur); });
			ctx.check(show(c.root()) == show(mc), "findOrAdd", [&] { return "tree " + want + " path " + ps + ": got " + show(c.root()) + " expected " + show(mc); });
			++ctx.transitions;
		}
		ctx.check(show(ct.root()) == want, "copy independent", [&] { return "tree " + want + " changed to " + show(ct.root()); });
	});
}

void cascadeModel(M & a, const M & b, int & calls, int tagAdd) {
	for (auto & x : b.c) {
		M * f = mFind(a, x.key);
		++calls;
		if (f) { f->key = x.key; f->tag = x.tag + tagAdd; cascadeModel(*f, x, calls, tagAdd); }
		else { a.c.push_back(M { x.key, x.tag + tagAdd, {} }); M n = a.c.back(); cascadeModel(n, x, calls, tagAdd); a.c.back() = n; }
	}
}

const int kinds = 22;
// One operation on the node at position n. Both sides return the node that the call is said to return.
std::string apply(Trie & t, M & m, size_t n, int kind, int key, int tag, std::string & gotR, std::string & wantR) {
	Node & r = *nAt(t.root(), n); M & w = *mAt(m, n);
	const bool onTrie = n == 0 && kind >= 11;
	const V v(key, tag); V rv(key, tag);
	auto cmp = [] (const V & x, const V & y) { return x.key == y.key; };
	auto rep = [] (V & x, const V & y) { x.tag = y.tag + 100; };
	const int k = kind % 11;
	auto give = [&] (auto & target) {
		const Node * res = nullptr;
		switch (k) {
			case 0: res = &target.add(v); break;
			case 1: res = &target.add(std::move(rv)); break;
			case 2: res = &target.addOrReplace(v); break;
			case 3: res = &target.addOrReplace(std::move(rv)); break;
			case 4: res = &target.addOrReplace(v, cmp); break;
			case 5: res = &target.addOrReplace(std::move(rv), cmp); break;
			case 6: res = &target.addOrReplaceAndReturnChild(v); break;
			case 7: res = &target.addOrReplaceAndReturnChild(std::move(rv)); break;
			case 8: res = &target.addAndReturnChild(v); break;
			case 9: res = &target.addAndReturnChild(std::move(rv)); break;
			case 10: res = &target.addOrReplaceAndReturnChild(v, cmp); break;
		}
		return res;
	};
	const Node * res = onTrie ? give(t) : give(r);
	const bool replaces = k >= 2 && k != 8 && k != 9;
	M * f = replaces ? mFind(w, key) : nullptr;
	bool had = f != nullptr;
	if (had) { f->key = key; f->tag = tag; }
	else { w.c.push_back(M { key, tag, {} }); f = &w.c.back(); }
	const bool child = k >= 6;
	gotR = one(res);
	wantR = one(child ? f : &w);
	(void) rep;
	return "op" + std::to_string(kind) + "(" + std::to_string(n) + "," + std::to_string(key) + ")";
}

// All trees of n nodes with child keys below keys; f(tree).
void trees(size_t n, int keys, const std::function<void (const M &)> & f) {
	// A forest of k nodes below m.
	std::function<void (M &, size_t, const std::function<void ()> &)> forest = [&] (M & m, size_t k, const std::function<void ()> & g) {
		if (k == 0) { g(); return; }
		for (size_t first = 1; first <= k; ++first) for (int key = 0; key < keys; ++key) {
			m.c.push_back(M { key, 0, {} });
			const size_t at = m.c.size() - 1;
			M sub = m.c[at];
			forest(sub, first - 1, [&] { m.c.resize(at + 1); m.c[at] = sub; forest(m, k - first, g); });
			m.c.resize(at);
		}
	};
	M root;
	forest(root, n - 1, [&] {
		M c = root; int tag = 1;
		std::function<void (M &)> number = [&] (M & x) { x.tag = tag++; for (auto & y : x.c) number(y); };
		number(c);
		f(c);
	});
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv);
	const bool th = ctx.thorough();
	// 1. Every tree up to a size: all observations, lookups, copies, moves, and each single operation on each node.
	for (size_t n = 1; n <= (th ? 7u : 6u); ++n) trees(n, n <= 4 ? 3 : 2, [&] (const M & m) {
		if (!ctx.begin([&] { return "tree " + show(m); })) return;
		ctx.nontrivial(hash(show(m))); ctx.state(hash(show(m)));
		Trie t = makeTrie(m);
		observe(ctx, t, m, "built");
		lookups(ctx, t, m, 4, 3);
		{
			Trie c(t); observe(ctx, c, m, "copied");
			Trie mv(std::move(c)); observe(ctx, mv, m, "moved");
			Trie as(V(7, 7)); as.root().add(V(8, 8)); as = t; observe(ctx, as, m, "assigned");
			Trie am(V(7, 7)); am.root().add(V(8, 8)); am = std::move(as); observe(ctx, am, m, "move assigned");
			am.root().value.tag = 77; if (am.count()) { am[0].value.tag = 78; am[0].add(V(1, 79)); }
			observe(ctx, t, m, "after changing a copy");
			Trie shared(t); int seen = 0;
			(void) seen; (void) shared;
		}
		for (size_t at = 0; at < n; ++at) for (int kind = 0; kind < kinds; ++kind) for (int key = 0; key < 3; ++key) {
			Trie c(t); M mc = m; std::string g, w;
			auto how = apply(c, mc, at, kind, key, 50, g, w);
			ctx.check(g == w, "result of an insertion", [&] { return show(m) + " " + how + ": returned " + g + ", expected " + w; });
			ctx.check(show(c.root()) == show(mc), "insertion", [&] { return show(m) + " " + how + ": " + show(c.root()) + ", expected " + show(mc); });
			++ctx.transitions; ctx.state(hash(show(mc)));
		}
		// Forms with a replace function, findOrAddChild, and nested adders.
		for (size_t at = 0; at < n; ++at) for (int key = 0; key < 3; ++key) for (int form = 0; form < 10; ++form) {
			Trie c(t); M mc = m;
			Node & r = *nAt(c.root(), at); M & w = *mAt(mc, at);
			const V v(key, 50);
			auto cmp = [] (const V & x, const V & y) { return x.key == y.key; };
			auto cmpInt = [] (const V & x, const int & y) { return x.key == y; };
			auto rep = [] (V & x, const V & y) { x.tag += y.tag; };
			M * f = mFind(w, key);
			const Node * res = nullptr; const M * wr = nullptr;
			auto addModel = [&] (int tag) { w.c.push_back(M { key, tag, {} }); return &w.c.back(); };
			if (form == 0) { res = &r.addOrReplace(v, cmp, rep); if (f) f->tag += 50; else addModel(50); wr = &w; }
			else if (form == 1) { res = &r.addOrReplaceAndReturnChild(v, cmp, rep); if (f) f->tag += 50; else f = addModel(50); wr = f; }
			else if (form == 2) { res = &r.findOrAddChild(v); if (!f) f = addModel(50); wr = f; }
			else if (form == 3) { res = &r.findOrAddChild(V(key, 50)); if (!f) f = addModel(50); wr = f; }
			else if (form == 4) { res = &r.findOrAddChild(v, cmp); if (!f) f = addModel(50); wr = f; }
			else if (form == 5) { res = &r.findOrAddChild(key, cmpInt, [] (const int & k) { return V(k, 60); }); if (!f) f = addModel(60); wr = f; }
			else if (form == 6) {
				r.add(V(key, 50), Node::child(V(1, 51), Node::child(V(2, 52)), Node::child(V(0, 53))), Node::child(V(0, 54)));
				addModel(50); M & x = w.c.back(); x.c = { M { 1, 51, { M { 2, 52, {} }, M { 0, 53, {} } } }, M { 0, 54, {} } };
			}
			else if (form == 7) { if (at) continue; res = &c.addOrReplace(v, cmp, rep); if (f) f->tag += 50; else addModel(50); wr = &w; }
			else if (form == 8) { if (at) continue; res = &c.addOrReplaceAndReturnChild(v, cmp, rep); if (f) f->tag += 50; else f = addModel(50); wr = f; }
			else { if (at) continue; c.add(V(key, 50), Node::child(V(1, 51), Node::child(V(2, 52))), Node::child(V(0, 54)));
				addModel(50); M & x = w.c.back(); x.c = { M { 1, 51, { M { 2, 52, {} } } }, M { 0, 54, {} } }; }
			if (wr) ctx.check(one(res) == one(wr), "result of an insertion", [&] { return show(m) + " form " + std::to_string(form) + " at " + std::to_string(at) + ": returned " + one(res) + ", expected " + one(wr); });
			ctx.check(show(c.root()) == show(mc), "insertion", [&] { return show(m) + " form " + std::to_string(form) + " at " + std::to_string(at) + ": " + show(c.root()) + ", expected " + show(mc); });
			++ctx.transitions;
		}
	});
	// 2. All sequences of operations, observed after each.
	const int maxDepth = th ? 5 : 4;
	{
		// The first three are kept distinct from the tags in use so that replacing shows.
		std::function<void (Trie &, const M &, int, std::string)> go = [&] (Trie & t, const M & m, int d, std::string how) {
			const size_t n = sizeOf(m);
			for (size_t at = 0; at < n; ++at) for (int kind = 0; kind < 11; ++kind) for (int key = 0; key < 2; ++key) {
				if (d == 1 && !ctx.begin([&] { return how + " then op" + std::to_string(kind) + "(" + std::to_string(at) + "," + std::to_string(key) + ")"; })) continue;
				Trie c(t); M mc = m; std::string g, w;
				auto h = how + " " + apply(c, mc, at, kind, key, 10 * (d + 1) + kind, g, w);
				++ctx.transitions; ++ctx.traces;
				ctx.check(g == w, "result of an insertion", [&] { return h + ": returned " + g + ", expected " + w; });
				ctx.check(show(c.root()) == show(mc), "insertion", [&] { return h + ": " + show(c.root()) + ", expected " + show(mc); });
				ctx.state(hash(show(mc)));
				if (d == maxDepth - 1) { if ((kind & 3) == 0) ctx.check(walk(c.breadthBegin(), c.breadthEnd(), 20, Plain()) == [&] { std::string s; for (auto * x : breadth(mc)) s += std::to_string(x->key) + "." + std::to_string(x->tag) + " "; return s; }(), "breadth order", [&] { return h; }); }
				else go(c, mc, d + 1, h);
			}
		};
		Trie t(V(0, 1)); M m { 0, 1, {} };
		// The root level is walked by every shard; its children are the cases.
		go(t, m, 0, "");
	}
	// 3. All pairs of trees, cascaded in each of the four ways.
	{
		std::vector<M> all;
		for (size_t n = 1; n <= (th ? 6u : 5u); ++n) trees(n, 2, [&] (const M & m) { all.push_back(m); });
		for (auto & a : all) for (auto & b : all) {
			if (!ctx.begin([&] { return "cascade " + show(b) + " onto " + show(a); })) continue;
			ctx.nontrivial(hash(show(a) + show(b)));
			for (int other = 0; other < 2; ++other) for (int variant = 0; variant < 4; ++variant) {
				M bm = b; bm.key = other ? 5 : 0;
				std::function<void (M &)> bump = [&] (M & x) { x.tag += 200; for (auto & y : x.c) bump(y); };
				bump(bm);
				M want = a; int calls = 0;
				const int add = variant >= 2 ? 1000 : 0;
				if (!other) { want.tag = bm.tag + add; calls = 1; cascadeModel(want, bm, calls, add); }
				Trie ta = makeTrie(a), tb = makeTrie(bm);
				int n = 0;
				auto copyF = [&n] (const V & v) { ++n; return V(v.key, v.tag + 1000); };
				auto moveF = [&n] (V & v) { ++n; V r(std::move(v)); r.tag += 1000; return r; };
				if (variant == 0) ta.cascade(tb);
				else if (variant == 1) ta.cascade(std::move(tb));
				else if (variant == 2) ta.cascade(tb, copyF);
				else ta.cascade(std::move(tb), moveF);
				++ctx.transitions;
				auto how = "cascade variant " + std::to_string(variant) + " of " + show(bm) + " onto " + show(a);
				ctx.check(show(ta.root()) == show(want), "cascade", [&] { return how + ": " + show(ta.root()) + ", expected " + show(want); });
				if (variant >= 2) ctx.check(n == calls, "cascade function calls", [&] { return how + ": " + std::to_string(n) + ", expected " + std::to_string(calls); });
				if (variant == 0 || variant == 2 || other) ctx.check(show(tb.root()) == show(bm), "cascade source", [&] { return how + ": the source became " + show(tb.root()); });
			}
		}
	}
	return ctx.finish();
}
