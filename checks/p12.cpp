// P12: every tree, written in every layout, is parsed to the same tree; printing it and parsing again too.
#include "proptree.hpp"
using namespace vk; using namespace pt;
Ctx * C;

struct Layout { S brk, indent, sep, open; bool end, cont; };
S esc(const S & s, bool name) {
	S o; bool lead = true;
	for (char c : s) { if (c == '\\' || (name && S(" \t:={}@#!").find(c) != S::npos) || (!name && (c == '@' || (lead && (blank(c) || c == '{' || c == ':' || c == '='))))) o += '\\'; o += c; lead = false; }
	return o;
}
// Continuations go between characters that are not part of an escape.
S cont(const S & s, const Layout & l, size_t at) {
	S o; size_t k = 0;
	for (size_t i = 0; i < s.size(); ++i) { if (k == at && i > 0 && !blank(s[i])) o += "\\" + l.brk + l.indent; o += s[i]; if (s[i] == '\\') o += s[++i]; else while (i + 1 < s.size() && ((unsigned char) s[i + 1] & 0xc0) == 0x80) o += s[++i]; ++k; }
	return o;
}
void write(const std::vector<N> & kids, const Layout & l, int depth, S & out, size_t at) {
	for (auto & n : kids) {
		if (n.kind != 'E') for (int i = 0; i < depth; ++i) out += l.indent;
		switch (n.kind) {
			case 'V': { S a = esc(n.name, true), v = esc(n.value, false); if (l.cont) { a = cont(a, l, at); v = cont(v, l, at); } out += a; if (!v.empty() || depth) out += l.sep + v; break; }
			case 'C': out += esc(n.name, true) + l.open + "{" + l.brk; write(n.kids, l, depth + 1, out, at); for (int i = 0; i < depth; ++i) out += l.indent; out += "}"; break;
			case 'I': out += "@" + n.value; break;
			case 'M': out += (n.value.size() % 2 ? "#" : "!") + n.value; break;
			default: out += l.indent;
		}
		out += l.brk;
	}
}
void one(const N & t, const Layout & l, size_t at) {
	S text; write(t.kids, l, 0, text, at);
	if (!l.end && text.size() >= l.brk.size() && t.kids.back().kind != 'E') text.resize(text.size() - l.brk.size());
	if (!C->begin([&] { return q(text); })) return;
	C->nontrivial(hash(text));
	Parsed p = parse(text);
	C->check(p.error.empty() && p.tree == t, "parse", [&] { return q(text) + ": " + (p.error.empty() ? p.tree.str() : p.error) + ", expected " + t.str(); });
	if (!p.error.empty()) return;
	C->check(p.inside && p.text == text, "views", [&] { return q(text) + ": a view lies outside the text"; });
	Parsed b = parse(p.printed);
	C->check(b.error.empty() && b.tree == t, "print", [&] { return q(p.printed) + ": " + (b.error.empty() ? b.tree.str() : b.error) + ", expected " + t.str(); });
	Parsed c = parse(b.printed);
	C->check(c.printed == b.printed, "print.stable", [&] { return q(b.printed) + " then " + q(c.printed); });
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	const bool deep = ctx.thorough();
	std::vector<Layout> layouts;
	for (S b : { "\n", "\r\n", "\r" }) for (S in : { "", "\t", "  " }) for (S sep : { " = ", "=", ":", " : ", " ", "\t", "= " }) for (S open : { " ", "=", " : " }) for (bool end : { true, false }) layouts.push_back({ b, in, sep, open, end, false });
	const std::vector<S> names { "a", "key.name", "a b", "x:y=z", "{}", "@q", "#n", "n#!", "\\", "\xc3\xa9\xe2\x82\xac", "!", "a\tb" };
	const std::vector<S> values { "", "v", "v w ", " lead", "{x}", "a\\b", "m@n", "=e", ": :", "# not a comment", "!", "trailing\\", "}", "\xc3\xa9 \xf0\x9f\x98\x80", "{", "a long value that does not fit" };
	auto doc = [] (std::vector<N> k) { N n; n.kids = std::move(k); return n; };
	// A. Every name and value in every layout, alone and within a composite, and with a continuation at every place.
	for (auto & n : names) for (auto & v : values) for (auto & l : layouts) {
		N p = V(n, v);
		if (v.empty() && !l.end) continue;
		one(doc({ p }), l, 0); one(doc({ comp(n, { p }) }), l, 0);
		if (l.open != " ") continue;
		Layout c = l; c.cont = true; for (size_t at = 1; at < (deep ? 12 : 5); ++at) one(doc({ p, V("z", "1") }), c, at);
	}
	// B. Every tree of up to a number of nodes.
	const std::vector<N> leaves { V("a", "1"), V("b.c", ""), leaf('M', " comment"), leaf('M', ""), leaf('M', "ends with \\"), leaf('I', "file:x/*.conf"), leaf('E', ""), V("q", "= {x}") };
	std::function<void (int, int, std::function<void (const std::vector<N> &)>)> forests = [&] (int size, int depth, auto f) {
		f({});
		if (size == 0) return;
		forests(size - 1, depth, [&] (const std::vector<N> & rest) {
			for (auto & x : leaves) { std::vector<N> k { x }; k.insert(k.end(), rest.begin(), rest.end()); f(k); }
		});
		if (depth) for (int inner = 0; inner < size; ++inner) forests(inner, depth - 1, [&] (const std::vector<N> & kids) {
			size_t n = 0; std::function<void (const N &)> count = [&] (const N & x) { ++n; for (auto & k : x.kids) count(k); }; for (auto & k : kids) count(k);
			if ((int) n != inner) return;
			forests(size - 1 - inner, depth, [&] (const std::vector<N> & rest) { std::vector<N> k { comp("c", kids) }; k.insert(k.end(), rest.begin(), rest.end()); f(k); });
		});
	};
	forests(deep ? 5 : 4, 3, [&] (const std::vector<N> & k) {
		if (k.empty()) return;
		for (size_t i : { 0, 1, 50, 100, 127 }) { const Layout & l = layouts[i]; if (!l.end && (k.back().kind == 'E' || (k.back().kind == 'M' && !k.back().value.empty() && k.back().value.back() == '\\'))) continue; one(doc(k), l, 0); }
	});
	return ctx.finish();
}
