// Property trees: from the parser, and from a reference parser written line by line from the rules of the manual.
#pragma once
#include <boost/core/demangle.hpp>
#include <Balau/Lang/Property/PropertyParserService.hpp>
#include <Balau/Lang/Property/Util/PropertyAstToString.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Resource/StringUri.hpp>
#include "vk.hpp"

namespace pt {
using S = std::string;
namespace AST = Balau::Lang::Property::AST;

struct N {
	char kind = 'P'; // Properties, Value, Composite, Include, coMment, Empty
	S name, value; std::vector<N> kids;
	bool operator == (const N & o) const { return kind == o.kind && name == o.name && value == o.value && kids == o.kids; }
	S str() const {
		S s; auto all = [&] { for (auto & k : kids) s += k.str() + " "; };
		switch (kind) {
			case 'P': s = "[ "; all(); return s + "]";
			case 'C': s = vk::q(name) + "{ "; all(); return s + "}";
			case 'V': return vk::q(name) + "=" + vk::q(value);
			case 'I': return "@" + vk::q(value);
			case 'M': return "#" + vk::q(value);
			default: return "-";
		}
	}
};
N V(const S & n, const S & v) { N x; x.kind = 'V'; x.name = n; x.value = v; return x; }
N leaf(char k, const S & v) { N x; x.kind = k; x.value = v; return x; }
N comp(const S & n, std::vector<N> kids) { N x; x.kind = 'C'; x.name = n; x.kids = std::move(kids); return x; }

struct Load : Balau::Lang::Property::Payload { std::vector<N> * to; const S * text; bool inside = true; };
struct Read : Balau::Lang::Property::PropertyVisitor {
	static S view(Load & l, std::string_view v) { if (v.data() && !v.empty() && (v.data() < l.text->data() || v.data() + v.size() > l.text->data() + l.text->size())) l.inside = false; return S(v); }
	static S norm(Load & l, std::string_view v) { view(l, v); return AST::PropertyNode::normalise(v); }
	void nodes(Load & l, std::vector<N> & to, const std::vector<std::unique_ptr<AST::PropertyNode>> & ns) { Load m; m.to = &to; m.text = l.text; for (auto & n : ns) n->visit(m, *this); l.inside = l.inside && m.inside; }
	static Load & L(Balau::Lang::Property::Payload & p) { return static_cast<Load &>(p); }
	void visit(Balau::Lang::Property::Payload & p, const AST::Properties & o) override { N n; nodes(L(p), n.kids, o.getNodes()); L(p).to->push_back(n); }
	void visit(Balau::Lang::Property::Payload & p, const AST::ValueProperty & o) override { L(p).to->push_back(V(norm(L(p), o.getName()), norm(L(p), o.getValue()))); }
	void visit(Balau::Lang::Property::Payload & p, const AST::CompositeProperty & o) override { N n = comp(norm(L(p), o.getName()), {}); nodes(L(p), n.kids, o.getNodes()); L(p).to->push_back(n); }
	void visit(Balau::Lang::Property::Payload & p, const AST::IncludePropertyNode & o) override { L(p).to->push_back(leaf('I', view(L(p), o.getText()))); }
	void visit(Balau::Lang::Property::Payload & p, const AST::CommentPropertyNode & o) override { L(p).to->push_back(leaf('M', view(L(p), o.getText()))); }
	void visit(Balau::Lang::Property::Payload & p, const AST::EmptyLinePropertyNode &) override { L(p).to->push_back(leaf('E', "")); }
};
inline N tree(const AST::Properties & p, bool & inside) { std::vector<N> to; Load l; l.to = &to; l.text = &p.getText(); Read r; p.visit(l, r); inside = l.inside; return to.at(0); }

struct Parsed { S error; N tree; bool inside = true, syntax = false; S printed, text; };
inline Parsed parse(const S & text) {
	Parsed r;
	try {
		Balau::Resource::StringUri uri(text);
		auto props = Balau::Lang::Property::PropertyParserService::parse(uri);
		auto again = std::move(props);
		r.tree = tree(again, r.inside); r.printed = toString(again); r.text = again.getText();
	} catch (const Balau::Exception::SyntaxErrorException & e) { r.error = "SyntaxErrorException"; r.syntax = true; }
	catch (const std::exception & e) { r.error = boost::core::demangle(typeid(e).name()) + S(" ") + e.what(); }
	return r;
}

// The reference: what a text means. verdict: A must be accepted as the tree, R must be rejected, E either.
struct Ref { char verdict = 'A'; N tree; };
inline size_t brk(const S & t, size_t i) { if (i >= t.size() || (t[i] != '\n' && t[i] != '\r')) return 0; return i + 1 < t.size() && (t[i + 1] == '\n' || t[i + 1] == '\r') && t[i + 1] != t[i] ? 2 : 1; }
inline bool blank(char c) { return c == ' ' || c == '\t'; }
inline Ref reference(const S & t) {
	Ref r; std::vector<N> stack(1); bool either = false, reject = false; size_t i = 0;
	auto add = [&] (N n) { stack.back().kids.push_back(std::move(n)); };
	while (i < t.size()) {
		while (i < t.size() && blank(t[i])) ++i;
		if (i == t.size()) break;
		if (size_t b = brk(t, i)) { add(leaf('E', "")); i += b; continue; }
		if (t[i] == '#' || t[i] == '!' || t[i] == '@') { // to the end of the physical line
			char k = t[i++]; size_t s = i; while (i < t.size() && !brk(t, i)) ++i;
			S x = t.substr(s, i - s); if (k == '@' && (x.empty() || x.find('\\') != S::npos)) either = true;
			add(leaf(k == '@' ? 'I' : 'M', x)); i += brk(t, i); continue;
		}
		if (t[i] == '}') {
			++i; size_t s = i; while (i < t.size() && !brk(t, i)) ++i;
			if (stack.size() == 1) { reject = true; break; }
			if (i > s) { bool all = true; for (size_t k = s; k < i; ++k) all = all && blank(t[k]); if (!all) { reject = true; break; } either = true; }
			N n = stack.back(); stack.pop_back(); add(n); i += brk(t, i); continue;
		}
		if (t[i] == '{' || t[i] == ':' || t[i] == '=') { either = true; break; }
		// A logical line: unescaped characters are themselves, escaped ones marked, continuations joined.
		struct Ch { char c; bool esc, cont; }; std::vector<Ch> line; bool eof = true;
		while (i < t.size()) {
			if (size_t b = brk(t, i)) { i += b; eof = false; break; }
			if (t[i] != '\\') { line.push_back({ t[i++], false, false }); continue; }
			++i; if (i == t.size()) { either = true; break; }
			if (size_t b = brk(t, i)) { i += b; while (i < t.size() && blank(t[i])) ++i; line.push_back({ 0, true, true }); continue; }
			line.push_back({ t[i++], true, false });
		}
		if (line.empty()) { either = true; break; }
		size_t k = 0, n = line.size(); S name, value;
		if (line[0].cont && (n == 1 || (!line[1].esc && S(" \t{}@:=#!").find(line[1].c) != S::npos) || line[1].cont)) either = true;
		for (; k < n; ++k) {
			if (line[k].cont) continue;
			if (!line[k].esc && (blank(line[k].c) || S("{}@:=").find(line[k].c) != S::npos)) break;
			name += line[k].c;
		}
		if (k < n && !line[k].esc && S("{}@").find(line[k].c) != S::npos) either = true;
		size_t w = k; while (k < n && !line[k].esc && blank(line[k].c)) ++k;
		if (k < n && line[k].cont && k > w) either = true; // a continuation within the separator
		if (k < n && !line[k].esc && (line[k].c == ':' || line[k].c == '=')) ++k;
		while (k < n && !line[k].esc && blank(line[k].c)) ++k;
		if (k < n && line[k].cont && k + 1 < n && !line[k + 1].esc && line[k + 1].c == '{') either = true;
		if (k < n && !line[k].esc && line[k].c == '{') {
			if (k + 1 == n && !eof) { N c = comp(name, {}); stack.push_back(c); continue; }
			if (either) break;
			reject = true; break;
		}
		for (; k < n; ++k) { if (line[k].cont) continue; if (!line[k].esc && line[k].c == '@') either = true; value += line[k].c; }
		add(V(name, value));
	}
	if (!reject && !either && stack.size() > 1) reject = true;
	r.verdict = either ? 'E' : reject ? 'R' : 'A';
	if (r.verdict == 'A') r.tree = stack[0];
	return r;
}
} // namespace pt
