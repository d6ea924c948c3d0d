// P13: every text is parsed as the rules say, or rejected with a syntax error.
#include "proptree.hpp"
using namespace vk; using namespace pt;
Ctx * C;

void one(const S & t) {
	Parsed p = parse(t); Ref r = reference(t);
	C->check(p.error.empty() || p.syntax, "error", [&] { return q(t) + " throws " + p.error; });
	if (r.verdict == 'A') C->check(p.error.empty() && p.tree == r.tree, "accept", [&] { return q(t) + ": " + (p.error.empty() ? p.tree.str() : p.error) + ", expected " + r.tree.str(); });
	if (r.verdict == 'R') C->check(!p.error.empty(), "reject", [&] { return q(t) + ": " + p.tree.str() + ", expected a syntax error"; });
	if (!p.error.empty()) { C->outcome("rejected"); return; }
	C->outcome(r.verdict == 'A' ? "accepted" : "accepted by choice");
	C->check(p.inside && p.text == t, "views", [&] { return q(t) + ": a view lies outside the text of the tree " + p.tree.str(); });
	if (r.verdict == 'A') { Parsed b = parse(p.printed); C->check(b.error.empty() && b.tree == p.tree, "print", [&] { return q(t) + ": " + p.tree.str() + " is printed as " + q(p.printed) + " which is " + (b.error.empty() ? b.tree.str() : b.error); }); }
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	const bool deep = ctx.thorough();
	auto all = [&] (const std::vector<S> & abc, int n, const S & pre = "", const S & post = "") {
		stringsUpTo(abc, n, [&] (const S & x) { S t = pre + x + post; if (!ctx.begin([&] { return q(t); })) return; ctx.nontrivial(hash(t)); one(t); });
	};
	all({ "a", " ", "\n", "{", "}", "@", ":", "=", "#", "!", "\\", "\xc3\xa9" }, deep ? 6 : 5);
	all({ "a", " ", "\n", "\r", "\\", "=" }, deep ? 8 : 7);
	all({ "a", "{\n", "}\n", "}", " ", "\n", "b = c\n", "#", "\\" }, deep ? 7 : 6);
	all({ "a {\n", "}\n", "}", "\tb c\n", "\\\n", "@ i\n", "# {\n", "! }\n", "\n" }, deep ? 7 : 6);
	// Texts longer than the small string buffer.
	all({ "a", " ", "\n", "\\", "#", "{\n", "}" }, deep ? 6 : 5, "some.property = a value\n", "");
	all({ "a", " ", "\n", "\\", "#", "}" }, deep ? 6 : 5, "some.property {\nanother.property =", "\n}\n");
	// Bytes that are not UTF-8, anywhere in a text.
	stringsUpTo({ "a", "\n", "\\", " ", "\xc3", "\xa9", "\xe2", "\x82", "\xf0", "\xff", "#" }, deep ? 6 : 5, [&] (const S & t) {
		if (!ctx.begin([&] { return "bytes " + q(t); })) return;
		ctx.nontrivial(hash("b" + t));
		Parsed p = parse(t);
		ctx.check(p.error.empty() || p.syntax, "bytes", [&] { return q(t) + " throws " + p.error; });
		Exact e(t); S n = AST::PropertyNode::normalise(e.view());
		ctx.check(n.size() <= t.size(), "bytes.normalise", [&] { return q(t) + " gives " + q(n); });
	});
	return ctx.finish();
}
