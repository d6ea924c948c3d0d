// P14: tokens cover the text and tell where they came from; reading them agrees with a plain cursor over the list.
#include <boost/core/demangle.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Lang/Property/Parser/PropertyScanner.hpp>
#include "vk.hpp"
using namespace vk; using namespace Balau; using namespace Balau::Lang; using S = std::string; using U = unsigned int;
enum class Tok { Text, Blank, LineBreak, CommentLine, CommentBlock, EndOfFile };
Ctx * C;

CodePosition after(CodePosition p, const S & t) { // greedy line breaks; columns are bytes from one
	for (size_t i = 0; i < t.size(); ++i) {
		if (t[i] != '\n' && t[i] != '\r') { ++p.column; continue; }
		if (i + 1 < t.size() && (t[i + 1] == '\n' || t[i + 1] == '\r') && t[i + 1] != t[i]) ++i;
		++p.line; p.column = 1;
	}
	return p;
}
template <class T> S spanStr(const T & s) { return Lang::toString(s); }

// The scanner of the property language.
void scan(const S & t) {
	using P = Balau::Lang::Property::PropertyToken;
	auto make = [&] { Balau::Lang::Property::PropertyScanner s(std::shared_ptr<Resource::Uri>(new Resource::StringUri(t))); return s.scan(); };
	auto st = make(); IterativeScannedTokens<P> it(st); RandomAccessScannedTokens<P> ra(make()); ScannerApiScannedTokens<P> api(make());
	size_t n = it.size(); S all;
	C->check(n >= 1 && it.getToken(U(n - 1)) == P::EndOfFile && ra.getCodeSpans().size() == n && api.size() == n && it.getTokens().size() == n && it.getStartOffsets().size() == n, "scan.size", [&] { return q(t); });
	CodePosition p(1, 1);
	for (U i = 0; i < n; ++i) {
		S x(st.getText(i)); P k = it.getToken(i);
		C->check(it.getStartOffset(i) == all.size() && t.compare(all.size(), x.size(), x) == 0, "scan.cover", [&] { return q(t) + " token " + std::to_string(i) + " is " + q(x) + " at " + std::to_string(it.getStartOffset(i)); });
		C->check((k == P::EndOfFile) == (i + 1 == n) && x.empty() == (i + 1 == n), "scan.empty", [&] { return q(t) + " token " + std::to_string(i); });
		bool ok = true; S one = x.size() == 1 ? x : ""; bool brk = x == "\n" || x == "\r" || x == "\n\r" || x == "\r\n"; S e = !x.empty() && x[0] == '\\' ? x.substr(1) : "";
		switch (k) {
			case P::Blank: ok = x.find_first_not_of(" \t") == S::npos; break;
			case P::LineBreak: ok = brk; break;
			case P::OpenCurly: ok = one == "{"; break; case P::CloseCurly: ok = one == "}"; break; case P::Colon: ok = one == ":"; break;
			case P::Equals: ok = one == "="; break; case P::Hash: ok = one == "#"; break; case P::Exclamation: ok = one == "!"; break; case P::Arobase: ok = one == "@"; break;
			case P::EscapedLineBreak: ok = e == "\n" || e == "\r" || e == "\n\r" || e == "\r\n"; break;
			case P::EscapedBlank: ok = e == " " || e == "\t"; break;
			case P::EscapedBackSlash: ok = e == "\\"; break; case P::EscapedHash: ok = e == "#"; break; case P::EscapedEquals: ok = e == "="; break; case P::EscapedColon: ok = e == ":"; break;
			case P::EscapedOpenCurly: ok = e == "{"; break; case P::EscapedCloseCurly: ok = e == "}"; break; case P::EscapedArobase: ok = e == "@"; break; case P::EscapedExclamation: ok = e == "!"; break;
			case P::EscapedChar: ok = x[0] == '\\' && (e.empty() ? i + 2 == n : e == "a" || e == "\xc3\xa9"); break;
			case P::Text: ok = x.find_first_of(" \t\n\r{}:=#!\\") == S::npos && x[0] != '@'; break;
			default: break;
		}
		C->check(ok, "scan.kind", [&] { return q(t) + " token " + std::to_string(i) + " " + q(x) + " has kind " + std::to_string(int(k)); });
		CodeSpan want(p, after(p, x)); p = want.end;
		C->check(ra.getCodeSpans()[i] == want, "scan.span", [&] { return q(t) + " token " + std::to_string(i) + ": " + spanStr(ra.getCodeSpans()[i]) + " instead of " + spanStr(want); });
		CodeSpan d = RandomAccessScannedTokens<P>::determineCodeSpan(st, i);
		C->check(d == want, "scan.determine", [&] { return q(t) + " token " + std::to_string(i) + ": " + spanStr(d) + " instead of " + spanStr(want); });
		auto g = api.get();
		C->check(g.token == k && g.codeSpan == want && g.text == x && api.getCurrentCodeSpan() == want, "scan.api", [&] { return q(t) + " token " + std::to_string(i) + ": " + spanStr(g.codeSpan) + " " + q(S(g.text)) + " instead of " + spanStr(want); });
		api.consume(); all += x;
	}
	C->check(all == t, "scan.all", [&] { return q(t) + " gives " + q(all); });
	bool thrown = false; try { RandomAccessScannedTokens<P>::determineCodeSpan(st, U(n)); } catch (const Exception::IndexOutOfRangeException &) { thrown = true; }
	C->check(thrown, "scan.range", [&] { return q(t); });
}

// The plain cursor.
using Mode = WhitespaceMode;
bool skips(Mode m, Tok t) {
	switch (m) {
		case Mode::ConsumeWhitespaceAndComments: return t == Tok::Blank || t == Tok::LineBreak || t == Tok::CommentLine;
		case Mode::ConsumeWhitespace: return t == Tok::Blank || t == Tok::LineBreak;
		case Mode::ConsumeBlanksAndComments: return t == Tok::Blank || t == Tok::CommentLine;
		case Mode::ConsumeBlanks: return t == Tok::Blank;
		case Mode::ConsumeLineBreaksAndComments: return t == Tok::LineBreak || t == Tok::CommentLine;
		case Mode::ConsumeLineBreaks: return t == Tok::LineBreak;
		case Mode::ConsumeComments: return t == Tok::CommentLine;
		default: return false;
	}
}
struct Source { S text; std::vector<Tok> toks; std::vector<U> offs; std::vector<CodeSpan> spans; std::vector<S> parts; };
struct Model {
	const Source * s; size_t i = 0; std::vector<Mode> modes{ Mode::DoNotConsume }; std::vector<size_t> marks;
	size_t last() const { return s->toks.size() - 1; }
	void skip() { while (skips(modes.back(), s->toks[i])) ++i; }
	void back() { while (i > 0 && skips(modes.back(), s->toks[i - 1])) --i; }
};
using Api = ScannerApiScannedTokens<Tok>;
struct Run { Model m; Api a; std::vector<Api::Marker> marks; };
const char * opName[] = { "get", "consume", "expect", "expectOther", "expectAny", "expectReport", "putBack", "mark", "putBackMark", "putBackFirstMark", "pop", "reset", "push0", "push1", "push2", "push3", "push4", "push5", "push6", "push7" };
S trace(const Source & s, const std::vector<int> & h) { S r = q(s.text) + " (" + std::to_string(s.toks.size()) + " tokens):"; for (int o : h) r += S(" ") + opName[o]; return r; }
// False: the operation does not apply here.
bool step(Run & r, int op, const Source & s, const std::vector<int> & h) {
	auto fail = [&] (bool ok, const char * key, const S & why) { C->check(ok, S("api.") + key, [&] { return trace(s, h) + ": " + why; }); };
	Model & m = r.m; ++C->transitions;
	auto here = [&] (const char * key) { // what the public position says
		fail(r.a.getCurrentCodeSpan() == s.spans[m.i], key, spanStr(r.a.getCurrentCodeSpan()) + " instead of " + spanStr(s.spans[m.i]));
		Tok t = s.toks[m.i];
		fail(r.a.currentIsBlank() == (t == Tok::Blank) && r.a.currentIsLineBreak() == (t == Tok::LineBreak) && r.a.currentIsWhitespace() == (t == Tok::Blank || t == Tok::LineBreak), key, "the kind of the current token is wrong");
	};
	if (op >= 12) { if (m.modes.size() > 2) return false; m.modes.push_back(Mode(op - 12)); r.a.pushWhitespaceMode(Mode(op - 12)); here("push"); return true; }
	switch (op) {
		case 0: {
			m.skip(); auto g = r.a.get();
			fail(g.token == s.toks[m.i] && g.codeSpan == s.spans[m.i] && g.text == s.parts[m.i], "get", spanStr(g.codeSpan) + " " + q(S(g.text)) + " instead of " + spanStr(s.spans[m.i]) + " " + q(s.parts[m.i]));
			here("get"); return true;
		}
		case 1: if (m.i < m.last()) ++m.i; r.a.consume(); here("consume"); return true;
		case 2: case 3: case 4: case 5: {
			m.skip(); Tok cur = s.toks[m.i], other = cur == Tok::CommentBlock ? Tok::Text : Tok::CommentBlock; bool thrown = false, want = op == 3;
			try {
				if (op == 2) r.a.expect(cur, "wrong"); else if (op == 3) r.a.expect(other, "wrong");
				else if (op == 4) r.a.expect(std::vector<Tok>{ other, cur }, "wrong");
				else {
					std::vector<S> reports; std::function<S (const Tok &, const CodeSpan &, size_t)> f = [&] (const Tok & t, const CodeSpan & c, size_t) { return std::to_string(int(t)) + spanStr(c); };
					bool a = r.a.expect(other, reports, 1, f), b = r.a.expect(other, reports, 1, f);
					fail(!a && !b && reports.size() == 1 && reports[0] == std::to_string(int(other)) + spanStr(s.spans[m.i]), "expectReport", "the mismatch is not reported once");
					here("expectReport"); a = r.a.expect(cur, reports, 1, f); fail(a && reports.size() == 1, "expectReport", "the match is reported");
				}
			} catch (const Exception::SyntaxErrorException & e) { thrown = true; fail(e.codeSpan == s.spans[m.i], "expect", "the error names " + spanStr(e.codeSpan)); }
			fail(thrown == want, "expect", thrown ? "throws" : "does not throw");
			if (!want && m.i < m.last()) ++m.i;
			here("expect"); return true;
		}
		case 6: m.back(); if (m.i > 0) --m.i; m.back(); r.a.putBack(); here("putBack"); return true;
		case 7: if (m.marks.size() > 1) return false; m.marks.push_back(m.i); r.marks.push_back(r.a.mark());
			fail(r.a.isBlank(r.marks.back()) == (s.toks[m.i] == Tok::Blank) && r.a.isLineBreak(r.marks.back()) == (s.toks[m.i] == Tok::LineBreak), "mark", "wrong kind"); return true;
		case 8: case 9: {
			if (m.marks.size() < (op == 8 ? 1u : 2u)) return false;
			size_t k = op == 8 ? m.marks.size() - 1 : 0; bool thrown = false;
			try { r.a.putBack(r.marks[k]); } catch (const Exception::IndexOutOfRangeException &) { thrown = true; }
			fail(thrown == (m.marks[k] > m.i), "putBackMark", thrown ? "throws" : "does not throw"); m.i = std::min(m.i, m.marks[k]);
			here("putBackMark"); return true;
		}
		case 10: if (m.modes.size() < 2) return false; m.modes.pop_back(); r.a.popWhitespaceMode(); here("pop"); return true;
		default: m.modes = { Mode::DoNotConsume }; m.i = 0; r.a.reset(); here("reset"); return true;
	}
}
void walk(const Run & r, const Source & s, std::vector<int> & h, int depth, const std::vector<int> & ops) {
	C->state(hash(s.text + std::to_string(r.m.i) + "/" + std::to_string(int(r.m.modes.back())) + std::to_string(r.m.modes.size()) + "/" + std::to_string(r.marks.size())));
	if (!depth) return;
	for (int op : ops) {
		Run n = r; h.push_back(op);
		if (step(n, op, s, h)) walk(n, s, h, depth - 1, ops);
		h.pop_back();
	}
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx; const bool deep = ctx.thorough();
	auto all = [&] (const std::vector<S> & abc, int n) { stringsUpTo(abc, n, [&] (const S & t) { if (!ctx.begin([&] { return "scan " + q(t); })) return; ctx.nontrivial(hash(t)); scan(t); }); };
	all({ "a", " ", "\n", "\r", "\\", "=", "\xc3\xa9" }, deep ? 7 : 6);
	all({ "a", " ", "\t", "\n", "\\", "{", "}", "@", ":", "=", "#", "!" }, deep ? 5 : 4);
	// All histories over all short token lists.
	const std::vector<std::pair<Tok, S>> kinds = { { Tok::Text, "b\xc3\xa9" }, { Tok::Blank, "  " }, { Tok::LineBreak, "\r\n" }, { Tok::CommentLine, "#c\n" }, { Tok::CommentBlock, "/*\nd*/" } };
	auto source = [&] (const std::vector<int> & ks) {
		Source s; CodePosition p(1, 1);
		for (int k : ks) { s.toks.push_back(kinds[k].first); s.offs.push_back(U(s.text.size())); s.parts.push_back(kinds[k].second); s.text += kinds[k].second; CodePosition e = after(p, kinds[k].second); s.spans.push_back(CodeSpan(p, e)); p = e; }
		s.toks.push_back(Tok::EndOfFile); s.offs.push_back(U(s.text.size())); s.parts.push_back(""); s.spans.push_back(CodeSpan(p, p));
		return s;
	};
	auto histories = [&] (const Source & s, int depth, const std::vector<int> & prefix, const std::vector<int> & ops) {
		auto st = ScannedTokens<Tok>(nullptr, S(s.text), std::vector<Tok>(s.toks), std::vector<U>(s.offs));
		Run r{ Model{ &s }, Api(std::move(st)), {} }; std::vector<int> h;
		for (int o : prefix) { h.push_back(o); if (!step(r, o, s, h)) return; }
		walk(r, s, h, depth, ops);
	};
	for (int n = 0; n <= (deep ? 5 : 4); ++n) sequences(int(kinds.size()), n, [&] (const std::vector<int> & ks) {
		if (int(ks.size()) != n) return;
		Source s = source(ks);
		for (int mode = 0; mode < 8; ++mode) {
			if (!ctx.begin([&] { return "histories " + trace(s, { 12 + mode }); })) continue;
			ctx.nontrivial(hash(s.text + char('0' + mode)));
			histories(s, deep ? 5 : n < 3 ? 5 : n < 4 ? 4 : 3, { 12 + mode }, { 0, 1, 2, 3, 6, 7, 8, 10 });
		}
	});
	for (auto & ks : std::vector<std::vector<int>>{ { 1, 0, 2, 3, 0 }, { 3, 1, 2, 4, 0, 1 }, { 2, 2, 0, 1, 3 }, { 0, 4, 1, 1, 2, 3, 1, 0 } }) {
		Source s = source(ks); std::vector<int> ops; for (int i = 0; i < 20; ++i) ops.push_back(i);
		for (int a = 0; a < 20; ++a) for (int b = 0; b < 20; ++b) {
			if (!ctx.begin([&] { return "all operations " + trace(s, { a, b }); })) continue;
			ctx.nontrivial(hash(s.text + std::to_string(a) + "," + std::to_string(b)));
			histories(s, deep ? 4 : 3, { a, b }, ops);
		}
	}
	return ctx.finish();
}
