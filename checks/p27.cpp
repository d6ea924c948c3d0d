// P27: URI parsing against a splitter written from the grammar.
#include <boost/core/demangle.hpp>
#include <Balau/Resource/UriComponents.hpp>
#include "vk.hpp"
using namespace vk;
using S = std::string;
using V = std::string_view;
using Balau::Resource::UriComponents;
Ctx * C;

struct R {
	bool user = false, host = false, port = false, query = false, frag = false;
	S s, u, h, p, path, q, f;
};
enum What { ACCEPT, REJECT, EITHER };
bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool digit(char c) { return c >= '0' && c <= '9'; }
bool high(const S & s) { for (char c : s) if (c & 0x80) return true; return false; }

// An empty authority may count as one or not.
What split(const S & t, R & r, bool anyHost) {
	size_t colon = t.find(':');
	if (t.empty()) return REJECT;
	if (!(t[0] & 0x80) && !alpha(t[0])) return REJECT;
	if (colon == S::npos) return REJECT;
	r.s = t.substr(0, colon);
	for (char c : r.s) if (!(c & 0x80) && !alpha(c) && !digit(c) && c != '+' && c != '-' && c != '.') return REJECT;
	if (high(r.s)) return EITHER;
	S rest = t.substr(colon + 1);
	size_t hash = rest.find('#');
	if (hash != S::npos) { r.frag = true; r.f = rest.substr(hash + 1); rest.resize(hash); }
	size_t mark = rest.find('?');
	if (mark != S::npos) { r.query = true; r.q = rest.substr(mark + 1); rest.resize(mark); }
	if (rest.compare(0, 2, "//") != 0) { r.path = rest; return ACCEPT; }
	size_t slash = rest.find('/', 2);
	S auth = rest.substr(2, slash == S::npos ? S::npos : slash - 2);
	r.path = slash == S::npos ? "" : rest.substr(slash);
	if (auth.empty()) { r.host = anyHost; return ACCEPT; }
	S host = auth;
	size_t at = auth.find('@');
	if (at != S::npos) {
		r.user = true; r.u = auth.substr(0, at); host = auth.substr(at + 1);
		if (r.u.find_first_of("[]") != S::npos || host.find('@') != S::npos) return EITHER;
		if (r.u.find(':') != S::npos) return REJECT; // A password, or a user without a host before a colon.
	}
	r.host = true;
	S after;
	if (!host.empty() && host[0] == '[') {
		size_t close = host.find(']');
		if (close == S::npos) return host.find('@') == S::npos && t.find(']') == S::npos ? REJECT : EITHER; // What is within brackets is not looked at.
		r.h = host.substr(0, close + 1); after = host.substr(close + 1);
		if (r.h.find('[', 1) != S::npos) return EITHER;
		if (!after.empty() && after[0] != ':') return EITHER;
	} else {
		size_t c = host.find(':');
		r.h = host.substr(0, c); after = c == S::npos ? "" : host.substr(c);
		if (r.h.find_first_of("[]") != S::npos) return EITHER;
		if (r.h.empty()) return REJECT;
	}
	if (!after.empty()) {
		r.port = true; r.p = after.substr(1);
		if (r.p.empty()) return EITHER; // Allowed by the standard, of no use here.
		unsigned long n = 0;
		for (char c : r.p) { if (!digit(c)) return REJECT; n = std::min(n * 10 + (c - '0'), 100000ul); }
		if (n > 65535) return REJECT;
	}
	return ACCEPT;
}

S show(const UriComponents & u) {
	std::ostringstream o;
	o << "scheme " << u.scheme() << " user " << u.hasUserInfo() << u.userInfo() << " host " << u.hasHost() << u.host() << " port " << u.hasPort() << u.port()
	  << " path " << u.path() << " query " << u.hasQuery() << u.query() << " fragment " << u.hasFragment() << u.fragment();
	return o.str();
}
S show(const R & r) {
	std::ostringstream o;
	o << "scheme " << r.s << " user " << r.user << r.u << " host " << r.host << r.h << " port " << r.port << (r.port ? std::stoul(r.p) : 0)
	  << " path " << r.path << " query " << r.query << r.q << " fragment " << r.frag << r.f;
	return o.str();
}
// The components, in order, are the text.
bool whole(const UriComponents & u, const S & t) {
	V rest(t);
	auto eat = [&] (V x) { if (rest.substr(0, x.size()) != x) return false; rest.remove_prefix(x.size()); return true; };
	if (!eat(u.scheme()) || !eat(":")) return false;
	if (u.hasHost() || u.hasUserInfo() || u.hasPort()) if (!eat("//")) return false;
	if (u.hasUserInfo() && (!eat(u.userInfo()) || !eat("@"))) return false;
	if (u.hasHost() && !eat(u.host())) return false;
	if (u.hasPort()) {
		if (!eat(":")) return false;
		unsigned long n = 0; while (!rest.empty() && digit(rest[0])) { n = n * 10 + (rest[0] - '0'); rest.remove_prefix(1); }
		if (n != u.port()) return false;
	} else if (u.port() != 0) return false;
	if (!u.hasHost() && rest.substr(0, 2) == "//" && u.path().substr(0, 2) != "//") rest.remove_prefix(2); // An empty authority.
	if (rest != u.pathQueryFragment()) return false;
	if (!eat(u.path())) return false;
	if (u.hasQuery() && (!eat("?") || !eat(u.query()))) return false;
	if (u.hasFragment() && (!eat("#") || !eat(u.fragment()))) return false;
	return rest.empty() && u.hasAuthority() == u.hasHost() && u.getUri() == t && Balau::Resource::toString(u) == t
	       && (u.hasUserInfo() || u.userInfo().empty()) && (u.hasHost() || u.host().empty()) && (u.hasQuery() || u.query().empty()) && (u.hasFragment() || u.fragment().empty());
}

void one(const S & t) {
	if (!C->begin([&] { return "URI " + q(t); })) return;
	C->nontrivial(hash(t));
		try {
		UriComponents u { S(t) };
		R r; What w = split(t, r, u.hasHost());
		C->outcome("accepted");
		C->check(w != REJECT, "accepted", [&] { return q(t) + " is accepted: " + show(u); });
		if (w == ACCEPT) C->check(show(u) == show(r), "components", [&] { return q(t) + ": " + show(u) + ", expected " + show(r); });
		C->check(whole(u, t), "whole", [&] { return q(t) + ": the components are not the text: " + show(u); });
		S before = show(u);
		UriComponents copy(u), moved(std::move(u)), assigned("x:y"), movedTo("x:y");
		assigned = copy; movedTo = std::move(moved);
		C->check(show(copy) == before && show(assigned) == before && show(movedTo) == before && copy == assigned && assigned == movedTo, "copies", [&] { return q(t) + ": the copies differ: " + show(copy) + "; " + show(assigned) + "; " + show(movedTo); });
	} catch (const Balau::Exception::InvalidUriException &) {
		R r; What w = split(t, r, false);
		C->outcome("rejected");
		C->check(w != ACCEPT, "rejected", [&] { return q(t) + " is rejected, it is " + show(r); });
	} catch (const std::exception & e) {
		C->violation("exception", q(t) + ": " + e.what());
	}
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv); C = &ctx;
	// A. All texts over the significant characters, on their own and after a scheme.
	const std::vector<S> chars = { "a", "1", ":", "/", "@", "?", "#", "[", "]" };
	stringsUpTo(chars, ctx.thorough() ? 7 : 6, [&] (const S & s) { one("s://" + s); });
	stringsUpTo(chars, ctx.thorough() ? 6 : 5, [&] (const S & s) { one(s); one("s:" + s); one("a+b-c.1://hh" + s); one("long-enough-for-the-heap://u@host.example.org" + s); });
	// B. Characters of several bytes and broken ones, in every place.
	const std::vector<S> odd = { "é", "€", "😀", "\xc3", "\xe2\x82", "\xf0\x9f", "\xff", "\x80", " ", "%41", "+", "." };
	for (auto & x : odd) for (auto & y : odd) for (S pre : { "", "s", "s:", "s://", "s://h", "s://u@", "s://h:1", "s://h:", "s://h/p", "s://h/p?q", "s://h/#", "long-enough-for-the-heap://[" }) for (S post : { "", ":", "/", "?", "#", "@h", ":8", "]", ":/p" }) one(pre + x + y + post);
	// C. All combinations of components.
	const std::vector<S> schemes = { "s", "http", "X1", "a+b-c.d" }, users = { "-", "", "u", "u.v~!$&'()*+,;=%40" }, hosts = { "h", "example.org", "127.0.0.1", "[::1]", "[1:2::3.4.5.6]", "%41" },
		ports = { "-", "0", "1", "80", "080", "65535", "65536", "99999999999999999999999", "1x", "x", "+1", "-1", " 1" }, paths = { "", "/", "/a", "/a/b;c=d", "//", "/a:b@c", "/[x]" }, queries = { "-", "", "a=b", "a?b/c:d@e" }, frags = { "-", "", "f", "f#g?h/i:@" };
	for (auto & s : schemes) for (auto & u : users) for (auto & h : hosts) for (auto & p : ports) for (auto & path : paths) for (auto & qu : queries) for (auto & f : frags)
		one(s + "://" + (u == "-" ? "" : u + "@") + h + (p == "-" ? "" : ":" + p) + path + (qu == "-" ? "" : "?" + qu) + (f == "-" ? "" : "#" + f));
	// D. Every port number around the limits of types, and the length limit.
	for (unsigned long n = 0; n < 70000; n += ctx.thorough() || n < 300 || n > 65400 ? 1 : 37) one("s://h:" + std::to_string(n) + "/");
	for (size_t len : { 32765u, 32766u, 32767u, 32768u, 32769u, 65535u, 65536u, 65540u, 70000u }) for (S kind : { "path", "host", "query" }) {
		if (!ctx.begin([&] { return "long " + kind + " " + std::to_string(len); })) continue;
		ctx.nontrivial(hash(kind + std::to_string(len)));
		S t = kind == "path" ? "s:" : kind == "host" ? "s://" : "s://h/p?"; t += S(len - t.size() - 2, 'x') + "#f";
		try { UriComponents u { S(t) }; C->check(len <= 32767, "long", [&] { return "accepted with " + std::to_string(len) + " bytes"; }); C->check(whole(u, t), "longWhole", [&] { return "a long " + kind + " of " + std::to_string(len) + " bytes is not split correctly"; }); }
		catch (const Balau::Exception::InvalidUriException &) { C->check(len > 32767, "long", [&] { return "rejected with " + std::to_string(len) + " bytes"; }); }
	}
	return ctx.finish();
}
