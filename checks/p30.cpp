// P30: Unicode conversions and iteration against an independent codec, for every scalar value and every short byte string.
#include <unicode/uchar.h>
#include <boost/core/demangle.hpp>
#include <Balau/Type/Character.hpp>
#include <Balau/Type/FromString.hpp>
#include <Balau/Type/ToString.hpp>
#include <Balau/Util/Strings.hpp>
#include "vk.hpp"
using namespace vk;
using Balau::Character;
using Balau::Util::Strings;

std::string enc8(char32_t c) {
	std::string r;
	if (c < 0x80) r += (char) c;
	else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
	else { r += (char) (0xf0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
	return r;
}
std::u16string enc16(char32_t c) {
	if (c < 0x10000) return std::u16string(1, (char16_t) c);
	c -= 0x10000;
	return std::u16string { (char16_t) (0xd800 + (c >> 10)), (char16_t) (0xdc00 + (c & 0x3ff)) };
}
std::string show(const std::u32string & s) { std::string r; for (char32_t c : s) { char b[16]; std::snprintf(b, 16, "U+%04X ", (unsigned) c); r += b; } return r; }

// The longest well-formed prefix of one code point at i: its length, or 0 when there is none.
size_t wellFormed(const std::string & s, size_t i, char32_t & c) {
	auto b = [&] (size_t k) { return k < s.size() ? (unsigned char) s[k] : 0x100u; };
	auto cont = [&] (size_t k, unsigned lo = 0x80, unsigned hi = 0xbf) { return b(k) >= lo && b(k) <= hi; };
	unsigned a = b(i);
	if (a < 0x80) { c = a; return 1; }
	if (a >= 0xc2 && a <= 0xdf && cont(i + 1)) { c = (a & 31) << 6 | (b(i + 1) & 63); return 2; }
	if (a >= 0xe0 && a <= 0xef && cont(i + 1, a == 0xe0 ? 0xa0 : 0x80, a == 0xed ? 0x9f : 0xbf) && cont(i + 2)) { c = (a & 15) << 12 | (b(i + 1) & 63) << 6 | (b(i + 2) & 63); return 3; }
	if (a >= 0xf0 && a <= 0xf4 && cont(i + 1, a == 0xf0 ? 0x90 : 0x80, a == 0xf4 ? 0x8f : 0xbf) && cont(i + 2) && cont(i + 3)) { c = (a & 7) << 18 | (b(i + 1) & 63) << 12 | (b(i + 2) & 63) << 6 | (b(i + 3) & 63); return 4; }
	return 0;
}

void sequence(Ctx & ctx, const std::u32string & s32) {
	std::string s8; std::u16string s16; std::vector<int> starts;
	for (char32_t c : s32) { starts.push_back((int) s8.size()); s8 += enc8(c); s16 += enc16(c); }
	starts.push_back((int) s8.size());
	++ctx.transitions;
	auto how = [&] { return show(s32); };
	using ::toString;
	ctx.check(toString(s32) == s8 && toString(std::u32string_view(s32)) == s8, "UTF-32 to UTF-8", how);
	ctx.check(toString(s16) == s8 && toString(std::u16string_view(s16)) == s8, "UTF-16 to UTF-8", how);
	ctx.check(toString16(s8) == s16 && toString16(std::string_view(s8)) == s16, "UTF-8 to UTF-16", how);
	ctx.check(toString16(s32) == s16, "UTF-32 to UTF-16", how);
	ctx.check(toString32(s8) == s32 && toString32(std::string_view(s8)) == s32, "UTF-8 to UTF-32", how);
	ctx.check(toString32(s16) == s32, "UTF-16 to UTF-32", how);
	{
		std::string a, b, c; std::u16string d, e, f; std::u32string g, h, i;
		fromString(a, s8); fromString16(b, s16); fromString32(c, s32); fromString(d, s8); fromString16(e, s16); fromString32(f, s32); fromString(g, s8); fromString16(h, s16); fromString32(i, s32);
		ctx.check(a == s8 && b == s8 && c == s8 && d == s16 && e == s16 && f == s16 && g == s32 && h == s32 && i == s32, "from string of the other width", how);
	}
	Exact x(s8); auto v = x.view();
	int off = 0, off2 = 0, off3 = 0, off4 = 0;
	for (size_t i = 0; i < s32.size(); ++i) {
		char32_t a = Character::getNextUtf8(v, off), b = Character::getNextUtf8Safe(v, off2);
		Character::advanceUtf8(v, off3); Character::advanceUtf8Safe(v, off4);
		ctx.check(a == s32[i] && b == s32[i] && off == starts[i + 1] && off2 == off && off3 == off && off4 == off, "forward iteration", how);
		if (off != starts[i + 1] || off3 != off) return;
	}
	for (size_t i = s32.size(); i-- > 0; ) {
		char32_t a = Character::getPreviousUtf8(v, off), b = Character::getPreviousUtf8Safe(v, off2);
		Character::retreatUtf8(v, off3); Character::retreatUtf8Safe(v, off4);
		ctx.check(a == s32[i] && b == s32[i] && off == starts[i] && off2 == off && off3 == off && off4 == off, "backward iteration", how);
		if (off != starts[i] || off3 != off) return;
	}
	ctx.check(Strings::codePointCount(v) == s32.size() && Strings::codePointCount(std::u32string_view(s32)) == s32.size(), "code point count", how);
	std::u32string up, lo; for (char32_t c : s32) { up += (char32_t) u_toupper((UChar32) c); lo += (char32_t) u_tolower((UChar32) c); }
	std::string up8, lo8; for (char32_t c : up) up8 += enc8(c); for (char32_t c : lo) lo8 += enc8(c);
	ctx.check(Strings::toUpper(v) == up8 && Strings::toUpper(std::u32string_view(s32)) == up, "upper case", how);
	ctx.check(Strings::toLower(v) == lo8 && Strings::toLower(std::u32string_view(s32)) == lo, "lower case", how);
}

int main(int argc, char ** argv) {
	Ctx ctx(argc, argv);
	const bool th = ctx.thorough();
	// 1. Every code point: classification, sizes, and as a string of its own and between two others.
	for (char32_t lo = 0; lo <= 0x10ffff; lo += 0x400) {
		if (!ctx.begin([&] { return "code points from " + std::to_string((uint32_t) lo); })) continue;
		for (char32_t c = lo; c < lo + 0x400; ++c) {
			auto how = [&] { return show(std::u32string(1, c)); };
			const UChar32 u = (UChar32) c;
			auto is = [&] (const char * k, bool got, bool want) { ctx.check(got == want, k, how); };
			is("isLower", Character::isLower(c), u_islower(u)); is("isUpper", Character::isUpper(c), u_isupper(u)); is("isDigit", Character::isDigit(c), u_charType(u) == U_DECIMAL_DIGIT_NUMBER);
			is("isHexDigit", Character::isHexDigit(c), (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
			is("isOctalDigit", Character::isOctalDigit(c), c >= '0' && c <= '7'); is("isBinaryDigit", Character::isBinaryDigit(c), c == '0' || c == '1');
			is("isAlpha", Character::isAlpha(c), u_isalpha(u)); is("isAlphaOrDecimal", Character::isAlphaOrDecimal(c), u_isalpha(u) || u_charType(u) == U_DECIMAL_DIGIT_NUMBER);
			is("isControlCharacter", Character::isControlCharacter(c), u_iscntrl(u)); is("isSpace", Character::isSpace(c), u_isJavaSpaceChar(u)); is("isWhitespace", Character::isWhitespace(c), u_isWhitespace(u));
			is("isBlank", Character::isBlank(c), u_isblank(u)); is("isPrintable", Character::isPrintable(c), u_isprint(u)); is("isPunctuation", Character::isPunctuation(c), u_ispunct(u));
			is("isIdStart", Character::isIdStart(c), u_isIDStart(u)); is("isIdPart", Character::isIdPart(c), u_isIDPart(u));
			is("isBreakableCharacter", Character::isBreakableCharacter(c), u_isWhitespace(u) || c == '-'); is("isInclusiveBreakableCharacter", Character::isInclusiveBreakableCharacter(c), c == '-');
			is("isValid", Character::isValid(c), true);
			is("toUpper", Character::toUpper(c) == (char32_t) u_toupper(u), true); is("toLower", Character::toLower(c) == (char32_t) u_tolower(u), true);
			if (c >= 0xd800 && c < 0xe000) continue;
			is("utf8ByteCount", Character::utf8ByteCount(c) == enc8(c).size(), true);
			std::string d(enc8(c).size() + 2, '#'); int off = 1;
			Character::setUtf8AndAdvanceOffset(d, off, c);
			is("setUtf8AndAdvanceOffset", d == "#" + enc8(c) + "#" && off == (int) enc8(c).size() + 1, true);
			sequence(ctx, std::u32string(1, c));
			if ((c & 15) == 0 || th) sequence(ctx, std::u32string { U'\u00e9', c, U'\U0001f600' });
			ctx.check(toString(c) == enc8(c), "character to text", how);
			char32_t r = 0; fromString(r, enc8(c)); char32_t r2 = 0; fromString16(r2, enc16(c)); char32_t r3 = 0; fromString32(r3, std::u32string(1, c));
			ctx.check(c == 0 || (r == c && r2 == c && r3 == c), "character from text", how);
			ctx.state(c);
			if ((c & 31) == 0) ctx.nontrivial(c);
		}
	}
	if (ctx.begin([] { return std::string("above the last code point"); }))
		for (char32_t c : { 0x110000u, 0x110001u, 0x7fffffffu, 0xffffffffu }) ctx.check(!Character::isValid(c), "isValid", [&] { return std::to_string((uint32_t) c); });
	// 2. Every sequence of boundary values.
	std::u32string b = U"\x01\x41\x7f\x80\xff\u0131\u017f\u07ff\u0800\u1e9e\u2c65\ud7ff\ue000\uffff\U00010000\U00010428\U0010ffff";
	for (size_t n = 0; n <= (th ? 4u : 3u); ++n) sequences(b.size(), n, [&] (const std::vector<int> & ix) {
		static uint64_t k = 0; static bool mine = false;
		if (k++ % 64 == 0) mine = ctx.begin([&] { return std::string("sequences of boundary values"); });
		if (!mine) return;
		std::u32string s; for (int i : ix) s += b[(size_t) i];
		sequence(ctx, s); ctx.state(hash(s.data(), s.size() * 4));
	});
	// 3. The safe iteration over every short byte string.
	std::vector<std::string> bytes;
	for (int c : { 0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff }) bytes.push_back(std::string(1, (char) c));
	for (size_t n = 0; n <= (th ? 5u : 4u); ++n) strings(bytes, n, [&] (const std::string & s) {
		static uint64_t k = 0; static bool mine = false;
		if (k++ % 512 == 0) mine = ctx.begin([&] { return "bytes from " + q(s); });
		if (!mine) return;
		++ctx.transitions;
		auto how = [&] { return q(s); };
		Exact x(s); auto v = x.view();
		std::vector<int> stops { 0 };
		int off = 0; size_t steps = 0;
		while (off < (int) s.size() && steps++ <= s.size()) {
			char32_t c = 0; size_t len = wellFormed(s, (size_t) off, c);
			int o = off, o2 = off;
			char32_t got = Character::getNextUtf8Safe(v, o);
			Character::advanceUtf8Safe(v, o2);
			if (len) ctx.check(got == c && o == off + (int) len, "safe forward iteration of a well formed character", how);
			else ctx.check(!Character::isValid(got) && o > off && o <= (int) s.size(), "safe forward iteration of a malformed character", how);
			ctx.check(o2 == o, "advance agrees with get", how);
			off = o; stops.push_back(off);
			if (o <= stops[stops.size() - 2]) break;
		}
		ctx.check(off == (int) s.size(), "safe forward iteration ends at the end", how);
		// Backwards: the same characters, and no reading before the start.
		int back = (int) s.size(); steps = 0;
		while (back > 0 && steps++ <= s.size()) {
			int o = back, o2 = back;
			char32_t got = Character::getPreviousUtf8Safe(v, o);
			Character::retreatUtf8Safe(v, o2);
			ctx.check(o < back && o >= 0 && o2 == o, "safe backward iteration moves back", how);
			if (o >= back || o < 0) break;
			char32_t c = 0; size_t len = wellFormed(s, (size_t) o, c);
			if (len == (size_t) (back - o)) ctx.check(got == c, "safe backward iteration of a well formed character", how);
			else ctx.check(!Character::isValid(got), "safe backward iteration of a malformed character", how);
			back = o;
		}
		ctx.check(back == 0, "safe backward iteration ends at the start", how);
		// A first character that is malformed is rejected.
		char32_t c = 0, r = 5; size_t len = wellFormed(s, 0, c);
		if (!s.empty() && n <= 3) {
			bool ok = true; try { fromString(r, v); } catch (const Balau::Exception::ConversionException &) { ok = false; }
			ctx.check(ok == (len != 0) && (!ok || r == c), "character from malformed text", how);
		}
		ctx.nontrivial(hash(s));
	});
	return ctx.finish();
}
