// Code point classification and UTF-8 cursors.
#include "common.hpp"
#include <Balau/Type/Character.hpp>
using Balau::Character;
#ifndef CP
#define CP 3
#endif
#ifndef RAW
#define RAW 5
#endif
extern "C" void chars_cursor() { // well-formed text, every boundary
  SymText t(symLen(1, CP, "n"), "cp"); auto v = std::string_view(t.s); size_t n = t.cp.size();
  int a = 0, b = 0, c = 0, d = 0; for (size_t i = 0; i < n; i++) {
    vp_assert(Character::getNextUtf8(v, a) == t.cp[i], "the next code point is read"); vp_assert((size_t)a == t.at[i + 1], "the offset advances to the next boundary");
    vp_assert(Character::getNextUtf8Safe(v, b) == t.cp[i], "the validating version reads the same code point"); vp_assert(b == a, "the validating version advances alike");
    Character::advanceUtf8(v, c); Character::advanceUtf8Safe(v, d); vp_assert(c == a && d == a, "advancing moves to the next boundary"); vp_assert(Character::utf8ByteCount(t.cp[i]) == t.at[i + 1] - t.at[i], "the byte count is the length of the encoding"); }
  for (size_t i = n; i-- > 0;) {
    vp_assert(Character::getPreviousUtf8(v, a) == t.cp[i], "the previous code point is read"); vp_assert((size_t)a == t.at[i], "the offset retreats to the previous boundary");
    vp_assert(Character::getPreviousUtf8Safe(v, b) == t.cp[i], "the validating version reads the same previous code point"); vp_assert(b == a, "the validating version retreats alike");
    Character::retreatUtf8(v, c); Character::retreatUtf8Safe(v, d); vp_assert(c == a && d == a, "retreating moves to the previous boundary"); }
  vp_observe("bytes", t.s.size()); if (t.s.size() >= 7) vp_reach("wide"); }
// length of the well-formed sequence at s[i], 0 when there is none
static size_t wf(const char* s, size_t n, size_t i) { unsigned char b = s[i]; size_t k = b < 0x80 ? 1 : b < 0xC2 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF5 ? 4 : 0; if (!k || i + k > n) return 0; if (k == 1) return 1; int ok = 1; char32_t c = b & (0xFF >> (k + 1)); for (size_t j = 1; j < k; j++) { unsigned char x = s[i + j]; ok &= (x & 0xC0) == 0x80; c = c << 6 | (x & 63); } ok &= isScalar(c); unsigned char e[4]; if (!ok || refEncode(c, e) != k) return 0; return k; }
static char32_t dec(const char* s, size_t k) { unsigned char b = s[0]; if (k == 1) return b; char32_t c = b & (0xFF >> (k + 1)); for (size_t j = 1; j < k; j++) c = c << 6 | ((unsigned char)s[j] & 63); return c; }
extern "C" void chars_safe() { // arbitrary bytes in an exactly sized buffer
  size_t n = symLen(1, RAW, "n"); SymBytes s(n, "bytes"); int at = (int)symLen(n - 1, "offset"); int o = at, p = at; char32_t c = Character::getNextUtf8Safe(s.view(), o); Character::advanceUtf8Safe(s.view(), p);
  vp_assert(o > at && o <= (int)n, "a validating read makes progress and stays within the text"); vp_assert(p == o, "advancing and reading move alike"); size_t k = wf(s.p, n, at);
  if (k) { vp_assert((size_t)(o - at) == k && c == dec(s.p + at, k), "a well-formed sequence is read"); vp_reach("well-formed"); } else { vp_assert((int)c < 0, "a malformed sequence reads as a negative value"); vp_reach("malformed"); }
  vp_observe("to", o); }
extern "C" void chars_safe_back() {
  size_t n = symLen(1, RAW, "n"); SymBytes s(n, "bytes"); int at = (int)symLen(1, n, "offset"); int o = at, p = at; char32_t c = Character::getPreviousUtf8Safe(s.view(), o); Character::retreatUtf8Safe(s.view(), p);
  vp_assert(o < at && o >= 0, "a validating backward read makes progress and stays within the text"); vp_assert(p == o, "retreating and reading backwards move alike"); size_t k = 0; for (size_t j = 1; j <= 4 && (int)j <= at; j++) if (wf(s.p, at, at - j) == j) { k = j; break; }
  if (k) { vp_assert((size_t)(at - o) == k && c == dec(s.p + at - k, k), "a well-formed sequence is read backwards"); vp_reach("well-formed"); } else { vp_assert((int)c < 0, "a malformed sequence reads backwards as a negative value"); vp_reach("malformed"); }
  vp_observe("to", o); }
extern "C" void chars_write() {
  size_t before = symLen(1, "before"), after = symLen(1, "after"); SymText t(1, "cp"); SymBytes x(before, "x"), y(after, "y"); size_t k = t.s.size(); std::string s = x.str() + std::string(k, '.') + y.str(); int o = (int)before; Character::setUtf8AndAdvanceOffset(s, o, t.cp[0]);
  vp_assert((size_t)o == before + k, "the offset advances past the written bytes"); vp_assert(sameText(s, x.str() + t.s + y.str()), "the encoding is written in place and nothing else changes"); int r = (int)before; vp_assert(Character::getNextUtf8(s, r) == t.cp[0], "a written code point reads back"); vp_observe("k", k); if (k == 4) vp_reach("wide"); }
extern "C" void chars_digits() { char32_t c; vp_symbolic(&c, 4, "c");
  vp_assert(Character::isOctalDigit(c) == ((c >= '0') & (c <= '7')), "octal digits are exactly 0 to 7"); vp_assert(Character::isBinaryDigit(c) == ((c == '0') | (c == '1')), "binary digits are exactly 0 and 1"); vp_assert(Character::isValid(c) == (c <= 0x10FFFF), "a value is a code point iff it is at most 10FFFF");
  vp_assert(Character::isInclusiveBreakableCharacter(c) == (c == '-'), "the hyphen is the printed break");
  if (c < 128) { int dg = (c >= '0') & (c <= '9'), lo = (c >= 'a') & (c <= 'z'), up = (c >= 'A') & (c <= 'Z'), ws = ((c >= 9) & (c <= 13)) | ((c >= 28) & (c <= 32));
    vp_assert(Character::isDigit(c) == dg, "ASCII digits"); vp_assert(Character::isHexDigit(c) == (dg | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))), "ASCII hexadecimal digits"); vp_assert(Character::isLower(c) == lo, "ASCII lower case"); vp_assert(Character::isUpper(c) == up, "ASCII upper case"); vp_assert(Character::isAlpha(c) == (lo | up), "ASCII letters"); vp_assert(Character::isAlphaOrDecimal(c) == (lo | up | dg), "ASCII letters and digits");
    vp_assert(Character::isWhitespace(c) == ws, "ASCII white space"); vp_assert(Character::isSpace(c) == (c == ' '), "ASCII space"); vp_assert(Character::isBlank(c) == ((c == ' ') | (c == 9)), "ASCII blanks"); vp_assert(Character::isBreakableCharacter(c) == (ws | (c == '-')), "ASCII break characters"); vp_assert(Character::isControlCharacter(c) == ((c < 32) | (c == 127)), "ASCII control characters"); vp_assert(Character::isPrintable(c) == ((c >= 32) & (c < 127)), "ASCII printable characters"); vp_assert(Character::isIdStart(c) == (lo | up), "identifiers start with a letter"); 
    vp_assert(Character::toUpper(c) == (lo ? c - 32 : c), "ASCII upper casing"); vp_assert(Character::toLower(c) == (up ? c + 32 : c), "ASCII lower casing"); vp_reach("ascii"); }
  else { vp_assert(!Character::isHexDigit(c), "hexadecimal digits are ASCII"); vp_reach("wide"); } }
