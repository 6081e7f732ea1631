// Text conversions: integers, characters, booleans, Unicode encodings.
#include "common.hpp"
#include <Balau/Type/ToString.hpp>
#include <Balau/Type/FromString.hpp>
using Balau::Exception::ConversionException;
#ifndef TX
#define TX 4
#endif
#ifndef UNI
#define UNI 3
#endif
// ------------------------------------------------------------ integers
// every value of the types of up to 16 bits; for the wider types the values within a window around 0, the powers of ten, the powers of two and the limits
#ifndef WINDOW
#define WINDOW 100
#endif
#ifndef SMALL
#define SMALL 99999
#endif
static unsigned long p10(unsigned k) { unsigned long r = 1; while (k--) r *= 10; return r; }
template <class T> static T someValue(const char* nm) {
  if (sizeof(T) < 4) { T v; vp_symbolic(&v, sizeof v, nm); return v; }
  if (sizeof(T) == 4 && vp_choose(2, "small")) { T v; vp_symbolic(&v, sizeof v, nm); vp_assume(v <= (T)(SMALL)); vp_assume(std::is_unsigned<T>::value || v >= (T)-(SMALL)); return v; }
  unsigned char d; vp_symbolic(&d, 1, nm); vp_assume(d <= 2 * (WINDOW)); unsigned long base; switch (vp_choose(6, "centre")) { case 0: base = 0; break; case 1: base = p10((sizeof(T) == 4 ? 0 : 9) + vp_choose(11, "power of ten")); break; case 2: base = 1ul << (31 + vp_choose(2, "power of two")); break; case 3: base = 1ul << 63; break; case 4: base = 0ul - (1ul << (31 + vp_choose(2, "power of two"))); break; default: base = 0ul - p10((sizeof(T) == 4 ? 5 : 9) + vp_choose(10, "power of ten")); }
  return (T)(base + d - (WINDOW)); }
template <class T> static void roundTrip(const char* nm) {
  T v = someValue<T>(nm); std::string s = toString(v); bool neg = v < 0; size_t at = neg ? 1 : 0;
  vp_assert(s.size() > at && (!neg || s[0] == '-'), "a negative number is written with a leading minus sign");
  unsigned long acc = 0; int digits = 1; for (size_t i = at; i < s.size(); i++) { digits &= s[i] >= '0' && s[i] <= '9'; acc = acc * 10 + (unsigned long)(int)((unsigned)(unsigned char)s[i] - '0'); }
  vp_assert(digits, "an integer is written with decimal digits only"); vp_assert(s.size() == at + 1 || s[at] != '0', "an integer is written without leading zeros"); vp_assert(s.size() <= at + 20 && acc == (neg ? 0ul - (unsigned long)v : (unsigned long)v), "the digits written denote the value");
  T back; fromString(back, s); vp_assert(back == v, "parsing the text of an integer restores the integer");
  if (sizeof(T) != 4) { T b16, b32; fromString16(b16, toString16(v)); fromString32(b32, toString32(v)); vp_assert(b16 == v, "parsing the UTF-16 text of an integer restores the integer"); vp_assert(b32 == v, "parsing the UTF-32 text of an integer restores the integer"); }
  vp_observe("len", s.size()); if (neg) vp_reach("negative"); if (s.size() >= 3) vp_reach("long text"); if (s.size() >= 19) vp_reach("very long text"); }
extern "C" void conv_roundtrip() { switch (vp_choose(6, "type")) {
  case 0: roundTrip<signed char>("v"); break; case 1: roundTrip<unsigned char>("v"); break; case 2: roundTrip<short>("v"); break; case 3: roundTrip<unsigned short>("v"); break; case 4: roundTrip<int>("v"); break; default: roundTrip<unsigned int>("v"); } }
extern "C" void conv_roundtrip64() { switch (vp_choose(4, "type")) { case 0: roundTrip<long>("v"); break; case 1: roundTrip<unsigned long>("v"); break; case 2: roundTrip<long long>("v"); break; default: roundTrip<unsigned long long>("v"); } }
// reference grammar: optional white space, optional sign, digits; value as sign and magnitude
struct RefInt { bool ok = false, neg = false, over = false; unsigned long mag = 0; };
static int dig(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static RefInt refInt(const char* p, size_t n, int base, bool isUnsigned) {
  RefInt r; size_t i = 0, k = 0; while (i < n && (p[i] == ' ' || (p[i] >= '\t' && p[i] <= '\r'))) i++; if (i < n && (p[i] == '-' || p[i] == '+')) { r.neg = p[i] == '-'; i++; }
  if (base == 16 && i + 2 < n && p[i] == '0' && (p[i + 1] == 'x' || p[i + 1] == 'X') && dig(p[i + 2]) < 16) i += 2;
  if (base == 2 && i + 2 < n && p[i] == '0' && (p[i + 1] == 'b' || p[i + 1] == 'B') && dig(p[i + 2]) < 2) i += 2;
  if (i == n || (isUnsigned && r.neg)) return r; for (; i < n; i++) { int d = dig(p[i]); if (d >= base) return r; const unsigned long M = ~0ul; if (++k > (base <= 10 ? 19 : 12)) r.over |= (r.mag > M / base) | ((r.mag == M / base) & ((unsigned long)d > M % base)); r.mag = r.mag * base + (unsigned long)d; } r.ok = true; return r; }
template <class T> static void parses(const char* p, size_t n, int base) {
  constexpr bool U = std::is_unsigned<T>::value; RefInt r = refInt(p, n, base, U); unsigned long lim = U ? (unsigned long)std::numeric_limits<T>::max() : (unsigned long)std::numeric_limits<T>::max() + (r.neg ? 1 : 0); bool valid = r.ok && !r.over && r.mag <= lim; T want = r.neg ? (T)(0ul - r.mag) : (T)r.mag; T got = 77; bool threw = false;
  errno = ERANGE; // a stale error must not matter
  try { if (base == 10) fromString(got, std::string_view(p, n)); else fromString(got, std::string_view(p, n), base); } catch (const ConversionException&) { threw = true; }
  if (valid) { vp_assert(!threw, "a well-formed integer within the range is accepted"); vp_assert(got == want, "the parsed value is the one written"); vp_reach("accepted"); } else { vp_assert(threw, "text that is not an integer within the range is rejected"); vp_reach("rejected"); if (r.ok) vp_reach("out of range"); }
  vp_observe("valid", valid); }
static void parseAs(unsigned long t, const char* p, size_t n, int base) { switch (t) { case 0: parses<signed char>(p, n, base); break; case 1: parses<unsigned char>(p, n, base); break; case 2: parses<short>(p, n, base); break; case 3: parses<unsigned short>(p, n, base); break; case 4: parses<int>(p, n, base); break; case 5: parses<unsigned int>(p, n, base); break; case 6: parses<long>(p, n, base); break; case 7: parses<unsigned long>(p, n, base); break; case 8: parses<long long>(p, n, base); break; default: parses<unsigned long long>(p, n, base); } }
extern "C" void conv_parse() { unsigned long t = vp_choose(10, "type"); size_t n = symLen(TX, "n"); SymBytes s(n, "text"); parseAs(t, s.p, n, 10); }
// texts around the limits: an optional sign and the digits of a number as long as the limit or one longer; the 64 bit types have the first digits of the limit (or a 9 / a 1) and free last digits
#ifndef FREE
#define FREE 6
#endif
extern "C" void conv_limits() { unsigned long t = vp_choose(10, "type"); static const char* lim[] = {"128", "255", "32768", "65535", "2147483648", "4294967295", "9223372036854775808", "18446744073709551615", "9223372036854775808", "18446744073709551615"}; bool neg = vp_choose(2, "negative"), longer = vp_choose(2, "longer"); std::string l = lim[t]; if (longer) l = "1" + std::string(l.size(), '0'); size_t n = l.size(), freeDigits = t < 6 ? n : FREE; SymBytes d(freeDigits, "digits"); std::string s; if (neg) s += '-'; s += l.substr(0, n - freeDigits); for (size_t i = 0; i < freeDigits; i++) { vp_assume(d.p[i] >= '0' && d.p[i] <= '9'); s += d.p[i]; } if (freeDigits == n) vp_assume(d.p[0] != '0'); parseAs(t, s.data(), s.size(), 10); }
extern "C" void conv_base() { static const int bases[] = {2, 8, 16, 36}; int base = bases[vp_choose(4, "base")]; unsigned long t = vp_choose(10, "type"); size_t n = symLen(TX - 1, "n"); SymBytes s(n, "text"); parseAs(t, s.p, n, base); }
extern "C" void conv_bool() { size_t n = symLen(6, "n"); SymBytes s(n, "text"); for (size_t i = 0; i < n; i++) vp_assume((unsigned char)s.p[i] < 128); auto is = [&](const char* w) { size_t k = strlen(w); if (k != n) return 0; int ok = 1; for (size_t i = 0; i < n; i++) ok &= (s.p[i] | 32) == w[i] && ((unsigned)(s.p[i] | 32) - 'a' < 26); return ok; };
  int t = is("true"), f = is("false"); bool got = false, threw = false; try { fromString(got, s.view()); } catch (const ConversionException&) { threw = true; }
  if (t | f) { vp_assert(!threw, "true and false are accepted in any letter case"); vp_assert(got == (bool)t, "the boolean is the one written"); vp_reach(t ? "true" : "false"); } else { vp_assert(threw, "other texts are not booleans"); vp_reach("rejected"); }
  bool b; vp_symbolic(&b, 1, "b"); vp_assume((*(unsigned char*)&b) < 2); bool back; fromString(back, toString(b)); vp_assert(back == b, "booleans survive the round trip through text"); }
// the UTF-16 and UTF-32 functions accept and yield what the UTF-8 ones do, for any well-formed text
template <class T> static void wideAs(const SymText& t, bool functor) { T v8 = 7, v16 = 7, v32 = 7; bool t8 = false, t16 = false, t32 = false; std::u32string u32(t.cp.begin(), t.cp.end()); std::u16string u16; for (auto c : t.cp) { if (c < 0x10000) u16 += (char16_t)c; else { u16 += (char16_t)(0xD800 + ((c - 0x10000) >> 10)); u16 += (char16_t)(0xDC00 + ((c - 0x10000) & 0x3FF)); } }
  try { if (functor) FromString<char>()(v8, t.s); else fromString(v8, t.s); } catch (const ConversionException&) { t8 = true; } errno = ERANGE; try { if (functor) FromString<char16_t>()(v16, u16); else fromString16(v16, u16); } catch (const ConversionException&) { t16 = true; } errno = ERANGE; try { if (functor) FromString<char32_t>()(v32, u32); else fromString32(v32, u32); } catch (const ConversionException&) { t32 = true; }
  vp_assert(t8 == t16 && t8 == t32, "UTF-16 and UTF-32 texts are accepted exactly when the UTF-8 text is"); if (t8) vp_reach("rejected"); else { vp_assert(v8 == v16 && v8 == v32, "UTF-16 and UTF-32 texts convert to the value of the UTF-8 text"); vp_reach("accepted"); } }
extern "C" void conv_wide() { unsigned long t = vp_choose(11, "type"); bool f = vp_choose(2, "functor"); size_t n = symLen(t == 10 ? 5 : 2, "n"); SymText s(n, "cp"); if (n > 1) for (size_t i = 0; i < n; i++) vp_assume(s.cp[i] < (t == 10 && i ? 128 : 256)); if (t == 10) for (size_t i = 0; i < n; i++) vp_assume((s.cp[i] | 32) == (char32_t)(n == 4 ? "true" : "false")[i] || s.cp[i] == 'x'); switch (t) { case 0: wideAs<signed char>(s, f); break; case 1: wideAs<unsigned char>(s, f); break; case 2: wideAs<short>(s, f); break; case 3: wideAs<unsigned short>(s, f); break; case 4: wideAs<int>(s, f); break; case 5: wideAs<unsigned int>(s, f); break; case 6: wideAs<long>(s, f); break; case 7: wideAs<unsigned long>(s, f); break; case 8: wideAs<long long>(s, f); break; case 9: wideAs<unsigned long long>(s, f); break; default: wideAs<bool>(s, f); } }
extern "C" void conv_char_wide() { bool f = vp_choose(2, "functor"), wide = vp_choose(2, "wide character"); SymText s(symLen(2, "n"), "cp"); if (wide) wideAs<char32_t>(s, f); else wideAs<char>(s, f); }
extern "C" void conv_char() { // a single character
  SymText t(1, "cp"); char32_t c = t.cp[0]; SymBytes tail(symLen(1, "tail"), "tail byte"); std::string s = t.s + tail.str(); char32_t got = 0; fromString(got, s); vp_assert(got == c, "the first code point of the text is returned");
  char g = 0; bool threw = false; try { fromString(g, s); } catch (const ConversionException&) { threw = true; } vp_assert(threw == (c > 255), "only code points below 256 convert to a single byte character"); if (!threw) { vp_assert((unsigned char)g == c, "the byte is the code point"); vp_reach("byte"); } else vp_reach("wide");
  char32_t e; bool th2 = false; try { fromString(e, ""); } catch (const ConversionException&) { th2 = true; } vp_assert(th2, "an empty text has no character"); vp_assert(sameText(toString(c), t.s), "a code point is written as its UTF-8 encoding"); vp_observe("c", c); }
extern "C" void conv_char_malformed() { // arbitrary bytes
  size_t n = symLen(1, 4, "n"); SymBytes s(n, "text"); char32_t got = 0; bool threw = false; try { fromString(got, s.view()); } catch (const ConversionException&) { threw = true; }
  unsigned char b[4]; if (!threw) { vp_assert(isScalar(got), "a character parsed from text is a Unicode scalar value"); size_t k = refEncode(got, b); int ok = k <= n; for (size_t i = 0; i < k && i < n; i++) ok &= b[i] == (unsigned char)s.p[i]; vp_assert(ok, "a character parsed from text is the one its first bytes encode"); vp_reach("accepted"); }
  else { int wf = (unsigned char)s.p[0] < 128; vp_assert(!wf, "ASCII text is accepted"); vp_reach("rejected"); } }
// ------------------------------------------------------------ Unicode encodings
static void ref16(char32_t c, std::u16string& o) { if (c < 0x10000) o += (char16_t)c; else { c -= 0x10000; o += (char16_t)(0xD800 + (c >> 10)); o += (char16_t)(0xDC00 + (c & 0x3FF)); } }
extern "C" void conv_unicode() {
  size_t n = symLen(UNI, "n"); SymText t(n, "cp"); std::u32string u32(t.cp.begin(), t.cp.end()); std::u16string u16; for (auto c : t.cp) ref16(c, u16);
  auto a16 = toString16(t.s); vp_assert(sameText(a16, u16), "UTF-8 to UTF-16"); auto a32 = toString32(t.s); vp_assert(sameText(a32, u32), "UTF-8 to UTF-32");
  vp_assert(sameText(toString(u16), t.s), "UTF-16 to UTF-8"); vp_assert(sameText(toString(u32), t.s), "UTF-32 to UTF-8"); vp_assert(sameText(toString32(u16), u32), "UTF-16 to UTF-32"); vp_assert(sameText(toString16(u32), u16), "UTF-32 to UTF-16");
  std::u16string f16; std::u32string f32; std::string f8; fromString(f16, t.s); fromString(f32, t.s); vp_assert(sameText(f16, u16) && sameText(f32, u32), "fromString converts UTF-8 text to UTF-16 and UTF-32"); fromString16(f8, u16); vp_assert(sameText(f8, t.s), "fromString16 to UTF-8"); fromString32(f8, u32); vp_assert(sameText(f8, t.s), "fromString32 to UTF-8"); fromString16(f32, u16); vp_assert(sameText(f32, u32), "fromString16 to UTF-32"); fromString32(f16, u32); vp_assert(sameText(f16, u16), "fromString32 to UTF-16");
  vp_observe("bytes", t.s.size()); if (t.s.size() >= 8) vp_reach("two wide characters"); if (n) vp_reach("text"); }
static int wellFormed8(const std::string& s) { for (size_t i = 0; i < s.size();) { unsigned char b = s[i]; size_t k = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4; if ((b >= 0x80 && b < 0xC2) || b > 0xF4 || i + k > s.size()) return 0; char32_t c = k == 1 ? b : b & (0xFF >> (k + 1)); for (size_t j = 1; j < k; j++) { unsigned char x = s[i + j]; if ((x & 0xC0) != 0x80) return 0; c = c << 6 | (x & 63); } unsigned char e[4]; if (!isScalar(c) || refEncode(c, e) != k) return 0; i += k; } return 1; }
static int wellFormed32(const std::u32string& s) { int ok = 1; for (auto c : s) ok &= isScalar(c); return ok; }
extern "C" void conv_unicode_malformed() { // arbitrary bytes and code units: the result is always well-formed
  size_t n = symLen(UNI, "n"); switch (vp_choose(3, "source")) {
    case 0: { SymBytes s(n, "bytes"); auto r = toString32(s.str()); vp_assert(wellFormed32(r), "conversion of arbitrary bytes yields well-formed UTF-32"); auto b = toString(r); bool wf = wellFormed8(s.str()); if (wf) { vp_assert(sameText(b, s.view()), "well-formed bytes survive"); vp_reach("kept"); } else { vp_assert(b.size() < n || !sameText(b, s.view()), "malformed bytes are dropped"); vp_reach("dropped"); } break; }
    case 1: { std::u16string s(n, 0); if (n) { SymBytes u(n * 2, "units"); memcpy(&s[0], u.p, n * 2); } auto r = toString32(s); vp_assert(wellFormed32(r), "conversion of arbitrary UTF-16 units yields well-formed UTF-32"); break; }
    default: { SymU32 u(n, "points"); std::u32string s(u.view()); auto r = toString(s); vp_assert(wellFormed8(r), "conversion of arbitrary code points yields well-formed UTF-8"); } } }
