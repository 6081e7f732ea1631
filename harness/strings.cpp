// Strings utilities against reference definitions, on every text within the bounds.
#include "common.hpp"
#include <Balau/Util/Strings.hpp>
using Balau::Util::Strings; using Balau::Character;
#ifndef LS
#define LS 5
#endif
#ifndef LP
#define LP 3
#endif
#ifndef CPN
#define CPN 3
#endif
template <class V> static size_t refOcc(const V& s, const V& p) { size_t c = 0; if (p.empty()) return 0; for (size_t i = 0; i + p.size() <= s.size();) { if (matchAt(s, i, p)) { c++; i += p.size(); } else i++; } return c; }
template <class V> static size_t refLast(const V& s, const V& p) { if (p.size() > s.size()) return (size_t)-1; for (size_t i = s.size() - p.size() + 1; i-- > 0;) if (matchAt(s, i, p)) return i; return (size_t)-1; }
template <class V> static bool refContains(const V& s, const V& p) { for (size_t i = 0; i + p.size() <= s.size(); i++) if (matchAt(s, i, p)) return true; return false; }
template <class V> static void searchProps(V s, V p) {
  using C = typename V::value_type; std::basic_string<C> ss(s), sp(p);
  bool sw = matchAt(s, 0, p), ew = p.size() <= s.size() && matchAt(s, s.size() - p.size(), p), ct = refContains(s, p); size_t li = refLast(s, p);
  vp_assert(Strings::startsWith(s, p) == sw, "startsWith is true exactly when the text begins with the prefix");
  vp_assert(Strings::startsWith(ss, sp) == sw, "startsWith agrees for owned strings");
  vp_assert(Strings::endsWith(s, p) == ew, "endsWith is true exactly when the text ends with the suffix");
  vp_assert(Strings::endsWith(ss, sp) == ew, "endsWith agrees for owned strings");
  vp_assert(Strings::contains(ss, sp) == ct, "contains is true exactly when the text has the substring");
  vp_assert(Strings::lastIndexOf(ss, sp) == li, "lastIndexOf is the greatest index at which the substring occurs");
  size_t oc = refOcc(s, p), go = Strings::occurrences(ss, sp);
  vp_assert(go == oc, "occurrences is the number of non-overlapping matches");
  if (!p.empty()) { C c = p[0]; bool fc = s.size() && s[0] == c, lc = s.size() && s[s.size() - 1] == c, ac = false; for (C x : s) ac |= x == c;
    vp_assert(Strings::startsWith(s, c) == fc, "startsWith(character)"); vp_assert(Strings::endsWith(s, c) == lc, "endsWith(character)"); vp_assert(Strings::contains(ss, c) == ac, "contains(character)"); }
  vp_observe("starts", sw); vp_observe("ends", ew); vp_observe("contains", ct); vp_observe("last", li); vp_observe("occ", oc);
  if (ct && !p.empty()) vp_reach("found"); if (!ct) vp_reach("absent"); if (oc > 1) vp_reach("several");
}
extern "C" void strings_search() { size_t n = symLen(LS, "n"), m = symLen(LP, "m"); SymBytes s(n, "text"), p(m, "pattern"); searchProps(s.view(), p.view()); }
extern "C" void strings_search32() { size_t n = symLen(LS - 1, "n"), m = symLen(LP - 1, "m"); SymU32 s(n, "text"), p(m, "pattern"); searchProps(s.view(), p.view()); }
// the C string overloads (texts without embedded NUL)
extern "C" void strings_search_cstr() {
  size_t n = symLen(LS - 1, "n"), m = symLen(LP - 1, "m"); char s[LS], p[LP]; vp_symbolic(s, n + 1, "text"); vp_symbolic(p, m + 1, "pattern"); s[n] = p[m] = 0; for (size_t i = 0; i < n; i++) vp_assume(s[i] != 0); for (size_t i = 0; i < m; i++) vp_assume(p[i] != 0);
  std::string_view sv(s, n), pv(p, m); const char* cs = s; const char* cp = p;
  vp_assert(Strings::startsWith(cs, cp) == (bool)matchAt(sv, 0, pv), "startsWith of C strings");
  vp_assert(Strings::endsWith(cs, cp) == (m <= n && matchAt(sv, n - m, pv)), "endsWith of C strings");
  vp_assert(Strings::contains(cs, cp) == refContains(sv, pv), "contains of C strings");
  vp_assert(Strings::lastIndexOf(cs, cp) == refLast(sv, pv), "lastIndexOf of C strings");
  vp_assert(Strings::occurrences(cs, cp) == refOcc(sv, pv), "occurrences of C strings");
  vp_reach("done");
}
// ------------------------------------------------------------ replace, split, join
template <class V> static std::basic_string<typename V::value_type> refReplace(V s, V m, V r, size_t& c) {
  std::basic_string<typename V::value_type> o; c = 0; if (m.empty()) return std::basic_string<typename V::value_type>(s);
  for (size_t i = 0; i < s.size();) if (matchAt(s, i, m)) { o += r; i += m.size(); c++; } else o += s[i++]; return o; }
template <class V> static void replaceProps(V s, V m, V r) { size_t c = 0, g = 77; auto want = refReplace(s, m, r, c); auto got = Strings::replaceAll(s, m, r, &g);
  vp_assert(sameText(got, want), "replaceAll substitutes every non-overlapping match, left to right, and nothing else"); vp_assert(g == c, "replaceAll reports the number of replacements");
  auto again = Strings::replaceAll(s, m, r); vp_assert(sameText(again, want), "replaceAll without a counter gives the same text");
  vp_observe("count", c); vp_observe("len", got.size()); if (c) vp_reach("replaced"); if (c > 1) vp_reach("replaced twice"); }
extern "C" void strings_replace() { size_t n = symLen(LS, "n"), m = symLen(2, "m"), k = symLen(2, "k"); SymBytes s(n, "text"), p(m, "match"), r(k, "replacement"); replaceProps(s.view(), p.view(), r.view()); }
extern "C" void strings_replace32() { size_t n = symLen(LS - 1, "n"), m = symLen(2, "m"), k = symLen(1, "k"); SymU32 s(n, "text"), p(m, "match"), r(k, "replacement"); replaceProps(s.view(), p.view(), r.view()); }
template <class V> static std::vector<std::pair<size_t, size_t>> refSplit(V s, V d, bool compress) {
  std::vector<std::pair<size_t, size_t>> o; size_t st = 0; if (d.empty()) { o.push_back({0, s.size()}); return o; }
  for (size_t i = 0; i < s.size();) if (matchAt(s, i, d)) { if (i > st || !compress) o.push_back({st, i - st}); i += d.size(); st = i; } else i++;
  if (st < s.size() || !compress) o.push_back({st, s.size() - st}); return o; }
template <class V> static void splitProps(V s, V d, bool compress) {
  auto want = refSplit(s, d, compress); auto got = Strings::split(s, d, compress);
  vp_assert(got.size() == want.size(), "split yields one element per delimiter-separated piece");
  for (size_t i = 0; i < got.size(); i++) { vp_assert(got[i].data() == s.data() + want[i].first && got[i].size() == want[i].second, "split elements are the pieces between delimiters, in order"); }
  if (!d.empty() && !compress) { std::basic_string<typename V::value_type> back; for (size_t i = 0; i < got.size(); i++) { if (i) back += d; back += got[i]; } vp_assert(sameText(back, s), "joining the uncompressed pieces with the delimiter restores the text"); }
  vp_observe("pieces", got.size()); if (got.size() > 1) vp_reach("several pieces"); if (compress && !d.empty() && !s.empty() && got.empty()) vp_reach("only delimiters"); }
extern "C" void strings_split() { size_t n = symLen(LS, "n"), m = symLen(2, "m"); SymBytes s(n, "text"), d(m, "delimiter"); bool c = vp_choose(2, "compress"); splitProps(s.view(), d.view(), c); }
extern "C" void strings_split32() { size_t n = symLen(LS - 1, "n"), m = symLen(2, "m"); SymU32 s(n, "text"), d(m, "delimiter"); bool c = vp_choose(2, "compress"); splitProps(s.view(), d.view(), c); }
extern "C" void strings_split_trim() { // ASCII text
  size_t n = symLen(LS, "n"); SymBytes s(n, "text"); for (size_t i = 0; i < n; i++) vp_assume((unsigned char)s.p[i] < 128); char dl; vp_symbolic(&dl, 1, "delimiter"); vp_assume((unsigned char)dl < 128); bool c = vp_choose(2, "compress");
  auto want = refSplit(s.view(), std::string_view(&dl, 1), c); auto got = Strings::splitAndTrim(s.view(), std::string_view(&dl, 1), c); vp_assert(got.size() == want.size(), "splitAndTrim keeps the pieces of split");
  for (size_t i = 0; i < got.size(); i++) { size_t a = want[i].first, e = a + want[i].second; while (a < e && s.p[a] == ' ') a++; while (e > a && s.p[e - 1] == ' ') e--; vp_assert(sameText(got[i], std::string_view(s.p + a, e - a)), "splitAndTrim removes the blanks around each piece"); if (e - a < want[i].second) vp_reach("trimmed"); } }
extern "C" void strings_join() {
  size_t k = symLen(3, "count"), m = symLen(2, "delimiter length"); SymBytes d(m, "delimiter"); std::vector<std::string> v; std::string want, want2; SymBytes pf(1, "prefix"), sf(2, "suffix"); vp_assume(pf.p[0] != 0 && sf.p[0] != 0 && sf.p[1] != 0); std::string pre = pf.str(), suf = sf.str();
  for (size_t i = 0; i < k; i++) { SymBytes e(symLen(2, "element length"), "element"); v.push_back(e.str()); if (i) want += d.str(); want += e.str(); want2 += pre; want2 += e.str(); want2 += suf; }
  vp_assert(sameText(Strings::joinContainer(d.view(), v), want), "joinContainer places the delimiter between consecutive elements only");
  vp_assert(sameText(Strings::prefixSuffixJoin(v, pre, suf), want2), "prefixSuffixJoin wraps every element in order");
  vp_assert(sameText(Strings::prefixSuffixJoin(v, pre.c_str(), suf.c_str()), want2), "prefixSuffixJoin agrees for C strings");
  if (k == 3) vp_assert(sameText(Strings::join(d.str(), v[0], v[1], v[2]), want), "join agrees with joinContainer");
  if (k == 2) vp_assert(sameText(Strings::join(d.str(), v[0], v[1]), want), "join agrees with joinContainer");
  if (k == 1) vp_assert(sameText(Strings::join(d.str(), v[0]), want), "join of one element");
  vp_observe("len", want.size()); if (k == 3) vp_reach("three"); }
// ------------------------------------------------------------ code point aware functions on well-formed UTF-8
extern "C" void strings_trim() {
  size_t n = symLen(CPN, "n"); SymText t(n, "cp"); size_t a = 0, e = n; while (a < n && Character::isSpace(t.cp[a])) a++; while (e > a && Character::isSpace(t.cp[e - 1])) e--; std::string_view s = t.s;
  char* heap = new char[s.size() ? s.size() : 1]; memcpy(heap, s.data(), s.size()); std::string_view in(heap, s.size());
  auto b = Strings::trim(in), l = Strings::trimLeft(in), r = Strings::trimRight(in); size_t el = n; { size_t x = 0; while (x < n && Character::isSpace(t.cp[x])) x++; el = x; } size_t er = n; while (er > 0 && Character::isSpace(t.cp[er - 1])) er--;
  vp_assert(b.size() == t.at[e] - t.at[a] && (b.empty() || b.data() == heap + t.at[a]), "trim removes exactly the leading and trailing space characters");
  vp_assert(l.size() == s.size() - t.at[el] && l.data() == heap + t.at[el], "trimLeft removes exactly the leading space characters");
  vp_assert(r.size() == t.at[er] && r.data() == heap, "trimRight removes exactly the trailing space characters");
  vp_assert(Strings::codePointCount(in) == n, "codePointCount counts the code points"); vp_observe("len", b.size()); if (a > 0 && e < n) vp_reach("both sides"); if (e > a) vp_reach("kept"); delete[] heap; }
extern "C" void strings_trim32() {
  size_t n = symLen(CPN + 1, "n"); SymU32 t(n, "cp"); size_t a = 0, e = n; while (a < n && Character::isSpace(t.p[a])) a++; while (e > a && Character::isSpace(t.p[e - 1])) e--; size_t er = n; while (er > 0 && Character::isSpace(t.p[er - 1])) er--; size_t al = 0; while (al < n && Character::isSpace(t.p[al])) al++; auto in = t.view();
  auto b = Strings::trim(in), l = Strings::trimLeft(in), r = Strings::trimRight(in);
  vp_assert(b.size() == e - a && (b.empty() || b.data() == t.p + a), "trim (UTF-32)"); vp_assert(l.size() == n - al && l.data() == t.p + al, "trimLeft (UTF-32)"); vp_assert(r.size() == er && r.data() == t.p, "trimRight (UTF-32)"); vp_assert(Strings::codePointCount(in) == n, "codePointCount (UTF-32)"); vp_reach("done"); }
extern "C" void strings_pad() {
  size_t n = symLen(CPN, "n"); SymText t(n, "cp"); unsigned w = symLen(4, "width"); char c; vp_symbolic(&c, 1, "pad"); char32_t u; vp_symbolic(&u, 4, "pad32"); vp_assume(isScalar(u)); vp_assume((unsigned char)c < 128);
  size_t k = w > n ? w - n : 0; unsigned char ub[4]; size_t un = refEncode(u, ub); std::string pc(k, c), pu; for (size_t i = 0; i < k; i++) pu.append((char*)ub, un);
  vp_assert(sameText(Strings::padLeft(t.s, w, c), pc + t.s), "padLeft fills with the character up to the width in code points"); vp_assert(sameText(Strings::padRight(t.s, w, c), t.s + pc), "padRight fills with the character up to the width in code points");
  vp_assert(sameText(Strings::padLeft(t.s, w, u), pu + t.s), "padLeft with a code point"); vp_assert(sameText(Strings::padRight(t.s, w, u), t.s + pu), "padRight with a code point");
  std::string ap = t.s; Strings::append(ap, u, k); vp_assert(sameText(ap, t.s + pu), "append adds the code point the given number of times"); ap = t.s; Strings::append(ap, c, k); vp_assert(sameText(ap, t.s + pc), "append adds the character the given number of times");
  std::u32string t32(t.cp.begin(), t.cp.end()), p32(k, u); vp_assert(sameText(Strings::padLeft(t32, w, u), p32 + t32), "padLeft (UTF-32)"); vp_assert(sameText(Strings::padRight(t32, w, u), t32 + p32), "padRight (UTF-32)");
  if (k && n) vp_reach("padded"); if (un == 4 && k) vp_reach("four byte padding"); if (!k) vp_reach("already wide enough"); vp_observe("k", k); }
static void caseProps(const std::string& s, const std::vector<char32_t>& cp, bool upper) {
  std::string want; std::u32string w32; for (auto c : cp) { unsigned char b[4]; char32_t x = (char32_t)(upper ? u_toupper((UChar32)c) : u_tolower((UChar32)c)); w32 += x; size_t k = refEncode(x, b); want.append((char*)b, k); }
  auto got = upper ? Strings::toUpper(s) : Strings::toLower(s); vp_assert(sameText(got, want), "case conversion maps every code point and keeps their order");
  std::u32string t32(cp.begin(), cp.end()); vp_assert(sameText(upper ? Strings::toUpper(t32) : Strings::toLower(t32), w32), "case conversion of UTF-32 text is per code point");
  vp_observe("len", got.size()); if (got.size() > s.size()) vp_reach("longer"); if (got.size() < s.size()) vp_reach("shorter"); }
extern "C" void strings_case() { // one arbitrary code point between two ASCII characters
  bool up = vp_choose(2, "upper"); char a = 'q', b; vp_symbolic(&b, 1, "last"); vp_assume((unsigned char)b < 128); SymText t(1, "cp"); std::string s; s += a; s += t.s; s += b; caseProps(s, {(char32_t)a, t.cp[0], (char32_t)b}, up); }
extern "C" void strings_case_pairs() { // every text of code points below U+0300
  bool up = vp_choose(2, "upper"); size_t n = symLen(CPN - 1, "n"); SymText t(0, "cp"); for (size_t i = 0; i < n; i++) { unsigned char hi, lo; vp_symbolic(&hi, 1, "high"); vp_symbolic(&lo, 1, "low"); vp_assume(hi < 3); char32_t c = hi * 256u + lo; unsigned char b[4]; size_t k = refEncode(c, b); t.s.append((char*)b, k); t.cp.push_back(c); } caseProps(t.s, t.cp, up); }
extern "C" void strings_ignorecase() { // ASCII
  size_t n = symLen(3, "n"), m = symLen(3, "m"); SymBytes a(n, "a"), b(m, "b"); for (size_t i = 0; i < n; i++) vp_assume((unsigned char)a.p[i] < 128); for (size_t i = 0; i < m; i++) vp_assume((unsigned char)b.p[i] < 128);
  int same = n == m; for (size_t i = 0; i < n && i < m; i++) { char x = a.p[i], y = b.p[i]; x = vp_ite(x >= 'A' && x <= 'Z', x + 32, x); y = vp_ite(y >= 'A' && y <= 'Z', y + 32, y); same &= x == y; }
  vp_assert(Strings::equalsIgnoreCase(a.str(), b.str()) == (bool)same, "equalsIgnoreCase compares letters without regard to case"); if (same && n) vp_reach("equal"); if (!same) vp_reach("different"); }
extern "C" void strings_lines() {
  size_t n = symLen(LS - 1, "n"); SymBytes s(n, "text"); bool extra = vp_choose(2, "extra"); for (size_t i = 0; i < n; i++) oneOf(s.p[i], "ab\n\r"); std::vector<size_t> want; size_t st = 0;
  for (size_t i = 0; i < n;) { size_t k = 0; if (s.p[i] == '\n') k = i + 1 < n && s.p[i + 1] == '\r' ? 2 : 1; else if (s.p[i] == '\r') k = i + 1 < n && s.p[i + 1] == '\n' ? 2 : 1; if (k) { want.push_back(i - st); i += k; st = i; } else i++; }
  if (extra && st < n) want.push_back(n - st);
  auto got = Strings::lineLengths(s.view(), extra); vp_assert(got == want, "lineLengths reports the length of every line"); if (want.size() > 1) vp_reach("several lines"); vp_observe("lines", got.size()); }
