// Strings utilities: the regular expression functions and the remaining overloads, against reference definitions.
#include "common.hpp"
#include <Balau/Util/Strings.hpp>
using Balau::Util::Strings;
#ifndef RN
#define RN 4
#endif
// ------------------------------------------------------------ regular expressions
// each expression comes with a hand-written matcher: the length of the match at a position, or -1
typedef long (*Matcher)(std::string_view, size_t);
static long mPlus(std::string_view s, size_t i) { size_t e = i; while (e < s.size() && s[e] == 'a') e++; return e > i ? (long)(e - i) : -1; } // a+
static long mAlt(std::string_view s, size_t i) { if (i + 1 < s.size() && s[i] == 'a' && s[i + 1] == 'b') return 2; if (i < s.size() && s[i] == 'b') return 1; return -1; } // ab|b
static long mBlank(std::string_view s, size_t i) { size_t e = i; while (e < s.size() && (s[e] == ' ' || s[e] == '\t')) e++; return e > i ? (long)(e - i) : -1; } // [\t ]+
struct Re { const char* text; Matcher at; }; static const Re res[] = {{"a+", mPlus}, {"ab|b", mAlt}, {"[\t ]+", mBlank}};
struct M { size_t pos, len; };
static std::vector<M> refMatches(std::string_view s, Matcher at) { std::vector<M> o; for (size_t i = 0; i < s.size();) { long l = at(s, i); if (l > 0) { o.push_back({i, (size_t)l}); i += (size_t)l; } else i++; } return o; }
static void alphabet(SymBytes& s) { for (size_t i = 0; i < s.n; i++) oneOf(s.p[i], "ab \tx"); }
extern "C" void strings_regex() {
  unsigned long w = vp_choose(3, "expression"); size_t n = symLen(RN, "n"); SymBytes s(n, "text"); alphabet(s); std::string t = s.str(); std::string_view v(t); std::regex re(res[w].text); auto want = refMatches(v, res[w].at);
  vp_assert(Strings::startsWithRegex(t, re) == (!want.empty() && want[0].pos == 0), "startsWithRegex is true exactly when the expression matches at the start");
  vp_assert(Strings::matches(t, re) == (want.size() == 1 && want[0].len == n), "matches is true exactly when the expression matches the whole text");
  vp_assert(Strings::occurrences(t, re) == want.size(), "occurrences counts the matches of an expression"); vp_assert(Strings::occurrences(v, re) == want.size(), "occurrences counts the matches in a view"); vp_assert(Strings::occurrences(t.c_str(), re) == want.size(), "occurrences counts the matches in a C string");
  vp_observe("count", want.size()); if (want.size() > 1) vp_reach("several matches"); if (want.empty()) vp_reach("no match"); if (want.size() == 1 && want[0].len == n) vp_reach("whole match"); }
extern "C" void strings_regex_replace() {
  unsigned long w = vp_choose(3, "expression"); size_t n = symLen(RN, "n"), k = symLen(2, "k"); SymBytes s(n, "text"); alphabet(s); std::string t = s.str(); std::string_view v(t); std::regex re(res[w].text); std::string r = SymBytes(k, "replacement").str();
  auto ms = refMatches(v, res[w].at); std::string want; size_t at = 0; for (auto& m : ms) { want += v.substr(at, m.pos - at); want += r; at = m.pos + m.len; } want += v.substr(at);
  switch (vp_choose(3, "form")) { case 0: vp_assert(sameText(Strings::replaceAll(t, re, r), want), "replaceAll substitutes every match of an expression and nothing else"); break; case 1: vp_assert(sameText(Strings::replaceAll(v, re, std::string_view(r)), want), "replaceAll on a view substitutes every match of an expression"); break; default: vp_assert(sameText(Strings::replaceAll(t.c_str(), re, r), want), "replaceAll on a C string substitutes every match of an expression"); }
  vp_observe("len", want.size()); if (ms.size() > 1) vp_reach("several matches"); if (ms.empty()) vp_reach("no match"); }
extern "C" void strings_simplify() {
  size_t n = symLen(RN + 1, "n"); SymBytes s(n, "text"); for (size_t i = 0; i < n; i++) oneOf(s.p[i], "b \tx"); std::string t = s.str();
  std::string want; bool gap = false; for (size_t i = 0; i < n; i++) { if (t[i] == ' ' || t[i] == '\t') gap = !want.empty(); else { if (gap) want += ' '; want += t[i]; gap = false; } }
  vp_assert(sameText(Strings::simplify(t), want), "simplify trims the text and conflates every run of blanks to one space"); if (want.size() < n) vp_reach("simplified"); if (want.size() == 3) vp_reach("three characters"); }
extern "C" void strings_regex_split() {
  unsigned long w = vp_choose(3, "expression"); size_t n = symLen(RN, "n"); SymBytes s(n, "text"); alphabet(s); std::string t = s.str(); std::string_view v(t); std::regex re(res[w].text); bool keep = vp_choose(2, "return delimiters"), compress = vp_choose(2, "compress"), trim = vp_choose(2, "trim");
  auto ms = refMatches(v, res[w].at); std::vector<M> want; size_t at = 0; for (auto& m : ms) { if (m.pos > at || !compress) want.push_back({at, m.pos - at}); if (keep) want.push_back(m); at = m.pos + m.len; } if (at < n || (!compress && !ms.empty())) want.push_back({at, n - at});
  auto got = trim ? Strings::splitAndTrim(v, re, keep, compress) : Strings::split(v, re, keep, compress); vp_assert(got.size() == want.size(), "split at an expression yields one element per piece, and per delimiter when asked");
  for (size_t i = 0; i < got.size(); i++) { size_t a = want[i].pos, e = a + want[i].len; if (trim) { while (a < e && t[a] == ' ') a++; while (e > a && t[e - 1] == ' ') e--; } vp_assert(sameText(got[i], v.substr(a, e - a)), trim ? "splitAndTrim at an expression trims every piece" : "the elements of a split at an expression are the pieces in order"); }
  vp_observe("pieces", got.size()); if (got.size() > 2) vp_reach("several pieces"); if (keep && !ms.empty()) vp_reach("delimiters returned"); if (!compress && want.size() && !want[0].len) vp_reach("empty piece"); }
// ------------------------------------------------------------ overloads
extern "C" void strings_overloads() {
  size_t n = symLen(3, "n"); SymBytes s(n, "text"); for (size_t i = 0; i < n; i++) vp_assume(s.p[i] != 0); std::string t = s.str(); const char* z = t.c_str(); char c; vp_symbolic(&c, 1, "character"); vp_assume(c != 0); int in = 0; for (size_t i = 0; i < n; i++) in |= t[i] == c; bool st = n && t[0] == c, en = n && t[n - 1] == c;
  vp_assert(Strings::startsWith(t, c) == st, "startsWith of a string and a character"); vp_assert(Strings::startsWith(z, c) == st, "startsWith of a C string and a character"); vp_assert(Strings::startsWith(s.view(), c) == st, "startsWith of a view and a character");
  vp_assert(Strings::endsWith(z, c) == en, "endsWith of a C string and a character"); vp_assert(Strings::endsWith(s.view(), c) == en, "endsWith of a view and a character"); vp_assert(Strings::contains(t, c) == (bool)in, "contains of a string and a character"); vp_assert(Strings::contains(z, c) == (bool)in, "contains of a C string and a character");
  vp_observe("in", in); if (st && !en) vp_reach("at the start"); if (en && !st) vp_reach("at the end"); if (in && !st && !en) vp_reach("in the middle"); if (!in) vp_reach("absent"); }
extern "C" void strings_overloads32() {
  size_t n = symLen(3, "n"); SymU32 s(n, "text"); for (size_t i = 0; i < n; i++) vp_assume(s.p[i] != 0); std::u32string t(s.view()); const char32_t* z = t.c_str(); char32_t c; vp_symbolic(&c, 4, "character"); vp_assume(c != 0); int in = 0; for (size_t i = 0; i < n; i++) in |= t[i] == c; bool st = n && t[0] == c, en = n && t[n - 1] == c;
  vp_assert(Strings::startsWith(t, c) == st && Strings::startsWith(z, c) == st && Strings::startsWith(s.view(), c) == st, "startsWith of UTF-32 text and a character"); vp_assert(Strings::endsWith(z, c) == en, "endsWith of a UTF-32 C string and a character"); vp_assert(Strings::endsWith(s.view(), c) == en, "endsWith of a UTF-32 view and a character"); vp_assert(Strings::contains(t, c) == (bool)in && Strings::contains(z, c) == (bool)in, "contains of UTF-32 text and a character"); vp_assert(Strings::codePointCount(s.view()) == n, "the code points of UTF-32 text are its elements");
  vp_observe("in", in); if (st && !en) vp_reach("at the start"); if (en && !st) vp_reach("at the end"); if (!in) vp_reach("absent"); }
// a different standard allocator
template <class T> struct Alloc2 : std::allocator<T> { using value_type = T; Alloc2() = default; template <class U> Alloc2(const Alloc2<U>&) {} template <class U> struct rebind { using other = Alloc2<U>; }; };
extern "C" void strings_replace_forms() {
  size_t n = symLen(4, "n"), m = symLen(1, 2, "m"), k = symLen(2, "k"); SymBytes s(n, "text"), p(m, "match"), r(k, "replacement"); for (size_t i = 0; i < n; i++) vp_assume(s.p[i] != 0); for (size_t i = 0; i < m; i++) vp_assume(p.p[i] != 0); for (size_t i = 0; i < k; i++) vp_assume(r.p[i] != 0);
  std::string t = s.str(), mt = p.str(), rt = r.str(), want; size_t c = 0; for (size_t i = 0; i < n;) if (matchAt(s.view(), i, p.view())) { want += rt; i += m; c++; } else want += t[i++];
  switch (vp_choose(4, "form")) {
    case 0: vp_assert(sameText(Strings::replaceAll(t, mt, rt), want), "replaceAll of strings"); break;
    case 1: vp_assert(sameText(Strings::replaceAll(t, mt.c_str(), rt.c_str()), want), "replaceAll of a string and C strings"); break;
    case 2: { size_t g = 77; auto x = Strings::replaceAll<char, std::allocator<char>>(s.view(), p.view(), r.view(), &g); vp_assert(sameText(x, want), "replaceAll with an allocator"); vp_assert(g == c, "replaceAll with an allocator reports the number of replacements"); break; }
    default: { size_t g = 77; auto x = Strings::replaceAll<char>(s.view(), p.view(), r.view(), &g); vp_assert(sameText(x, want), "replaceAll with a character type"); vp_assert(g == c, "replaceAll with a character type reports the number of replacements"); } }
  vp_observe("count", c); if (c > 1) vp_reach("replaced twice"); if (!c) vp_reach("unchanged"); }
extern "C" void strings_join_forms() {
  using A = std::allocator<char>; size_t k = symLen(1, 3, "count"), m = symLen(2, "delimiter length"); SymBytes d(m, "delimiter"); for (size_t i = 0; i < m; i++) vp_assume(d.p[i] != 0); std::string dt = d.str(), pre = SymBytes(1, "prefix").str(), suf = SymBytes(1, "suffix").str(); vp_assume(pre[0] != 0 && suf[0] != 0); std::vector<std::string> v; std::string want, want2;
  for (size_t i = 0; i < k; i++) { SymBytes e(i == 1 ? symLen(2, "element length") : 1, "element"); v.push_back(e.str()); if (i) want += dt; want += v[i]; want2 += pre + v[i] + suf; }
  auto j3 = [&](auto dl) { return k == 1 ? Strings::join(dl, v[0]) : k == 2 ? Strings::join(dl, v[0], v[1]) : Strings::join(dl, v[0], v[1], v[2]); }; auto j3a = [&](auto dl) { return k == 1 ? Strings::join<A>(dl, v[0]) : k == 2 ? Strings::join<A>(dl, v[0], v[1]) : Strings::join<A>(dl, v[0], v[1], v[2]); };
  switch (vp_choose(4, "form")) {
    case 0: vp_assert(sameText(j3(dt), want), "join of strings places the delimiter between consecutive elements only"); vp_assert(sameText(j3(dt.c_str()), want), "join with a C string delimiter"); break;
    case 1: vp_assert(sameText(j3a(dt), want), "join with an allocator"); vp_assert(sameText(j3a(dt.c_str()), want), "join with an allocator and a C string delimiter"); break;
    case 2: vp_assert(sameText(Strings::joinContainer(dt.c_str(), v), want), "joinContainer with a C string delimiter"); vp_assert(sameText(Strings::joinContainer(dt, v), want), "joinContainer with a string delimiter"); break;
    default: { vp_assert(sameText(Strings::prefixSuffixJoin(v, pre.c_str(), suf.c_str()), want2), "prefixSuffixJoin with C strings surrounds every element"); vp_assert(sameText(Strings::prefixSuffixJoin<A>(v, pre, suf), want2), "prefixSuffixJoin with an allocator surrounds every element");
      std::vector<std::u32string> u; std::u32string wu; for (auto& e : v) { std::u32string x; for (char c : e) x += (char32_t)(unsigned char)c; u.push_back(x); wu += U"<" + x + U">)"; } vp_assert(sameText(Strings::prefixSuffixJoin(u, U"<", U">)"), wu), "prefixSuffixJoin of UTF-32 texts surrounds every element"); vp_assert(sameText(Strings::joinContainer(std::u32string_view(U", "), u), k == 1 ? u[0] : k == 2 ? u[0] + U", " + u[1] : u[0] + U", " + u[1] + U", " + u[2]), "joinContainer of UTF-32 texts"); } }
  vp_observe("len", want.size()); if (k == 3) vp_reach("three elements"); }
extern "C" void strings_append_forms() {
  size_t n = symLen(2, "n"), k = symLen(3, "count"); SymBytes s(n, "text"); std::string t = s.str(); const std::string before = t;
  switch (vp_choose(3, "form")) {
    case 0: { char c; vp_symbolic(&c, 1, "character"); vp_assert(sameText(Strings::append(s.view(), c, k), t + std::string(k, c)), "append to a copy adds the character the stated number of times"); break; }
    case 1: { SymText c(1, "cp"); std::string want = t; for (size_t i = 0; i < k; i++) want += c.s; vp_assert(sameText(Strings::append((const std::string&)t, c.cp[0], k), want), "append to a copy adds the code point the stated number of times"); if (c.s.size() == 4 && k == 3) vp_reach("wide"); break; }
    default: { SymU32 u(n, "points"); std::u32string w(u.view()); char32_t c; vp_symbolic(&c, 4, "character"); vp_assert(sameText(Strings::append((const std::u32string&)w, c, k), w + std::u32string(k, c)), "append to a copy of UTF-32 text"); vp_assert(sameText(w, u.view()), "append to a copy leaves the UTF-32 text alone"); } }
  vp_assert(sameText(t, before), "append to a copy leaves the text alone"); if (k == 3) vp_reach("three"); }
extern "C" void strings_misc_forms() { // line lengths of C strings, splitAndTrim of UTF-32 text, toStringContainer, equalsIgnoreCase of C strings
  switch (vp_choose(4, "function")) {
    case 0: { size_t n = symLen(4, "n"); SymBytes s(n, "text"); for (size_t i = 0; i < n; i++) oneOf(s.p[i], "a\nb"); bool extra = vp_choose(2, "include extra text"); std::string t = s.str(); std::vector<size_t> want; size_t l = 0; for (char c : t) if (c == '\n') { want.push_back(l); l = 0; } else l++; if (l && extra) want.push_back(l); auto got = Strings::lineLengths(t.c_str(), extra); vp_assert(got.size() == want.size(), "lineLengths of a C string yields one length per line"); for (size_t i = 0; i < got.size(); i++) vp_assert(got[i] == want[i], "lineLengths of a C string yields the length of each line"); if (want.size() > 1) vp_reach("two lines"); break; }
    case 1: { size_t n = symLen(4, "n"); SymU32 s(n, "text"); for (size_t i = 0; i < n; i++) vp_assume(s.p[i] == U' ' || s.p[i] == U',' || s.p[i] == U'b' || s.p[i] == U'\U0001F600'); bool c = vp_choose(2, "compress"); std::vector<std::u32string_view> want; size_t a = 0; auto v = s.view(); auto piece = [&](size_t f, size_t e) { if (f == e && c) return; while (f < e && v[f] == U' ') f++; while (e > f && v[e - 1] == U' ') e--; want.push_back(v.substr(f, e - f)); }; for (size_t i = 0; i < n; i++) if (v[i] == U',') { piece(a, i); a = i + 1; } piece(a, n); auto got = Strings::splitAndTrim(v, std::u32string_view(U","), c); vp_assert(got.size() == want.size(), "splitAndTrim of UTF-32 text keeps the pieces of split"); for (size_t i = 0; i < got.size(); i++) vp_assert(sameText(got[i], want[i]), "splitAndTrim of UTF-32 text trims every piece"); if (want.size() > 1) vp_reach("two pieces"); break; }
    case 2: { size_t n = symLen(3, "n"); SymBytes s(n, "text"); std::vector<std::string_view> v; for (size_t i = 0; i < n; i++) v.push_back(s.view().substr(i)); auto got = Strings::toStringContainer(v); vp_assert(got.size() == n, "toStringContainer copies every element"); for (size_t i = 0; i < got.size(); i++) { vp_assert(sameText(got[i], v[i]), "toStringContainer copies the text of each element"); vp_assert(got[i].data() != v[i].data(), "toStringContainer makes copies"); } if (n == 3) vp_reach("three elements"); break; }
    default: { size_t n = symLen(3, "n"); SymBytes s(n, "text"), t(n, "other"); for (size_t i = 0; i < n; i++) vp_assume((unsigned char)s.p[i] < 128 && s.p[i] > 0 && (unsigned char)t.p[i] < 128 && t.p[i] > 0); auto lo = [](char c) { return c >= 'A' && c <= 'Z' ? c | 32 : (int)c; }; int same = 1; for (size_t i = 0; i < n; i++) same &= lo(s.p[i]) == lo(t.p[i]); std::string a = s.str(), b = t.str(); vp_assert(Strings::equalsIgnoreCase(a.c_str(), b) == (bool)same, "equalsIgnoreCase of a C string ignores the case of ASCII letters and nothing else"); if (same) vp_reach("same"); else vp_reach("different"); } } }
