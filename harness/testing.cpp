// Assertions and matchers of the testing framework: an assertion passes exactly when its condition holds.
#include "common.hpp"
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Strings.hpp>
#include <list>
#include <set>
#include <Balau/Testing/Assertions.hpp>
namespace T = Balau::Testing;
using Balau::Exception::AssertionException; using Balau::SourceCodeLocation;
#ifndef AN
#define AN 3
#endif
struct Outcome { int passed; std::string message; };
template <class F> static Outcome outcome(F f) {
  try { f(); return {1, ""}; } catch (const AssertionException& e) { return {0, e.message}; } catch (const std::exception&) { vp_fail("a failed assertion raises an AssertionException and nothing else"); } }
static int has(const std::string& m, std::string_view part) { int ok = 0; for (size_t i = 0; i + part.size() <= m.size(); i++) ok |= matchAt(std::string_view(m), i, part); return ok; }
static int begins(const std::string& m, std::string_view part) { return matchAt(std::string_view(m), 0, part); }
// all the forms of an assertion that take an actual value and an expectation
template <bool NP, class A, class E> static Outcome form(unsigned long w, const A& a, const E& e) {
  SourceCodeLocation loc("Here.cpp:12");
  return outcome([&] {
    if constexpr (NP) switch (w) { case 0: T::assertThatNP(a, e); break; case 1: T::assertThatNP("the reason", a, e); break; case 2: T::assertThatNP(loc, a, e); break; default: T::assertThatNP(loc, "the reason", a, e); }
    else switch (w) { case 0: T::assertThat(a, e); break; case 1: T::assertThat("the reason", a, e); break; case 2: T::assertThat(loc, a, e); break; default: T::assertThat(loc, "the reason", a, e); } }); }
static void checkMessage(const Outcome& o, unsigned long w) {
  if (o.passed) return; vp_assert(begins(o.message, w == 0 ? "Assertion - \n" : w == 1 ? "Assertion - the reason\n" : w == 2 ? "Assertion - Here.cpp:12 -" : "Assertion - Here.cpp:12 - the reason\n"), "the failure message states the location and the supplied text"); }
template <class V> static void comparisons(const char* nm) {
  V a, e; vp_symbolic(&a, sizeof a, "actual"); vp_symbolic(&e, sizeof e, "expected"); unsigned long w = vp_choose(4, "form"), m = vp_choose(6, "matcher"); Outcome o; int want = 0; const char* what = "";
  switch (m) {
    case 0: o = form<true>(w, a, T::is(e)); want = a == e; what = "is holds exactly for equal values"; break;
    case 1: o = form<true>(w, a, T::isNot(e)); want = a != e; what = "isNot holds exactly for different values"; break;
    case 2: o = form<true>(w, a, T::isGreaterThan(e)); want = a > e; what = "isGreaterThan holds exactly for greater values"; break;
    case 3: o = form<true>(w, a, T::isGreaterThanOrEqualTo(e)); want = a >= e; what = "isGreaterThanOrEqualTo holds exactly for values that are not less"; break;
    case 4: o = form<true>(w, a, T::isLessThan(e)); want = a < e; what = "isLessThan holds exactly for lesser values"; break;
    default: o = form<true>(w, a, T::isLessThanOrEqualTo(e)); want = a <= e; what = "isLessThanOrEqualTo holds exactly for values that are not greater"; }
  vp_assert(o.passed == want, what); checkMessage(o, w); vp_observe("passed", o.passed); vp_reach(o.passed ? "passed" : "failed"); if (a == e) vp_reach("equal"); }
extern "C" void assert_compare() { switch (vp_choose(4, "type")) { case 0: comparisons<int>("int"); break; case 1: comparisons<unsigned long long>("unsigned long long"); break; case 2: comparisons<long long>("long long"); break; default: comparisons<unsigned char>("unsigned char"); } }
// |actual - expected| <= delta, for deltas that do not overflow the type at either end
template <class V> static void almost() {
  V a, e, d; vp_symbolic(&a, sizeof a, "actual"); vp_symbolic(&e, sizeof e, "expected"); vp_symbolic(&d, sizeof d, "delta"); vp_assume(d >= 0); if constexpr (std::is_signed_v<V>) { __int128 lo = (__int128)e - d, hi = (__int128)e + d; vp_assume((lo >= std::numeric_limits<V>::min()) & (hi <= std::numeric_limits<V>::max())); }
  __int128 x = (__int128)a - (__int128)e; int want = (x <= (__int128)d) & (-x <= (__int128)d); auto o = form<true>(sizeof(V) == 4 ? 1 : 3, a, T::isAlmostEqual(e, d));
  vp_assert(o.passed == want, "isAlmostEqual holds exactly for values within the stated distance"); vp_observe("passed", o.passed); vp_reach(o.passed ? "passed" : "failed"); if (o.passed && !(a == e)) vp_reach("near"); }
extern "C" void assert_almost() { switch (vp_choose(4, "type")) { case 0: almost<int>(); break; case 1: almost<long long>(); break; case 2: almost<unsigned>(); break; default: almost<unsigned long long>(); } }
// text matchers, with and without the rendering of the values
template <class S> static void textMatchers(const S& a, const S& e) {
  size_t n = a.size(), k = e.size(); int st = n >= k && matchAt(a, 0, e), en = n >= k && matchAt(a, n - k, e), in = 0; for (size_t i = 0; i + k <= n; i++) in |= matchAt(a, i, e);
  unsigned long w = vp_choose(4, "form"); Outcome o; int want; const char* what;
  switch (vp_choose(6, "matcher")) {
    case 0: o = form<true>(w, a, T::startsWith(e)); want = st; what = "startsWith holds exactly for texts that start with the expected text"; break;
    case 1: o = form<true>(w, a, T::endsWith(e)); want = en; what = "endsWith holds exactly for texts that end with the expected text"; break;
    case 2: o = form<true>(w, a, T::contains(e)); want = in; what = "contains holds exactly for texts that contain the expected text"; break;
    case 3: o = form<true>(w, a, T::doesNotContain(e)); want = !in; what = "doesNotContain holds exactly for texts that do not contain the expected text"; break;
    case 4: o = form<true>(w, a, T::is(e)); want = n == k && st; what = "is holds exactly for equal texts"; break;
    default: o = form<true>(w, a, T::isNot(e)); want = !(n == k && st); what = "isNot holds exactly for different texts"; }
  vp_assert(o.passed == want, what); checkMessage(o, w); vp_observe("passed", o.passed); vp_reach(o.passed ? "passed" : "failed"); if (in && !st && !en) vp_reach("in the middle"); if (k > n) vp_reach("longer expectation"); if (!k) vp_reach("empty expectation"); }
extern "C" void assert_text() { size_t n = symLen(AN, "n"), k = symLen(2, "k"); SymBytes a(n, "actual"), e(k, "expected"); textMatchers(a.str(), e.str()); }
extern "C" void assert_text_wide() { size_t n = symLen(AN, "n"), k = symLen(2, "k"); SymU32 a(n, "actual"), e(k, "expected"); if (vp_choose(2, "encoding")) textMatchers(std::u32string(a.view()), std::u32string(e.view())); else { std::u16string x, y; for (size_t i = 0; i < n; i++) x += (char16_t)a.p[i]; for (size_t i = 0; i < k; i++) y += (char16_t)e.p[i]; textMatchers(x, y); } }
// vectors: the elements are compared with their own equality
template <class V, class F> static void vectors(F make) {
  size_t n = symLen(3, "n"), k = symLen(2, "k"); std::vector<V> a, e; for (size_t i = 0; i < n; i++) a.push_back(make("actual")); for (size_t i = 0; i < k; i++) e.push_back(make("expected"));
  int st = n >= k, eq = n == k; for (size_t i = 0; i < n && i < k; i++) { int same = a[i] == e[i]; st &= same; eq &= same; }
  unsigned long m = vp_choose(3, "matcher"), w = vp_choose(4, "form"); auto o = m == 0 ? form<true>(w, a, T::startsWith(e)) : m == 1 ? form<true>(w, a, T::is(e)) : form<true>(w, a, T::isNot(e));
  vp_assert(o.passed == (m == 0 ? st : m == 1 ? eq : !eq), m == 0 ? "startsWith holds exactly for vectors whose first elements equal the expected elements" : m == 1 ? "is holds exactly for equal vectors" : "isNot holds exactly for different vectors");
  checkMessage(o, w); vp_observe("passed", o.passed); vp_reach(o.passed ? "passed" : "failed"); if (m == 0 && o.passed && n > k && k) vp_reach("proper start"); }
struct Padded { char a; int b; bool operator==(const Padded& o) const { return a == o.a && b == o.b; } };
extern "C" void assert_vector() { switch (vp_choose(3, "element")) {
  case 0: vectors<int>([](const char* n) { return vp_value<int>(n); }); break;
  case 1: vectors<std::string>([](const char* n) { SymBytes s(1, n); return s.str(); }); break;
  default: vectors<Padded>([](const char* n) { Padded p; static char fill = 0; memset(&p, ++fill, sizeof p); p.a = vp_value<char>(n); p.b = vp_value<int>(n); return p; }); } }
extern "C" void assert_pointer() { int x = 7; bool null = vp_choose(2, "null"); int* p = null ? nullptr : &x; auto o = form<true>(vp_choose(4, "form"), p, T::isNotNull()); vp_assert(o.passed == !null, "isNotNull holds exactly for pointers that are not null"); vp_reach(null ? "null" : "not null"); }
struct Base { virtual ~Base() {} }; struct Left : Base {}; struct Right : Base {}; struct Leaf : Left {};
extern "C" void assert_type() { Left l; Right r; Leaf f; Base b; unsigned long k = vp_choose(4, "object"), w = vp_choose(4, "form"), np = vp_choose(2, "print"); const Base& x = k == 0 ? (const Base&)l : k == 1 ? (const Base&)r : k == 2 ? (const Base&)f : b;
  auto o = np ? form<true>(w, x, T::isA<Left>()) : form<false>(w, x, T::isA<Left>()); vp_assert(o.passed == (k == 0 || k == 2), "isA holds exactly for objects of the type or of a derived type"); checkMessage(o, w); if (!np && !o.passed) vp_assert(has(o.message, "is not a Left"), "a failed isA names the types"); vp_reach(o.passed ? "passed" : "failed"); }
// ------------------------------------------------------------ exceptions
struct Ours : std::runtime_error { int code; Ours(int c) : std::runtime_error("ours"), code(c) {} bool operator==(const Ours& o) const { return code == o.code; } };
static std::string toString(const Ours& o) { return "Ours"; }
struct Derived : Ours { Derived(int c) : Ours(c) {} };
template <class E> static Outcome thrown(unsigned long w, unsigned long k, int code, const E& e) { SourceCodeLocation loc("Here.cpp:12");
  auto f = [=] { if (k == 1) throw Ours(code); if (k == 2) throw Derived(code); if (k == 3) throw std::logic_error("theirs"); };
  return outcome([&] { switch (w) { case 0: T::assertThat(f, e); break; case 1: T::assertThat("the reason", f, e); break; case 2: T::assertThat(loc, f, e); break; default: T::assertThat(loc, "the reason", f, e); } }); }
extern "C" void assert_throws() {
  unsigned long k = vp_choose(4, "thrown"), w = vp_choose(4, "form"), x = vp_choose(4, "expectation"); int c = vp_value<int>("thrown code"), d = vp_value<int>("expected code"); Outcome o; int want = k == 1 || k == 2; const char* what;
  switch (x) {
    case 0: o = thrown(w, k, c, T::throws<Ours>()); what = "throws of a type holds exactly when an exception of the type is thrown"; break;
    case 1: { Ours e(d); o = thrown(w, k, c, T::throws(e)); want = want && c == d; what = "throws of an exception holds exactly when an equal exception is thrown"; break; }
    case 2: { o = thrown(w, k, c, T::throws<Ours>([d](const Ours& e) { return e.code > d; })); want = want && c > d; what = "throws of a predicate holds exactly when an exception that satisfies it is thrown"; break; }
    default: { Ours e(d); o = thrown(w, k, c, T::throws(e, [](const Ours& actual, const Ours& expected) { return actual.code <= expected.code; })); want = want && c <= d; what = "throws of a comparison holds exactly when it accepts the thrown and the expected exceptions"; } }
  vp_assert(o.passed == want, what); checkMessage(o, w); if (k == 0) vp_assert(has(o.message, "not thrown"), "the message states that no exception was thrown"); if (k == 3) vp_assert(has(o.message, "different standard exception was thrown: theirs"), "the message names the exception that was thrown"); vp_observe("passed", o.passed); vp_reach(o.passed ? "passed" : "failed"); if (k == 2 && o.passed) vp_reach("derived"); if (k == 1 && !o.passed) vp_reach("wrong state"); }
// Balau exceptions compare by type and message
extern "C" void assert_throws_balau() { SymBytes a(1, "thrown text"), b(1, "expected text"); std::string x = a.str(), y = b.str(); unsigned long k = vp_choose(2, "thrown type"); using namespace Balau::Exception; IllegalStateException e("", y);
  auto o = outcome([&] { T::assertThat([&] { if (k) throw IllegalStateException("", x); throw IllegalArgumentException("", x); }, T::throws(e)); }); vp_assert(o.passed == (k && x == y), "an expected Balau exception is matched exactly by the same type with the same message"); vp_reach(o.passed ? "passed" : "failed"); if (k && !o.passed) vp_reach("other text"); }
extern "C" void assert_fail() { SymBytes t(2, "text"); std::string s = t.str(); unsigned long w = vp_choose(3, "form"); auto o = outcome([&] { if (w == 0) T::assertFail(); else if (w == 1) T::assertFail(s); else T::assertFail(SourceCodeLocation("Here.cpp:12"), s); }); vp_assert(!o.passed, "assertFail always fails"); if (w) vp_assert(sameText(o.message, (w == 1 ? std::string("Assertion - ") : std::string("Assertion - Here.cpp:12 - ")) + s + "\n"), "assertFail states the text and the location"); vp_reach("failed"); }
// ------------------------------------------------------------ rendering
// a failed assertion shows both values: single lines side by side, several lines one by one with == or != between them
static std::string shown(std::string_view l) { std::string o; for (char c : l) if (c == ' ') o += "·"; else if (c == '\t') { o += "··⇢·"; } else o += c; return o; }
extern "C" void assert_render() { size_t n = symLen(AN, "n"), k = symLen(AN, "k"); SymBytes a(n, "actual"), e(k, "expected"); allOf(a, "a\nb "); allOf(e, "a\nb "); std::string x = a.str(), y = e.str(); unsigned long w = vp_choose(2, "form");
  auto o = w ? form<false>(1, x, T::is(y)) : form<false>(0, x, T::is(y)); vp_assert(o.passed == (x == y), "is holds exactly for equal texts"); if (o.passed) { vp_reach("passed"); return; }
  auto lines = [](const std::string& s) { std::vector<std::string> v; std::string l; bool open = false; for (char c : s) if (c == '\n') { v.push_back(l); l.clear(); open = false; } else { l += c; open = true; } if (open) v.push_back(l); return v; };
  auto lx = lines(x), ly = lines(y); std::string r = o.message.substr(std::string(w ? "Assertion - the reason\n" : "Assertion - \n").size());
  if (lx.size() == 1 && ly.size() == 1) { vp_assert(sameText(r, shown(lx[0]) + "  !=  " + shown(ly[0])), "a failed assertion on single lines shows the two lines"); vp_reach("single lines"); return; }
  std::vector<std::string> rows = lines(r); size_t at = 2, most = std::max(lx.size(), ly.size()); vp_assert(rows.size() >= at + most, "a failed assertion shows every line");
  for (size_t i = 0; i < most; i++) { bool both = i < lx.size() && i < ly.size(); bool eq = both && lx[i] == ly[i]; std::string& row = rows[at + i]; vp_assert(has(row, eq ? "  ==  " : "  !=  ") && !has(row, eq ? "!=" : "=="), "each row of a failed assertion states whether its lines are equal"); if (i < lx.size()) vp_assert(matchAt(std::string_view(row), 3, std::string_view(shown(lx[i]))), "each row shows the actual line"); if (i < ly.size() && row.size() >= shown(ly[i]).size()) vp_assert(matchAt(std::string_view(row), row.size() - shown(ly[i]).size(), std::string_view(shown(ly[i]))), "each row shows the expected line"); }
  vp_observe("rows", rows.size()); if (lx.size() > ly.size()) vp_reach("more actual lines"); if (lx.size() < ly.size()) vp_reach("more expected lines"); if (x.empty()) vp_reach("empty actual"); if (y.empty()) vp_reach("empty expected"); }
extern "C" void assert_render_container() { size_t n = symLen(2, "n"), k = symLen(2, "k"); std::vector<int> a, e; for (size_t i = 0; i < n; i++) a.push_back((int)vp_choose(3, "actual")); for (size_t i = 0; i < k; i++) e.push_back((int)vp_choose(3, "expected"));
  Outcome o; unsigned long c = vp_choose(2, "container"); if (c) o = form<false>(0, a, T::is(e)); else o = form<false>(0, std::list<int>(a.begin(), a.end()), T::is(std::list<int>(e.begin(), e.end()))); vp_assert(o.passed == (a == e), "is holds exactly for equal containers"); if (o.passed) { vp_reach("passed"); return; }
  std::vector<std::string> rows; std::string l; for (char ch : o.message) if (ch == '\n') { rows.push_back(l); l.clear(); } else l += ch; vp_assert(rows.size() >= 2 + std::max(n, k), "a failed assertion on containers shows every element");
  for (size_t i = 0; i < std::max(n, k); i++) vp_assert(has(rows[2 + i], i < n && i < k && a[i] == e[i] ? "==" : "!="), "each row states whether the elements are equal"); vp_reach("rendered"); }
