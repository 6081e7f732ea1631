// Scope guards, container and vector helpers, hexadecimal printing.
#include "common.hpp"
#include <algorithm>
#include <functional>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <iomanip>
#include <Balau/Type/OnScopeExit.hpp>
#include <Balau/Type/MovableOnScopeExit.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Util/Containers.hpp>
#include <Balau/Util/Memory.hpp>
#include <Balau/Util/Streams.hpp>
#include <Balau/Util/PrettyPrint.hpp>
using Balau::OnScopeExit; using Balau::MovableOnScopeExit; using Balau::Util::Vectors; using Balau::Util::Containers; using Balau::Util::Memory; using Balau::Util::Streams; using Balau::Util::PrettyPrint;
#ifndef GO
#define GO 3
#endif
#ifndef VN
#define VN 3
#endif
#ifndef HB
#define HB 4
#endif
// ------------------------------------------------------------ scope guards
namespace { std::vector<unsigned> ran; unsigned payload; struct Boom {}; struct Token { std::shared_ptr<int> p = std::make_shared<int>(0); }; }
static void plainFunction() { ran.push_back(9); }
static void sameRuns(const std::vector<unsigned>& want, const char* what) { vp_assert(ran.size() == want.size() && std::equal(ran.begin(), ran.end(), want.begin()), what); }
extern "C" void guard_scope() {
  std::vector<unsigned> want; unsigned n = symLen(GO, "operations"); unsigned next = 1, armed = 0; bool leaveByException = vp_choose(2, "exception"); unsigned value = vp_value<unsigned>("value"); ran.clear(); payload = 0; long live = 0; (void)live; Token token; std::weak_ptr<int> watch = token.p;
  try {
    OnScopeExit guard([&, t = token] { ran.push_back(0); payload = value; }); armed = 0; bool set = true;
    for (unsigned i = 0; i < n; i++) { switch (vp_choose(3, "operation")) {
      case 0: guard.clear(); set = false; break;
      case 1: { unsigned id = next++; guard.rest([id, &value] { ran.push_back(id); payload = value + id; }); armed = id; set = true; break; }
      default: guard.executeNow(); if (set) { want.push_back(armed); vp_assert(payload == value + armed, "the function of a guard sees what it captured"); } set = false; break; }
      sameRuns(want, "a guard runs its function when told to and at no other time before the end of the scope"); }
    if (set) { want.push_back(armed); vp_reach("ran at the end"); } else vp_reach("nothing left to run");
    if (leaveByException) throw Boom();
  } catch (const Boom&) { vp_reach("left by an exception"); }
  sameRuns(want, "a guard runs the function it holds exactly once, at the end of the scope, however the scope is left");
  if (!want.empty()) vp_assert(payload == value + want.back(), "the function of a guard sees what it captured");
  vp_assert(token.p.use_count() == 1, "a guard releases what its function holds");
}
static MovableOnScopeExit makeGuard(unsigned form, unsigned value, const Token& token) {
  if (form == 0) return MovableOnScopeExit([value, token] { ran.push_back(9); payload = value; });
  if (form == 1) return MovableOnScopeExit(std::function<void ()>([value, token] { ran.push_back(9); payload = value; }));
  return MovableOnScopeExit(&plainFunction);
}
extern "C" void guard_movable() {
  std::vector<unsigned> want; unsigned form = vp_choose(3, "form"), n = symLen(GO, "operations"); unsigned value = vp_value<unsigned>("value"); ran.clear(); payload = 0; bool leaveByException = vp_choose(2, "exception"); Token token; bool set = true; bool moved = false;
  try {
    std::unique_ptr<MovableOnScopeExit> outer;
    try {
      MovableOnScopeExit inner = makeGuard(form, value, token); sameRuns(want, "returning a guard does not run its function");
      MovableOnScopeExit* at = &inner; std::vector<std::unique_ptr<MovableOnScopeExit>> owners;
      for (unsigned i = 0; i < n; i++) { switch (vp_choose(3, "operation")) {
        case 0: at->clear(); set = false; break;
        case 1: at->executeNow(); if (set) want.push_back(9); set = false; break;
        default: owners.push_back(std::make_unique<MovableOnScopeExit>(std::move(*at))); at = owners.back().get(); vp_reach("moved"); break; }
        sameRuns(want, "a movable guard runs its function when told to and at no other time before the end of the scope"); }
      if (vp_choose(2, "moved out")) { outer = std::make_unique<MovableOnScopeExit>(std::move(*at)); moved = true; }
      else if (set) want.push_back(9);
      if (leaveByException) throw Boom();
    } catch (const Boom&) { vp_reach("left by an exception"); }
    sameRuns(want, "a movable guard that was moved out does not run its function at the end of the inner scope, and one that was not does");
    if (moved && set) { want.push_back(9); vp_reach("ran at the end of the outer scope"); }
  } catch (...) { vp_fail("no exception leaves a guard"); }
  sameRuns(want, "a movable guard runs its function exactly once, at the end of the scope that owns it");
  if (!want.empty() && form != 2) vp_assert(payload == value, "the function of a guard sees what it captured");
  vp_assert(token.p.use_count() == 1, "a guard releases what its function holds");
}
// ------------------------------------------------------------ vectors and containers
struct Item { int key, value; bool operator==(const Item& o) const { return key == o.key && value == o.value; } };
static bool sameItems(const std::vector<int>& a, const std::vector<int>& b) { int ok = a.size() == b.size(); for (size_t i = 0; ok && i < a.size(); i++) ok &= a[i] == b[i]; return ok; }
static std::vector<int> symInts(size_t n, const char* name) { std::vector<int> v(n); for (auto& x : v) vp_symbolic(&x, 4, name); return v; }
extern "C" void vec_replace() {
  size_t n = symLen(VN, "n"); std::vector<Item> v(n); for (auto& i : v) { vp_symbolic(&i.key, 4, "key"); vp_symbolic(&i.value, 4, "value"); } Item e; vp_symbolic(&e.key, 4, "key of the element"); vp_symbolic(&e.value, 4, "value of the element");
  auto byKey = [](const Item& a, const Item& b) { return a.key == b.key; }; std::vector<Item> got = v, want = v; size_t at = n; for (size_t i = 0; i < n; i++) if (v[i].key == e.key) { at = i; break; }
  if (at == n) { want.push_back(e); vp_reach("appended"); } else { want[at] = e; vp_reach("replaced"); }
  if (vp_choose(2, "custom replacement")) { Vectors::pushBackOrReplace(got, e, byKey, [](Item& l, const Item& r) { l.value += r.value; }); if (at != n) { want[at] = v[at]; want[at].value = (int)((unsigned)v[at].value + (unsigned)e.value); } }
  else Vectors::pushBackOrReplace(got, e, byKey);
  vp_assert(got.size() == want.size(), "pushBackOrReplace appends only when no element matches"); int ok = 1; for (size_t i = 0; i < want.size() && i < got.size(); i++) ok &= got[i] == want[i];
  vp_assert(ok, "pushBackOrReplace changes the first matching element and nothing else");
  std::vector<int> plain = symInts(n, "x"), expect = plain; int x = vp_value<int>("y"); bool in = false; for (int p : plain) if (p == x) in = true; if (!in) expect.push_back(x); Vectors::pushBackOrReplace(plain, x); vp_assert(sameItems(plain, expect), "pushBackOrReplace with the default comparison");
}
extern "C" void vec_append() {
  auto a = symInts(symLen(VN, "n"), "a"), b = symInts(symLen(VN, "m"), "b"), c = symInts(symLen(1, "k"), "c"); auto ab = a; ab.insert(ab.end(), b.begin(), b.end()); auto abc = ab; abc.insert(abc.end(), c.begin(), c.end());
  auto d = a; Vectors::append(d, b); vp_assert(sameItems(d, ab), "append adds the elements of the source, in order, after those of the destination");
  auto m = a; Vectors::move(m, std::vector<int>(b)); vp_assert(sameItems(m, ab), "move adds the elements of the source, in order, after those of the destination");
  auto e = a; Containers::append(e, b); vp_assert(sameItems(e, ab), "append of one container"); auto f = a; Containers::append(f, b, std::list<int>(c.begin(), c.end())); vp_assert(sameItems(f, abc), "append of several containers");
  vp_assert(sameItems(Containers::concatenate(a, b, c), abc), "concatenate gives the elements of every container, in order");
  vp_assert(sameItems(Containers::concatenate(a), a), "concatenate of one container is a copy");
  std::list<int> l(b.begin(), b.end()); auto al = Containers::concatenate(l, a); vp_assert(al.size() == a.size() + b.size() && std::equal(b.begin(), b.end(), al.begin()) && std::equal(a.begin(), a.end(), std::next(al.begin(), (long)b.size())), "concatenate of containers of different types");
  std::function<int(const int&)> f2 = [](const int& x) { return (int)(x ^ 0x55); }; auto mapped = Vectors::map(a, f2); auto mapped2 = Containers::map(a, f2); vp_assert(mapped.size() == a.size() && sameItems(mapped, mapped2), "map gives one element for each"); int ok = 1; for (size_t i = 0; i < a.size() && i < mapped.size(); i++) ok &= mapped[i] == (a[i] ^ 0x55); vp_assert(ok, "map applies the function to each element, in order");
  if (a.size() == VN && b.size() == VN) vp_reach("both full");
}
extern "C" void vec_contains() {
  auto a = symInts(symLen(VN, "n"), "a"), b = symInts(symLen(2, "m"), "b"); int x = vp_value<int>("x"); int in = 0, any = 0; for (int y : a) { in |= x == y; for (int z : b) any |= z == y; }
  vp_assert(Containers::contains(a, x) == (bool)in, "contains is true exactly when the value is an element"); vp_assert(Containers::contains(a, b) == (bool)any, "contains of several values is true exactly when one of them is an element");
  vp_assert(Containers::contains(std::list<int>(a.begin(), a.end()), x) == (bool)in, "contains in a list");
  std::vector<std::string> texts; int found = 0; char c = vp_value<char>("c"); std::string probe(1, c); for (int y : a) { texts.push_back(std::string(1, (char)y)); found |= (char)y == c; }
  vp_assert(Containers::contains(texts, probe) == (bool)found, "contains of a string in a container of strings"); vp_assert(Containers::contains(texts, std::vector<std::string> { probe }) == (bool)found, "contains of several strings");
  if (in) vp_reach("present"); else vp_reach("absent");
}
extern "C" void vec_text() {
  size_t n = symLen(VN, "n"); SymBytes s(n, "text"); std::string text = s.str(); auto chars = Vectors::toCharVector(text); vp_assert(sameText(std::string_view(chars.data(), chars.size()), text), "toCharVector keeps every byte"); vp_assert(sameText(Vectors::charsToString(chars), text), "charsToString undoes toCharVector");
  SymU32 u(n, "code points"); std::u32string text32(u.view()); auto chars32 = Vectors::toCharVector(text32); vp_assert(chars32.size() == n && sameText(Vectors::charsToString(chars32), text32), "the 32 bit forms keep every unit");
  std::vector<char16_t> w(n); for (auto& x : w) vp_symbolic(&x, 2, "unit"); auto w16 = Vectors::charsToString(w); int ok = w16.size() == n; for (size_t i = 0; ok && i < n; i++) ok &= w16[i] == w[i]; vp_assert(ok, "the 16 bit form keeps every unit");
  std::vector<std::string> strings; for (size_t i = 0; i < n; i++) strings.push_back(std::string(1, s.p[i])); auto again = Vectors::toStringVector(strings); int same = again.size() == n; for (size_t i = 0; same && i < n; i++) same &= sameText(again[i], strings[i]); vp_assert(same, "toStringVector gives the text of each element, in order");
  if (n == VN) vp_reach("full");
}
extern "C" void vec_push() {
  int a = vp_value<int>("a"), b = vp_value<int>("b"), c = vp_value<int>("c"), z = vp_value<int>("z"); std::vector<int> v { z };
  Vectors::pushBack<int>(v, std::move(a), std::move(b), std::move(c)); vp_assert(sameItems(v, { z, a, b, c }), "pushBack adds its arguments in order");
  vp_assert(sameItems(Vectors::pushBack<int>(std::move(a), std::move(b)), { a, b }), "pushBack creates a vector of its arguments, in order"); vp_assert(Vectors::pushBack<int>().empty(), "pushBack without arguments creates an empty vector");
  auto twice = [](const int& x) { return std::make_unique<int>((int)(x ^ 7)); }; auto u = Memory::makeUnique<int>(twice, a, b, c); vp_assert(u.size() == 3 && *u[0] == (a ^ 7) && *u[1] == (b ^ 7) && *u[2] == (c ^ 7), "makeUnique transforms each argument, in order"); vp_assert(Memory::makeUnique<int>(twice).empty(), "makeUnique without arguments");
  auto sh = [](const int& x) { return std::make_shared<int>((int)(x ^ 7)); }; auto s = Memory::makeShared<int>(sh, a, b); vp_assert(s.size() == 2 && *s[0] == (a ^ 7) && *s[1] == (b ^ 7), "makeShared transforms each argument, in order");
  auto pairOf = [](const int& x) { std::vector<std::unique_ptr<int>> r; r.push_back(std::make_unique<int>(x)); r.push_back(std::make_unique<int>((int)(x ^ 1))); return r; }; auto uv = Memory::makeUniqueV<int>(pairOf, a, b); vp_assert(uv.size() == 4 && *uv[0] == a && *uv[1] == (a ^ 1) && *uv[2] == b && *uv[3] == (b ^ 1), "makeUniqueV gives the elements for each argument, in order");
  auto pairSh = [](const int& x) { return std::vector<std::shared_ptr<int>> { std::make_shared<int>(x), std::make_shared<int>((int)(x ^ 1)) }; }; auto sv = Memory::makeSharedV<int>(pairSh, a, b); vp_assert(sv.size() == 4 && *sv[0] == a && *sv[1] == (a ^ 1) && *sv[2] == b && *sv[3] == (b ^ 1), "makeSharedV gives the elements for each argument, in order");
  vp_reach("done");
}
extern "C" void vec_streams() {
  size_t n = symLen(VN + 1, "n"); SymBytes s(n, "text"); allOf(s, "ab\n"); std::string text = s.str();
  { std::istringstream in(text); vp_assert(sameText(toString(static_cast<std::istream&>(in)), text), "the text of a stream is all of its bytes"); }
  { std::istringstream in(text); std::ostringstream out; out << "x"; Streams::consume(out, in); vp_assert(sameText(out.str(), "x" + text), "consume copies every byte of the source"); }
  std::vector<std::string> want; std::string line; for (size_t i = 0; i < n; i++) if (text[i] == '\n') { want.push_back(line); line.clear(); } else line += text[i]; if (!line.empty()) want.push_back(line);
  std::istringstream in(text); auto got = Streams::readLinesToVector(in); int ok = got.size() == want.size(); for (size_t i = 0; ok && i < want.size(); i++) ok &= sameText(got[i], want[i]); vp_assert(ok, "readLinesToVector gives every line, in order, without the line breaks"); if (want.size() > 1) vp_reach("several lines");
}
// ------------------------------------------------------------ hexadecimal
static void hexProps(const std::string& got, const unsigned char* b, size_t n, size_t line, size_t group) {
  static const char digits[] = "0123456789abcdef"; std::string want; for (size_t i = 0; i < n; i++) { want += digits[b[i] >> 4]; want += digits[b[i] & 15]; }
  std::string bare; size_t width = 0, widest = 0; std::vector<size_t> runs; size_t run = 0; for (char c : got) { if (c == '\n') { widest = std::max(widest, width); width = 0; } else width++; if (c == '\n' || c == ' ') { if (run) runs.push_back(run); run = 0; } else { bare += c; run++; } } widest = std::max(widest, width); if (run) runs.push_back(run);
  vp_assert(sameText(bare, want), "printHexBytes writes two digits for each byte, in order");
  if (line == 0) vp_assert(got.find('\n') == std::string::npos, "printHexBytes writes a single line when no line length is given");
  if (line >= 2 && line >= 2 * group) { vp_assert(widest <= line, "printHexBytes keeps within the line length"); vp_reach("several lines"); }
  if (group == 0) vp_assert(got.find(' ') == std::string::npos, "printHexBytes writes no groups when no group size is given");
  else if (line >= 2 * group) { int ok = 1; for (size_t i = 0; i + 1 < runs.size(); i++) ok &= runs[i] == 2 * group; if (!runs.empty()) ok &= runs.back() <= 2 * group; vp_assert(ok, "printHexBytes separates the groups"); vp_reach("groups"); }
}
extern "C" void hex_bytes() { size_t n = symLen(HB, "n"), line = std::array<size_t, 6>{0, 1, 4, 5, 7, 8}[vp_choose(6, "line length")], group = vp_choose(4, "group size"); SymBytes s(n, "bytes"); hexProps(PrettyPrint::printHexBytes((const char*)s.p, n, line, group), (const unsigned char*)s.p, n, line, group); if (line == 0 && group == 0) hexProps(PrettyPrint::printHexBytes((const char*)s.p, n), (const unsigned char*)s.p, n, 0, 0); }
extern "C" void hex_value() { unsigned v = vp_value<unsigned>("value"); hexProps(PrettyPrint::printHexBytes(v), (const unsigned char*)&v, 4, 0, 0); hexProps(PrettyPrint::printHexBytes(v, 5, 2), (const unsigned char*)&v, 4, 5, 2); vp_reach("done"); }
