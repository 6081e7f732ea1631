// Environment configuration: values, type specifications and defaults from texts and code become bindings.
#include "common.hpp"
#include "scratch.hpp"
#include <Balau/Type/FromString.hpp>
#include <Balau/Type/ToString.hpp>
#include <Balau/Resource/ByteReadResource.hpp>
#include <Balau/Resource/ByteWriteResource.hpp>
#include <Balau/Resource/Utf8To32ReadResource.hpp>
#include <Balau/Resource/Utf32To8WriteResource.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <Balau/Application/EnvironmentProperties.hpp>
#include <functional>
#include <map>
#include <memory>
using namespace Balau;
using Uris = std::vector<std::shared_ptr<Resource::Uri>>;
using Spec = Impl::PropertyBindingBuilderFactoryPtr;
using UriP = std::unique_ptr<Resource::Uri>;
static std::shared_ptr<Resource::Uri> text(const std::string& s) { return std::make_shared<Resource::StringUri>(s); }
// a configuration whose hard wired specifications are a function of the configuration itself
struct Env : EnvironmentConfiguration { std::function<void(const Env&)> f; bool late = true;
  template <class... A> explicit Env(std::function<void(const Env&)> g, A&&... a) : EnvironmentConfiguration(std::forward<A>(a)...), f(std::move(g)) {}
  void configure() const override { if (f && late) f(*this); }
  void early() { late = false; if (f) f(*this); }
  template <class V> Spec val(std::string n) const { return value<V>(n); } template <class V> Spec val(std::string n, V d) const { return value<V>(n, d); }
  template <class B, class... A> Spec uni(std::string n, A&&... a) const { return unique<B>(n, std::forward<A>(a)...); } template <class... A> Spec grp(std::string n, A... a) const { return group(n, a...); } };
template <class F> static int missing(F f) { try { f(); } catch (const Exception::NoBindingException&) { return 1; } return 0; }
template <class F> static int raises(F f) { try { f(); } catch (const std::exception&) { return 1; } return 0; }
template <class F> static int refuses(F f) { try { f(); } catch (const Exception::EnvironmentConfigurationException&) { return 1; } return 0; }
// the properties at some depth: those of the injector or of a composite property
struct At { std::shared_ptr<Injector> in; std::shared_ptr<EnvironmentProperties> ep;
  template <class T> T get(std::string_view n) const { return in ? in->getValue<T>(n) : ep->getValue<T>(n); }
  template <class T> T getOr(std::string_view n, const T& d) const { return in ? in->getValue<T>(n, d) : ep->getValue<T>(n, d); }
  int hasComposite(std::string_view n) const { return in ? !missing([&] { in->getShared<EnvironmentProperties>(n); }) : ep->hasComposite(n); }
  At down(std::string_view n) const { return At { nullptr, in ? in->getShared<EnvironmentProperties>(n) : ep->getComposite(n) }; } };
template <class T> static void absent(const At& at, std::string_view n, const T& other) { vp_assert(missing([&] { at.get<T>(n); }), "a property that is not there, or has another type, is not found"); vp_assert(at.getOr<T>(n, other) == other, "the default of the caller is used for it"); if (at.ep) vp_assert(!at.ep->hasValue<T>(n), "and it is not listed"); }
template <class T> static void present(const At& at, std::string_view n, const T& v, const T& other) { vp_assert(!missing([&] { vp_assert(at.get<T>(n) == v, "a property has the value of the last source, or its default"); }), "a property is found with the type of its last specification"); vp_assert(at.getOr<T>(n, other) == v, "and the default of the caller is not used"); if (at.ep) vp_assert(at.ep->hasValue<T>(n), "and it is listed"); }
static std::string nested(unsigned depth, const std::string& line) { return depth == 0 ? line + "\n" : depth == 1 ? "g {\n " + line + "\n}\n" : "g {\n h {\n " + line + "\n }\n}\n"; }
static At reach(const At& top, unsigned depth) { return depth == 0 ? top : depth == 1 ? top.down("g") : top.down("g").down("h"); }

extern "C" void env_merge() {
  unsigned depth = vp_choose(3, "depth"); char d1 = vp_value<char>("first"), d2 = vp_value<char>("second"); vp_assume(d1 >= '1' && d1 <= '9'); vp_assume(d2 >= '1' && d2 <= '9');
  int has1 = vp_choose(2, "in the first input"), has2 = vp_choose(2, "in the second input"), sib = vp_choose(2, "sibling");
  unsigned s1 = vp_choose(4, "first specifications"), s2 = vp_choose(3, "second specifications"), h = vp_choose(4, "hard wired");
  std::string in1 = (has1 ? nested(depth, std::string("a = ") + d1) : std::string()) + "z = y\n", in2 = has2 ? nested(depth, std::string("a = ") + d2) : std::string("# nothing\n");
  if (sib) in1 = has1 ? nested(depth, std::string("a = ") + d1 + "\nb = q") + "z = y\n" : nested(depth, "b = q") + "z = y\n";
  static const char* S1[] = { "k : int = 1", "a : int", "a : int = 3", "a : string = 4" }; static const char* S2[] = { "k : int = 1", "a : int = 5", "a : string" };
  Uris specs { text(nested(depth, S1[s1])) , text(nested(depth, S2[s2])) };
  Env conf([&](const Env& e) { if (!h) return; Spec s = h == 1 ? e.val<int>("a") : h == 2 ? e.val<int>("a", 6) : e.val<std::string>("a", "7"); if (depth == 1) e.grp("g", s); else if (depth == 2) e.grp("g", e.grp("h", s)); }, Uris { text(in1), text(in2) }, specs);
  // what the sources say: the last value, the last specification
  int isInt = h ? h < 3 : s2 ? s2 == 1 : s1 ? s1 < 3 : 0; int dflt = h ? (h == 1 ? 0 : h == 2 ? 6 : 7) : s2 ? (s2 == 1 ? 5 : 0) : s1 ? (s1 == 1 ? 0 : s1 == 2 ? 3 : 4) : 0; int given = has1 || has2; char d = has2 ? d2 : d1; int there = given || dflt;
  auto inj = Injector::create(conf); At top { inj, nullptr }; vp_assert(inj->getValue<std::string>("z") == "y", "a property without specification is a text");
  // k is a defaulted property of the same composite, so that the composite is there in these cases
  int composite = given || dflt || sib || !s1 || !s2; if (depth && !composite) { vp_assert(!top.hasComposite("g"), "a composite property without any property is not there"); vp_reach("no composite"); return; }
  At at = reach(top, depth);
  if (!s1 || !s2) present<int>(at, "k", 1, 2);
  if (sib) present<std::string>(at, "b", "q", "other");
  if (there && isInt) { present<int>(at, "a", given ? d - '0' : dflt, 99); absent<std::string>(at, "a", "other"); vp_reach(given ? "number" : "default number"); }
  else if (there) { present<std::string>(at, "a", given ? std::string(1, d) : std::string(1, (char)('0' + dflt)), "other"); absent<int>(at, "a", 99); vp_reach(given ? "text" : "default text"); }
  else { absent<int>(at, "a", 99); absent<std::string>(at, "a", "other"); vp_reach("absent"); }
  absent<long long>(at, "a", 98);
}
// several composite properties with properties of the same name
extern "C" void env_hierarchy() {
  static const char* OPEN[] = { "", "e {\n", "g {\n", "g {\n h {\n" }; static const char* CLOSE[] = { "", "}\n", "}\n", " }\n}\n" }; unsigned st[4]; char c[4]; std::string in, spec; bool fileSpec = vp_choose(2, "specifications in a text");
  for (int i = 0; i < 4; i++) { st[i] = vp_choose(3, "given, default or none"); c[i] = vp_value<char>("value"); vp_assume(c[i] >= 'a' && c[i] <= 'c'); }
  // the two nested properties of g are given together, as one composite property
  if (!st[0]) in += std::string("a = ") + c[0] + "\n"; if (!st[1]) in += std::string("e {\n a = ") + c[1] + "\n}\n";
  if (!st[2] || !st[3]) { in += "g {\n"; if (!st[2]) in += std::string(" a = ") + c[2] + "\n"; if (!st[3]) in += std::string(" h {\n  a = ") + c[3] + "\n }\n"; in += "}\n"; }
  auto type = [&](int i) { return st[i] == 2 ? std::string("string") : "string = D" + std::to_string(i); };
  spec = "a : " + type(0) + "\ne {\n a : " + type(1) + "\n}\ng {\n a : " + type(2) + "\n h {\n  a : " + type(3) + "\n }\n}\n";
  Env conf([&](const Env& e) { if (fileSpec) return; auto one = [&](int i) { return st[i] == 2 ? e.val<std::string>("a") : e.val<std::string>("a", "D" + std::to_string(i)); }; one(0); e.grp("e", one(1)); Spec in3 = one(3); e.grp("g", one(2), e.grp("h", in3)); }, Uris { text(in + "# end\n") }, fileSpec ? Uris { text(spec) } : Uris {});
  At top { Injector::create(conf), nullptr }; auto want = [&](int i) { return !st[i] ? std::string(1, c[i]) : "D" + std::to_string(i); }; auto leaf = [&](const At& at, int i) { if (st[i] == 2) absent<std::string>(at, "a", "other"); else present<std::string>(at, "a", want(i), "other"); };
  leaf(top, 0); vp_assert(top.hasComposite("e") == (st[1] != 2), "a composite property is there when it has a property"); if (st[1] != 2) leaf(top.down("e"), 1);
  int g = st[2] != 2 || st[3] != 2; vp_assert(top.hasComposite("g") == g, "a composite property is there when it has a property"); if (g) { At at = top.down("g"); leaf(at, 2); vp_assert(at.hasComposite("h") == (st[3] != 2), "a nested composite property is there when it has a property"); if (st[3] != 2) leaf(at.down("h"), 3); else vp_assert(missing([&] { at.ep->getComposite("h"); }) && !at.ep->getCompositeOrNull("h"), "one that is not there is not found"); vp_reach("composite"); }
  vp_assert(!top.hasComposite("a") && !top.hasComposite("h"), "names of values and of nested properties are not those of composite ones"); vp_reach("done");
}
// the registered types
template <class T> static void number(const std::string& type, int hard, int byDefault, int range, long lo, long hi) {
  int neg = lo < 0 && vp_choose(2, "sign"), n = 1 + vp_choose(range ? 3 : 2, "digits"); std::string t = neg ? "-" : ""; long v = 0; for (int i = 0; i < n; i++) { char d = vp_value<char>("digit"); vp_assume(d >= (i ? '0' : '1') && d <= '9'); t += d; v = v * 10 + (d - '0'); } if (neg) v = -v;
  static const char* SEP[] = { " : ", " = ", " " }; std::string spec = "k" + std::string(SEP[vp_choose(3, "separator")]) + type + (byDefault ? " = " + t : "") + "\n", in = byDefault ? "z = 1\n" : "k = " + t + "\n"; std::shared_ptr<Injector> inj; int ok = v >= lo && v <= hi;
  int bad = raises([&] { inj = hard ? Injector::create(Env([](const Env& e) { e.val<T>("k"); }, in)) : Injector::create(EnvironmentConfiguration(in, spec)); }); vp_assert(bad == !ok, "a number outside its type is refused, any other one is accepted"); if (!ok) { vp_reach("out of range"); return; }
  At top { inj, nullptr }; vp_assert(!missing([&] { vp_assert(top.get<T>("k") == (T)v, "a number has the value of its text"); }), "a property has the type of its specification"); if (type != "int" && type != "hard") absent<int>(top, "k", 99); else absent<short>(top, "k", 99); absent<std::string>(top, "k", "other"); vp_reach("number");
}
extern "C" void env_types() {
  int form = vp_choose(3, "value, default or hard wired"), hard = form == 2, dflt = form == 1; if (!hard) EnvironmentConfiguration::registerUnsignedTypes();
  switch (vp_choose(8, "type")) {
    case 0: number<signed char>("byte", hard, dflt, 1, -128, 127); break;
    case 1: number<short>("short", hard, dflt, 0, -32768, 32767); break;
    case 2: number<int>("int", hard, dflt, 0, INT32_MIN, INT32_MAX); break;
    case 3: number<long long>("long", hard, dflt, 0, INT64_MIN, INT64_MAX); break;
    case 4: number<unsigned char>("unsigned byte", hard, dflt, 1, 0, 255); break;
    case 5: number<unsigned short>("unsigned short", hard, dflt, 0, 0, 65535); break;
    case 6: number<unsigned int>("unsigned int", hard, dflt, 0, 0, UINT32_MAX); break;
    default: number<unsigned long long>("unsigned long", hard, dflt, 0, 0, INT64_MAX); } }
extern "C" void env_texts() {
  int form = vp_choose(3, "value, default or hard wired"), hard = form == 2, dflt = form == 1; auto build = [&](const std::string& type, const std::string& v, std::function<void(const Env&)> h) { std::string spec = "k : " + type + (dflt ? " = " + v : "") + "\n", in = dflt ? "z = 1\n" : "k = " + v + "\n"; return hard ? Injector::create(Env(h, in)) : Injector::create(EnvironmentConfiguration(in, spec)); };
  switch (vp_choose(5, "type")) {
    case 0: { SymBytes v(1 + symLen(2, "length"), "text"); allOf(v, "ab= "); vp_assume(v.p[0] != ' ' && v.p[v.n - 1] != ' '); if (!dflt) vp_assume(v.p[0] != '='); At top { build("string", v.str(), [](const Env& e) { e.val<std::string>("k"); }), nullptr }; present<std::string>(top, "k", v.str(), "other text"); vp_reach("text"); break; }
    case 1: { char c = vp_value<char>("character"); vp_assume(c > '=' && c < 127 && c != '@' && c != '\\' && c != '{' && c != '}'); At top { build("char", std::string(1, c), [](const Env& e) { e.val<char>("k"); }), nullptr }; present<char>(top, "k", c, (char)(c ^ 1)); absent<std::string>(top, "k", "other"); vp_reach("character"); break; }
    case 2: { bool b = vp_choose(2, "truth"); At top { build("boolean", b ? "true" : "false", [](const Env& e) { e.val<bool>("k"); }), nullptr }; present<bool>(top, "k", b, !b); absent<std::string>(top, "k", "other"); vp_reach("boolean"); break; }
    case 3: { bool dbl = vp_choose(2, "double"); auto inj = build(dbl ? "double" : "float", "-2.5", [&](const Env& e) { if (dbl) e.val<double>("k"); else e.val<float>("k"); }); if (dbl) vp_assert(inj->getValue<double>("k") == -2.5, "a number has the value of its text"); else vp_assert(inj->getValue<float>("k") == -2.5f, "a number has the value of its text"); vp_reach("real"); break; }
    default: { auto inj = build("uri", "file:a/b", [](const Env& e) { e.uni<Resource::Uri>("k"); }); UriP a = inj->getUnique<Resource::Uri>("k"), b = inj->getUnique<Resource::Uri>("k"); vp_assert(a && b && a != b, "every request for a unique property gives another object"); vp_assert(a->toRawString() == b->toRawString() && a->toRawString().find("a/b") != std::string::npos, "of the same text"); vp_reach("uri"); } } }
// texts and specifications that are refused
extern "C" void env_refused() {
  unsigned depth = vp_choose(3, "depth"), kind = vp_choose(9, "error"), hard = vp_choose(2, "hard wired"); std::string in = "z = 1\n"; Uris specs; std::function<void(const Env&)> h;
  auto deep = [&](const Env& e, Spec s) { if (depth == 1) e.grp("g", s); else if (depth == 2) e.grp("g", e.grp("h", s)); };
  auto specify = [&](const std::string& s, std::function<Spec(const Env&)> f) { if (hard) h = [=](const Env& e) { deep(e, f(e)); }; else specs.push_back(text(nested(depth, s))); }; int exact = 1, ok = 0;
  switch (kind) {
    case 0: specs.push_back(text(nested(depth, "k : nothing"))); break;
    case 1: specs.push_back(text(nested(depth, vp_choose(2, "no name") ? "k : = 2" : "k :"))); break;
    case 2: specs.push_back(text(nested(depth, "k : int"))); specify("k {\n x : int\n}", [](const Env& e) { return e.grp("k", e.val<int>("x")); }); break;
    case 3: specs.push_back(text(nested(depth, "k {\n x : int\n}"))); specify("k : int", [](const Env& e) { return e.val<int>("k"); }); break;
    case 4: in += nested(depth, "k = 1"); specify("k {\n x : int\n}", [](const Env& e) { return e.grp("k", e.val<int>("x")); }); break;
    case 5: specs.push_back(text(nested(depth, "k : int = a"))); exact = 0; break;
    case 6: in += nested(depth, "k = a"); specify("k : int", [](const Env& e) { return e.val<int>("k"); }); exact = 0; break;
    case 7: in += "k {\n"; exact = 0; break;
    default: in += nested(depth, "k {\n x = 1\n}"); specify("k : int", [](const Env& e) { return e.val<int>("k"); }); ok = 1; }
  std::shared_ptr<Injector> inj; auto run = [&] { Env c(h, Uris { text(in) }, specs); inj = Injector::create(c); };
  if (!ok) { vp_assert(exact ? refuses(run) : raises(run), "an environment configuration that cannot be fulfilled is refused"); vp_reach("refused"); return; }
  vp_assert(!raises(run), "the specification of a value is ignored for a composite property"); At at = reach(At { inj, nullptr }, depth).down("k"); present<std::string>(at, "x", "1", "other"); vp_reach("ignored");
}
// the configuration object is used for two injectors
extern "C" void env_again() {
  unsigned where = vp_choose(3, "in the text, in the code or at construction"), depth = vp_choose(3, "depth"); int given = vp_choose(2, "given"), uri = vp_choose(2, "unique"), dflt = vp_choose(2, "with a default"); std::string v = uri ? "file:x" : "7", d = uri ? "file:d" : "8"; std::string type = uri ? "uri" : "int";
  std::string in = std::string("z = 1\n") + (given ? nested(depth, "k = " + v) : ""), spec = nested(depth, "k : " + type + (dflt ? " = " + d : ""));
  Env conf([=](const Env& e) { if (!where) return; Spec s; if (uri) { UriP p; Impl::PropertyBindingBuilderFactoryPtr t; if (dflt) { fromString(p, d); s = e.uni<Resource::Uri>("k", std::move(p)); } else s = e.uni<Resource::Uri>("k"); } else s = dflt ? e.val<int>("k", 8) : e.val<int>("k"); if (depth == 1) e.grp("g", s); else if (depth == 2) e.grp("g", e.grp("h", s)); }, Uris { text(in) }, where ? Uris {} : Uris { text(spec) });
  if (where == 2) conf.early();
  for (int round = 0; round < 2; round++) { At top { Injector::create(conf), nullptr }; if (!given && !dflt) { if (depth) vp_assert(!top.hasComposite("g"), "nothing is there"); else absent<int>(top, "k", 9); vp_reach("nothing"); continue; }
    At at = reach(top, depth); if (!uri) present<int>(at, "k", given ? 7 : 8, 9); else for (int i = 0; i < 2; i++) { UriP p = at.in ? at.in->getUnique<Resource::Uri>("k") : at.ep->getUnique<Resource::Uri>("k"); vp_assert(p && p->toRawString().back() == (given ? 'x' : 'd'), "every use of a configuration gives the same properties"); }
    if (at.ep && uri) { UriP other; fromString(other, std::string("file:o")); vp_assert(at.ep->getUnique<Resource::Uri>("k", std::move(other))->toRawString().back() != 'o', "the default of the caller is not used"); UriP more; fromString(more, std::string("file:o")); vp_assert(at.ep->getUnique<Resource::Uri>("none", std::move(more))->toRawString().back() == 'o', "the default of the caller is used for a missing unique property"); vp_assert(at.ep->hasUnique<Resource::Uri>("k") && !at.ep->hasUnique<Resource::Uri>("none"), "unique properties are listed"); }
    vp_reach(round ? "second use" : "first use"); }
}
// iteration over the properties of a composite property
extern "C" void env_iterate() {
  static const char* LINES[] = { "i = 4\n", "s = t\n", "u = file:w\n", "c {\n x = 1\n}\n", "j = 5\n" }; int has[5]; std::string in = "g {\n"; for (int i = 0; i < 5; i++) { has[i] = vp_choose(2, "property"); if (has[i]) in += LINES[i]; } in += "}\n";
  auto inj = Injector::create(Env([](const Env& e) { e.grp("g", e.val<int>("i"), e.uni<Resource::Uri>("u"), e.val<int>("j")); }, in)); auto g = inj->getShared<EnvironmentProperties>("g"); const EnvironmentProperties& p = *g; int seen[5] = {}; int n = 0;
  for (auto item : p) { n++; std::string name(item.getName());
    if (name == "i" || name == "j") { int k = name == "i" ? 0 : 4; seen[k]++; vp_assert(item.isValue<int>() && !item.isValue<std::string>() && !item.isUnique<Resource::Uri>() && !item.isComposite() && item.getValue<int>() == (k ? 5 : 4) && item.getValue<int>(9) == (k ? 5 : 4) && item.getValue<std::string>("o") == "o" && missing([&] { item.getValue<short>(); }), "an item is a number"); vp_assert(item.getKey().getName() == name, "an item has the key of its name"); }
    else if (name == "s") { seen[1]++; vp_assert(item.isValue<std::string>() && !item.isValue<int>() && !item.isComposite() && item.getValue<std::string>() == "t" && missing([&] { item.getUnique<Resource::Uri>(); }), "an item is a text"); }
    else if (name == "u") { seen[2]++; UriP d; fromString(d, std::string("file:o")); vp_assert(item.isUnique<Resource::Uri>() && !item.isValue<std::string>() && !item.isComposite() && item.getUnique<Resource::Uri>()->toRawString().back() == 'w' && item.getUnique<Resource::Uri>(std::move(d))->toRawString().back() == 'w', "an item is unique"); }
    else if (name == "c") { seen[3]++; vp_assert(item.isComposite() && !item.isValue<std::string>() && item.getComposite()->getValue<std::string>("x") == "1" && item.getCompositeOrNull() == item.getComposite(), "an item is a composite property"); }
    else vp_fail("an item that was not given"); }
  for (int i = 0; i < 5; i++) vp_assert(seen[i] == has[i], "every property is visited once"); vp_assert(p.empty() == (n == 0), "empty without properties"); vp_reach(n ? "some" : "none");
}
// every form of construction
extern "C" void env_forms() {
  unsigned form = vp_choose(7, "form"); char d = vp_value<char>("digit"); vp_assume(d >= '1' && d <= '9'); std::string in = std::string("k = ") + d + "\n", s1 = "k : int\nm : int = 2\n", s2 = "m : int = 3\n"; Resource::StringUri ui(in), u1(s1), u2(s2); std::shared_ptr<Injector> inj; int typed = 1, second = 0;
  switch (form) {
    case 0: inj = Injector::create(EnvironmentConfiguration(in)); typed = 0; break;
    case 1: inj = Injector::create(EnvironmentConfiguration(ui)); typed = 0; break;
    case 2: inj = Injector::create(EnvironmentConfiguration(in, s1)); break;
    case 3: inj = Injector::create(EnvironmentConfiguration(ui, u1)); break;
    case 4: inj = Injector::create(EnvironmentConfiguration(ui, u1, u2)); second = 1; break;
    case 5: inj = Injector::create(EnvironmentConfiguration(text(in), text(s1), text(s2))); second = 1; break;
    default: inj = Injector::create(EnvironmentConfiguration(Uris { text(in) }, Uris { text(s1), text(s2) })); second = 1; }
  At top { inj, nullptr }; if (!typed) { present<std::string>(top, "k", std::string(1, d), "other"); absent<int>(top, "m", 9); vp_reach("untyped"); } else { present<int>(top, "k", d - '0', 99); present<int>(top, "m", second ? 3 : 2, 99); vp_reach("typed"); }
}
// included files: relative to the including file, or absolute
extern "C" void env_includes() {
  int absolute = vp_choose(2, "absolute"), deep = vp_choose(2, "within a composite property"), spec = vp_choose(2, "specifications"); Scratch d; d.sub("s"); auto abs = [&](const char* n) { return absolute ? "file://" + d.dir + "/" + n : std::string(n); }; std::string v = spec ? "int = " : "";
  // r includes s/one, which includes two of its own directory, and then three of the directory of r
  d.put("s/two", "two = " + v + "2\n"); d.put("two", "two = " + v + "9\n"); d.put("three", "three = " + v + "3\n"); d.put("s/one", "one = " + v + "1\n" + (absolute ? "@file://" + d.dir + "/s/two" : std::string("@two")) + "\nafter = " + v + "4\n");
  std::string body = "@" + abs("s/one") + "\n@" + abs("three") + "\nlast = " + v + "5\n"; d.put("r", deep ? "g {\n" + body + "}\n" : body); Resource::File file(d.dir + "/r"); Uris in { spec ? text("z = 1\n") : std::shared_ptr<Resource::Uri>(file.clone()) }, sp; if (spec) sp.emplace_back(file.clone());
  At at = reach(At { Injector::create(EnvironmentConfiguration(in, sp)), nullptr }, deep); static const char* N[] = { "one", "two", "three", "after", "last" }; static const int V[] = { 1, 2, 3, 4, 5 };
  for (int i = 0; i < 5; i++) if (spec) present<int>(at, N[i], V[i], 99); else present<std::string>(at, N[i], std::to_string(V[i]), "other"); vp_reach("done");
}
// iterators over the properties are values
extern "C" void env_iterators() {
  std::string in; char c[3]; for (int i = 0; i < 3; i++) { c[i] = vp_value<char>("digit"); vp_assume(c[i] >= '1' && c[i] <= '9'); in += std::string(1, 'e' + i) + " {\n i = " + c[i] + (i == 2 ? "\n j = 3" : "") + "\n}\n"; } int a = vp_choose(3, "first"), b = vp_choose(3, "second");
  auto inj = Injector::create(Env([](const Env& e) { e.grp("e", e.val<int>("i")); e.grp("f", e.val<int>("i")); e.grp("g", e.val<int>("i"), e.val<int>("j")); }, in)); auto p = inj->getShared<EnvironmentProperties>(std::string(1, 'e' + a)), q = inj->getShared<EnvironmentProperties>(std::string(1, 'e' + b)); const EnvironmentProperties& cq = *q;
  auto value = [&](const EnvironmentProperties::Item& x, int k) { return x.getName() == "j" ? k == 2 && x.getValue<int>() == 3 : x.getName() == "i" && x.getValue<int>() == c[k] - '0'; };
  auto it = p->begin(); vp_assert(value(*it, a), "an iterator refers to a property"); auto first = it; auto old = it++; vp_assert(old == first && old != it && value(*old, a), "post increment returns the old position"); ++old; vp_assert(old == it && (it == p->end()) == (a != 2), "both advance by one"); vp_assert(!(first == it), "a copy stays where it was");
  it = cq.begin(); vp_assert(it == q->begin() && value(*it, b), "an assigned iterator refers to the property of its new owner"); int n = 0; while (it != cq.end()) { vp_assert(value(*it, b), "and walks over its properties"); ++it; n++; } vp_assert(n == (b == 2 ? 2 : 1), "each once"); vp_reach(a == b ? "same" : "other");
}
