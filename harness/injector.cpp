// The injector: resolution over a hierarchy, validation, instances, callbacks, injection macros.
#include "common.hpp"
#include <Balau/Type/FromString.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/Injectable.hpp>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <thread>
using namespace Balau;
#ifndef LV
#define LV 3
#endif
#ifndef MANY
#define MANY 13
#endif
#ifndef NODES
#define NODES 3
#endif
using Conf = std::vector<std::shared_ptr<InjectorConfiguration>>;
template <class F> static int threwMissing(F f) { try { f(); } catch (const Exception::NoBindingException&) { return 1; } return 0; }
// a configuration whose body is a function of the configuration itself
struct Do : ApplicationConfiguration { std::function<void(const Do&)> f; explicit Do(std::function<void(const Do&)> g) : f(std::move(g)) {} void configure() const override { f(*this); }
  template <class T, class D = std::default_delete<T>> BindingBuilder<T, D>& on(std::string_view n = {}) const { return bind<T, D>(n); }
  void post(std::function<void(const Injector&)> c) const { registerPostConstructionCall(c); } void pre(std::function<void()> c) const { registerPreDestructionCall(c); }
  template <class T> void stat(std::shared_ptr<T>* p, std::string_view n) const { registerStaticSingleton<T>(p, n); } void more(const Do& c) const { addConfiguration(c); } };
template <class F> static std::shared_ptr<Injector> make(const std::shared_ptr<Injector>& parent, F f) { Do c(f); return parent ? parent->createChild(c) : Injector::create(c); }
struct T { int id; virtual ~T() = default; explicit T(int i = 0) : id(i) {} };
struct None { void operator()(const T*) const {} };

// A chain of injectors with any of the bindings (const or not, two names) at each level.
struct Chain { std::vector<std::shared_ptr<Injector>> at; std::vector<std::shared_ptr<T>> obj; bool has[LV][2][2] = {}; size_t levels;
  template <class B> Chain(size_t n, B bindOne) : levels(n) { for (size_t i = 0; i < LV * 4; i++) obj.push_back(std::make_shared<T>((int)i));
    for (size_t l = 0; l < n; l++) { for (int c = 0; c < 2; c++) for (int k = 0; k < 2; k++) has[l][c][k] = k == 0 || l == 0 ? vp_choose(2, "bound") : false;
      at.push_back(make(l ? at[l - 1] : nullptr, [&](const Do& d) { for (int c = 0; c < 2; c++) for (int k = 0; k < 2; k++) if (has[l][c][k]) bindOne(d, c, k ? "n" : "", obj[l * 4 + c * 2 + k]); })); } }
  // level of the binding that a request for a const or non-const instance resolves to, or -1
  T* find(size_t from, int wantConst, int k) const { if (wantConst) for (int l = (int)from; l >= 0; l--) if (has[l][1][k]) return obj[l * 4 + 2 + k].get(); for (int l = (int)from; l >= 0; l--) if (has[l][0][k]) return obj[l * 4 + k].get(); return nullptr; }
  int exact(size_t from, int c, int k) const { for (int l = (int)from; l >= 0; l--) if (has[l][c][k]) return 1; return 0; } };
extern "C" void inj_shared() {
  Chain h(1 + vp_choose(LV, "levels"), [](const Do& d, int c, const char* n, std::shared_ptr<T> o) { if (c) d.on<const T>(n).toSingleton(std::shared_ptr<const T>(o)); else d.on<T>(n).toSingleton(o); });
  for (size_t l = 0; l < h.levels; l++) for (int k = 0; k < 2; k++) { auto& j = *h.at[l]; const char* n = k ? "n" : ""; T* p = h.find(l, 0, k); T* c = h.find(l, 1, k); if (p != c) vp_reach("const preferred");
    if (p) vp_assert(j.getShared<T>(n).get() == p && j.getInstance<std::shared_ptr<T>>(n).get() == p && j.getInstance<std::weak_ptr<T>>(n).lock().get() == p && j.getInstance<const std::shared_ptr<T>>(n).get() == p && j.getInstance<const std::weak_ptr<T>>(n).lock().get() == p, "a request resolves to the nearest binding");
    else { vp_reach("missing"); vp_assert(threwMissing([&] { j.getShared<T>(n); }) && threwMissing([&] { j.getInstance<std::weak_ptr<T>>(n); }), "a request without a binding throws"); }
    if (c) vp_assert(j.getShared<const T>(n).get() == c && j.getInstance<std::shared_ptr<const T>>(n).get() == c && j.getInstance<std::weak_ptr<const T>>(n).lock().get() == c && j.getInstance<const std::shared_ptr<const T>>(n).get() == c && j.getInstance<const std::weak_ptr<const T>>(n).lock().get() == c, "a const request prefers a const binding of the whole hierarchy, then a non-const one");
    else vp_assert(threwMissing([&] { j.getShared<const T>(n); }) && threwMissing([&] { j.getInstance<std::weak_ptr<const T>>(n); }), "a const request without a binding throws");
    if (c && !p) vp_reach("only const");
    auto other = std::make_shared<T>(77); std::shared_ptr<const T> cother = other; int called = 0; std::function<std::shared_ptr<T>()> sup = [&] { ++called; return other; }; std::function<std::shared_ptr<const T>()> csup = [&] { ++called; return cother; };
    vp_assert(j.getSharedOrNull<T>(n).get() == p && j.getSharedOrNull<const T>(n).get() == c, "null instead of a missing instance");
    vp_assert(j.getShared<T>(n, other).get() == (p ? p : other.get()) && j.getShared<const T>(n, cother).get() == (c ? c : other.get()), "the default value stands in for a missing instance only");
    vp_assert(j.getShared<T>(n, sup).get() == (p ? p : other.get()) && called == !p, "the supplier is called for a missing instance only"); called = 0;
    vp_assert(j.getShared<const T>(n, csup).get() == (c ? c : other.get()) && called == !c, "the supplier is called for a missing const instance only"); called = 0;
    if (!k) { vp_assert(j.getShared<T>(other).get() == (p ? p : other.get()) && j.getShared<const T>(cother).get() == (c ? c : other.get()) && j.getShared<T>(sup).get() == (p ? p : other.get()) && called == !p, "unnamed requests with a default"); }
    vp_assert(j.hasBinding<std::shared_ptr<T>>(n) == h.exact(l, 0, k), "hasBinding covers the hierarchy"); if (h.exact(l, 1, k)) vp_assert(j.hasBinding<std::shared_ptr<const T>>(n), "hasBinding of a const binding"); if (!c) vp_assert(!j.hasBinding<std::shared_ptr<const T>>(n), "hasBinding without any binding");
    vp_assert(!j.hasBinding<T&>(n) && !j.hasBinding<T>(n) && !j.hasBinding<std::unique_ptr<T>>(n) && threwMissing([&] { j.getReference<T>(n); }) && threwMissing([&] { j.getValue<T>(n); }) && threwMissing([&] { j.getUnique<T>(n); }), "the kinds of bindings are separate");
    vp_assert(j.getShared<Injector>().get() == &j && j.getInstance<std::weak_ptr<Injector>>().lock().get() == &j && j.getShared<const Injector>().get() == &j, "an injector supplies itself"); } }
extern "C" void inj_reference() {
  Chain h(1 + vp_choose(LV, "levels"), [](const Do& d, int c, const char* n, std::shared_ptr<T> o) { if (c) d.on<const T>(n).toReference(*o); else d.on<T>(n).toReference(*o); });
  for (size_t l = 0; l < h.levels; l++) for (int k = 0; k < 2; k++) { auto& j = *h.at[l]; const char* n = k ? "n" : ""; T* p = h.find(l, 0, k); T* c = h.find(l, 1, k); if (p != c) vp_reach("const preferred"); T other(77); const T& cother = other;
    if (p) vp_assert(&j.getReference<T>(n) == p && &j.getInstance<T&>(n) == p, "a request resolves to the nearest binding"); else { vp_reach("missing"); vp_assert(threwMissing([&] { j.getReference<T>(n); }), "a request without a binding throws"); }
    if (c) vp_assert(&j.getReference<const T>(n) == c && &j.getInstance<const T&>(n) == c, "a const request prefers a const binding of the whole hierarchy, then a non-const one"); else vp_assert(threwMissing([&] { j.getReference<const T>(n); }), "a const request without a binding throws");
    vp_assert(&j.getReference<T>(n, other) == (p ? p : &other) && &j.getReference<const T>(n, cother) == (c ? c : &other), "the default value stands in for a missing instance only");
    if (!k) vp_assert(&j.getReference<T>(other) == (p ? p : &other) && &j.getReference<const T>(cother) == (c ? c : &other), "unnamed requests with a default");
    vp_assert(j.hasBinding<T&>(n) == h.exact(l, 0, k) && !j.hasBinding<std::shared_ptr<T>>(n), "hasBinding covers the hierarchy"); } }
extern "C" void inj_new() { int ids[LV * 4]; vp_symbolic(ids, sizeof ids, "ids"); int cbind = vp_choose(2, "const in the binding");
  auto val = [&](const std::shared_ptr<T>& o) { return ids[o->id]; };
  // values in the first chain of kinds, unique instances in the second: the first flag of a level is a value, the second a unique instance
  Chain h(1 + vp_choose(LV, "levels"), [&](const Do& d, int c, const char* n, std::shared_ptr<T> o) { int v = val(o);
    if (c) { if (cbind) d.on<const T>(n).toUniqueProvider([v] { return std::unique_ptr<T>(new T(v)); }); else d.on<T>(n).toUniqueProvider([v] { return std::unique_ptr<T>(new T(v)); }); }
    else if (cbind) d.on<const int>(n).toValue(v); else d.on<int>(n).toValue(v); });
  for (size_t l = 0; l < h.levels; l++) for (int k = 0; k < 2; k++) { auto& j = *h.at[l]; const char* n = k ? "n" : ""; int dv = 77, called = 0; int mv = -1, mu = -1;
    for (int i = (int)l; i >= 0; i--) { if (mv < 0 && h.has[i][0][k]) mv = i * 4 + k; if (mu < 0 && h.has[i][1][k]) mu = i * 4 + 2 + k; }
    std::function<int()> sup = [&] { ++called; return dv; }; std::function<std::unique_ptr<T>()> usup = [&] { ++called; return std::unique_ptr<T>(new T(dv)); }; std::function<std::unique_ptr<const T>()> cusup = [&] { ++called; return std::unique_ptr<const T>(new T(dv)); };
    if (mv >= 0) { vp_reach("value"); vp_assert(j.getValue<int>(n) == ids[mv] && j.getInstance<int>(n) == ids[mv] && j.getInstance<const int>(n) == ids[mv], "a value is a copy of the nearest prototype"); } else vp_assert(threwMissing([&] { j.getValue<int>(n); }) && threwMissing([&] { j.getInstance<const int>(n); }), "a missing value throws");
    int ev = mv >= 0 ? ids[mv] : dv; vp_assert(j.getValue<int>(n, dv) == ev && j.getValue<int>(n, sup) == ev && called == (mv < 0), "defaults of values"); if (!k) vp_assert(j.getValue<int>(dv) == ev && j.getValue<int>(sup) == ev, "defaults of unnamed values"); called = 0;
    if (mu >= 0) { vp_reach("unique"); auto a = j.getUnique<T>(n), b = j.getInstance<std::unique_ptr<T>>(n); std::unique_ptr<const T> c = j.getInstance<std::unique_ptr<const T>>(n), e = j.getUnique<const T>(n); vp_assert(a && b && c && e && a != b && a.get() != c.get() && c != e, "each request creates an instance"); vp_assert((a->id == ids[mu]) & (b->id == ids[mu]) & (c->id == ids[mu]) & (e->id == ids[mu]), "unique instances come from the nearest binding"); }
    else vp_assert(threwMissing([&] { j.getUnique<T>(n); }) && threwMissing([&] { j.getUnique<const T>(n); }) && threwMissing([&] { j.getInstance<std::unique_ptr<const T>>(n); }), "a missing unique instance throws");
    int eu = mu >= 0 ? ids[mu] : dv; vp_assert(j.getUnique<T>(n, std::unique_ptr<T>(new T(dv)))->id == eu && j.getUnique<const T>(n, std::unique_ptr<const T>(new T(dv)))->id == eu && j.getUnique<T>(n, usup)->id == eu && called == (mu < 0) && j.getUnique<const T>(n, cusup)->id == eu && called == 2 * (mu < 0), "defaults of unique instances");
    vp_assert(!!j.getUniqueOrNull<T>(n) == (mu >= 0) && !!j.getUniqueOrNull<const T>(n) == (mu >= 0), "null instead of a missing unique instance"); if (!k) vp_assert(j.getUnique<T>(std::unique_ptr<T>(new T(dv)))->id == eu && j.getUnique<T>(usup)->id == eu, "defaults of unnamed unique instances");
    vp_assert(j.hasBinding<int>(n) == (mv >= 0) && j.hasBinding<std::unique_ptr<T>>(n) == (mu >= 0) && !j.hasBinding<std::shared_ptr<T>>(n), "hasBinding of new instances");
    vp_assert(threwMissing([&] { j.getUnique<T, None>(n); }) && !j.hasBinding<std::unique_ptr<T, None>>(n), "the deleter is part of the key"); } }

// All meta types with the same type and name in one injector, in up to two configurations.
static void bindKind(const Do& d, int kind, const char* n, T& o) { std::shared_ptr<T> s(&o, [](T*) {});
  switch (kind) { case 0: d.on<T>(n).toValue(o); break; case 1: d.on<T>(n).toUniqueProvider([&o] { return std::unique_ptr<T>(new T(o)); }); break; case 2: d.on<T>(n).toReference(o); break; case 3: d.on<const T>(n).toReference(o); break; case 4: d.on<T>(n).toSingleton(s); break; case 5: d.on<const T>(n).toSingleton(std::shared_ptr<const T>(s)); break;
    default: { std::function<std::unique_ptr<T, None>()> f = [&o] { return std::unique_ptr<T, None>(&o); }; d.on<T, None>(n).toUniqueProvider(f); } } }
static int idOf(Injector& j, int kind, const char* n) { switch (kind) { case 0: return j.getValue<T>(n).id; case 1: return j.getUnique<T>(n)->id; case 2: return j.getReference<T>(n).id; case 3: return j.getReference<const T>(n).id; case 4: return j.getShared<T>(n)->id; case 5: return j.getShared<const T>(n)->id; default: return j.getUnique<T, None>(n)->id; } }
extern "C" void inj_kinds() { T o[7][2]; bool has[7][2] = {}; for (int i = 0; i < 7; i++) for (int k = 0; k < 2; k++) { o[i][k].id = vp_value<int>("id"); has[i][k] = k ? i == 4 : vp_choose(2, "bound"); }
  auto j = make(nullptr, [&](const Do& d) { for (int i = 0; i < 7; i++) for (int k = 0; k < 2; k++) if (has[i][k]) bindKind(d, i, k ? "n" : "", o[i][k]); });
  for (int i = 0; i < 7; i++) for (int k = 0; k < 2; k++) { const char* n = k ? "n" : ""; int from = has[i][k] ? i : (i == 3 || i == 5) && has[i - 1][k] ? i - 1 : -1; if (from < 0) vp_assert(threwMissing([&] { idOf(*j, i, n); }), "a kind without a binding"); else vp_assert(idOf(*j, i, n) == o[from][k].id, "a request of a kind finds the binding of that kind"); }
  vp_assert(threwMissing([&] { j->getShared<T>("other"); }), "another name has no binding"); vp_reach("done"); }
extern "C" void inj_duplicates() { T o; int kind[3], name[3]; size_t n = 2 + vp_choose(2, "bindings"); int dup = 0, form = vp_choose(4, "form"); for (size_t i = 0; i < n; i++) { kind[i] = vp_choose(7, "kind"); name[i] = i < 2 && vp_choose(2, "name"); for (size_t k = 0; k < i; k++) dup |= kind[i] == kind[k] && name[i] == name[k]; if (i == 2 && kind[2] > 1) kind[2] = kind[0], name[2] = name[0], dup = 1; }
  auto b = [&](const Do& d, size_t i) { bindKind(d, kind[i], name[i] ? "n" : "", o); }; int threw = 0;
  Do all([&](const Do& d) { for (size_t i = 0; i < n; i++) b(d, i); }), first([&](const Do& d) { b(d, 0); }), rest([&](const Do& d) { for (size_t i = 1; i < n; i++) b(d, i); }), extra([&](const Do& d) { b(d, 0); d.more(rest); });
  auto sh = [](const Do& d) { return std::shared_ptr<InjectorConfiguration>(std::make_shared<Do>(d.f)); };
  try { std::shared_ptr<Injector> j; switch (form) { case 0: j = Injector::create(all); break; case 1: j = Injector::create(first, rest); break; case 2: j = Injector::create(extra); break; default: j = Injector::create(Conf { sh(first), sh(rest) }); }
    for (size_t i = 0; i < n; i++) vp_assert(!threwMissing([&] { idOf(*j, kind[i], name[i] ? "n" : ""); }), "every binding of every configuration is available"); auto c = j->createChild(all); vp_reach("distinct"); } catch (const Exception::DuplicateBindingException&) { threw = 1; }
  vp_assert(threw == dup, "duplicate keys are reported, others are not"); threw = 0; try { if (form == 1) Injector::validate(first, rest); else Injector::validate(all); } catch (const Exception::DuplicateBindingException&) { threw = 1; } vp_assert(threw == dup, "validation reports the same duplicates"); if (dup) vp_reach("duplicate"); }
extern "C" void inj_many() { size_t n = symLen(1, MANY, "bindings"); int ids[MANY]; vp_symbolic(ids, sizeof ids, "ids"); auto name = [](size_t i) { return std::string(1 + i / 7, char('a' + i)); };
  auto j = make(nullptr, [&](const Do& d) { for (size_t i = 0; i < n; i++) { if (i % 3 != 2) d.on<T>(name(i)).toSingleton(new T(ids[i])); else d.on<int>(name(i)).toValue(ids[i]); } });
  std::map<T*, int> seen; for (size_t i = 0; i < MANY + 1; i++) { if (i >= n) vp_assert(!j->hasBinding<std::shared_ptr<T>>(name(i)) && !j->hasBinding<int>(name(i)), "no other binding"); else if (i % 3 == 2) vp_assert(j->getValue<int>(name(i)) == ids[i] && !j->hasBinding<std::shared_ptr<T>>(name(i)), "the value with the name"); else { auto p = j->getShared<T>(name(i)); vp_assert(p->id == ids[i] && seen[p.get()]++ == 0, "the instance with the name"); } }
  size_t visited = 0; j->iterate<T>(std::function<void(std::shared_ptr<T>)>([&](std::shared_ptr<T> p) { ++visited; vp_assert(seen[p.get()]++ == 1, "each singleton is visited once"); })); vp_assert(visited == seen.size(), "every singleton is visited");
  auto text = j->printBindings(); vp_assert((size_t)std::count(text.begin(), text.end(), '\n') == n - 1, "a line for each binding"); for (size_t i = 0; i < n; i++) vp_assert(text.find("\"" + name(i) + "\"") != std::string::npos, "each binding is printed");
  auto c = make(j, [&](const Do& d) { d.on<int>("zz").toValue(1); }); vp_assert(c->printBindings().find("\"a\"") == std::string::npos && c->printBindings(true) == c->printBindings() + "\n" + text, "the bindings of ancestors are printed on demand"); vp_reach("done"); }

// Nodes with any dependencies between them.
enum { Absent, Eager, Lazy, Parent, Threaded, ParentConst };
static int dep[NODES][NODES], kind[NODES], built[NODES], ready[NODES]; static std::vector<int> order;
template <int I> struct Node;
template <int I> static void requestNode(const Injector& j, int how);
template <int I> static void keyOf(std::vector<Impl::BindingKey>& k, int how) { switch (how) { case 1: k.push_back(Impl::CreateBindingKey<std::shared_ptr<Node<I>>>()("")); break; case 2: k.push_back(Impl::CreateBindingKey<std::shared_ptr<const Node<I>>>()("")); break; case 3: k.push_back(Impl::CreateBindingKey<std::weak_ptr<Node<I>>>()("")); break; case 4: k.push_back(Impl::CreateBindingKey<std::weak_ptr<const Node<I>>>()("")); } }
template <int I> struct Node { virtual ~Node() = default; static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { std::vector<Impl::BindingKey> k; keyOf<0>(k, dep[I][0]); if (NODES > 1) keyOf<1 % NODES>(k, NODES > 1 ? dep[I][1 % NODES] : 0); if (NODES > 2) keyOf<2 % NODES>(k, dep[I][2 % NODES]); return k; }
  static Node* BALAU_newHeapInstance(const Injector& j) { built[I]++; requestNode<0>(j, dep[I][0]); if (NODES > 1) requestNode<1 % NODES>(j, dep[I][1 % NODES]); if (NODES > 2) requestNode<2 % NODES>(j, dep[I][2 % NODES]); ready[I] = 1; return new Node; } };
template <int I> static void requestNode(const Injector& j, int how) { switch (how) { case 1: vp_assert(!!j.getInstance<std::shared_ptr<Node<I>>>(), "a dependency is available"); break; case 2: vp_assert(!!j.getInstance<std::shared_ptr<const Node<I>>>(), "a const dependency is available"); break; case 3: vp_assert(!!j.getInstance<std::weak_ptr<Node<I>>>().lock(), "a weak dependency is available"); break; case 4: vp_assert(!!j.getInstance<std::weak_ptr<const Node<I>>>().lock(), "a weak const dependency is available"); break; default: return; } vp_assert(kind[I] == Parent || kind[I] == ParentConst || ready[I], "a dependency is constructed before its dependents"); }
template <int I> static void bindNode(const Do& d) { if (kind[I] == Eager) d.on<Node<I>>().toEagerSingleton(); if (kind[I] == Lazy) d.on<Node<I>>().toSingleton(); }
template <int I> static void bindParent(const Do& d) { if (kind[I] == Parent) d.on<Node<I>>().toSingleton(std::make_shared<Node<I>>()); if (kind[I] == ParentConst) d.on<const Node<I>>().toSingleton(std::shared_ptr<const Node<I>>(new Node<I>)); }
static void bindNodes(const Do& d) { bindNode<0>(d); if (NODES > 1) bindNode<1 % NODES>(d); if (NODES > 2) bindNode<2 % NODES>(d); }
static void bindParents(const Do& d) { bindParent<0>(d); if (NODES > 1) bindParent<1 % NODES>(d); if (NODES > 2) bindParent<2 % NODES>(d); }
static int here(int i) { return kind[i] == Eager || kind[i] == Lazy; }
static int cyclicFrom(int from, int at, int n, int left) { if (left < 0) return 0; for (int k = 0; k < n; k++) if (dep[at][k] && here(k) && (k == from || cyclicFrom(from, k, n, left - 1))) return 1; return 0; }
static void verdicts(int n) { int missing = 0, cyclic = 0; for (int i = 0; i < n; i++) if (here(i)) { for (int k = 0; k < n; k++) if (dep[i][k]) missing |= kind[k] == Absent || (kind[k] == ParentConst && (dep[i][k] == 1 || dep[i][k] == 3)); cyclic |= cyclicFrom(i, i, n, n); }
  auto check = [&](const char* what, std::function<void()> f) { int got = 0; try { f(); } catch (const Exception::MissingDependencyException&) { got = 1; } catch (const Exception::CyclicDependencyException&) { got = 2; } vp_assert(got == 0 ? !missing && !cyclic : got == 1 ? missing : cyclic, what); return got; };
  Do mine(bindNodes), parents(bindParents); auto c1 = std::make_shared<Do>([](const Do& d) { bindNode<0>(d); }), c2 = std::make_shared<Do>([](const Do& d) { if (NODES > 1) bindNode<1 % NODES>(d); if (NODES > 2) bindNode<2 % NODES>(d); }); Do &mine1 = *c1, &mine2 = *c2; std::shared_ptr<Injector> p, j;
  bool root = true; for (int i = 0; i < n; i++) root &= kind[i] != Parent && kind[i] != ParentConst; root = root && vp_choose(2, "without a parent"); int form = vp_choose(3, "form of configuration"); if (!root) p = Injector::create(parents); Conf vec; if (form == 1) { vec.push_back(c1); vec.push_back(c2); }
  check("validation reports missing and cyclic dependencies, and nothing else", [&] { if (root) { form == 0 ? Injector::validate(mine) : form == 1 ? Injector::validate(vec) : Injector::validate(mine1, mine2); return; } auto v = Injector::validate(parents); form == 0 ? Injector::validateChild(v, mine) : form == 1 ? Injector::validateChild(v, vec) : Injector::validateChild(v, mine1, mine2); }); for (int i = 0; i < n; i++) vp_assert(!built[i], "validation creates no instance");
  if (!check("creation reports missing and cyclic dependencies, and nothing else", [&] { j = root ? form == 0 ? Injector::create(mine) : form == 1 ? Injector::create(vec) : Injector::create(mine1, mine2) : form == 0 ? p->createChild(mine) : form == 1 ? p->createChild(vec) : p->createChild(mine1, mine2); })) { vp_reach("valid"); for (int i = 0; i < n; i++) vp_assert(built[i] <= 1 && (kind[i] != Eager || built[i] == 1), "eager singletons are created once with the injector"); int lazies[NODES] = {}; for (int i = 0; i < n; i++) lazies[i] = built[i];
    for (int i = 0; i < n; i++) if (kind[i] == Lazy && !built[i]) { int needed = 0; for (int k = 0; k < n; k++) needed |= built[k] && dep[k][i]; vp_assert(!needed, "a needed lazy singleton is created"); }
    if (here(0)) { j->getShared<Node<0>>(); j->getShared<Node<0>>(); vp_assert(built[0] == 1, "one instance"); } for (int i = 0; i < n; i++) vp_assert(built[i] <= 1, "one instance of each"); }
  else { vp_reach(missing ? "missing" : "cyclic"); for (int i = 0; i < n; i++) vp_assert(!built[i], "nothing is created by an invalid configuration"); } }
extern "C" void inj_graph() { for (int i = 0; i < NODES; i++) { kind[i] = vp_choose(2, "eager") ? Eager : Lazy; for (int k = 0; k < NODES; k++) dep[i][k] = i == k ? (i == 0 ? vp_choose(2, "self") : 0) : vp_choose(2, "dependency"); } verdicts(NODES); }
extern "C" void inj_promotion() { kind[0] = Eager; kind[1] = vp_choose(6, "where"); vp_assume(kind[1] != Threaded); dep[0][1] = vp_choose(5, "how"); if (here(1)) dep[1][0] = vp_choose(5, "back"); verdicts(2); }
extern "C" void inj_wanted() { for (int i = 0; i < NODES; i++) kind[i] = vp_choose(4, "where"); dep[0][1] = vp_choose(4, "0 1"); dep[1][2 % NODES] = 1 + vp_choose(3, "1 2"); dep[2 % NODES][0] = vp_choose(2, "2 0"); verdicts(NODES); }
// A dependency on the injector itself.
struct KeepsWeak { static std::weak_ptr<const Injector> got; static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return { Impl::CreateBindingKey<std::weak_ptr<Injector>>()("") }; } static KeepsWeak* BALAU_newHeapInstance(const Injector& j) { got = j.getInstance<std::weak_ptr<Injector>>(); return new KeepsWeak; } static KeepsWeak BALAU_newStackInstance(const Injector& j) { return KeepsWeak(); } }; std::weak_ptr<const Injector> KeepsWeak::got;
struct KeepsShared : KeepsWeak { static int c; static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { if (c) return { Impl::CreateBindingKey<std::shared_ptr<const Injector>>()("") }; return { Impl::CreateBindingKey<std::shared_ptr<Injector>>()("") }; } static KeepsShared* BALAU_newHeapInstance(const Injector& j) { got = j.getInstance<std::shared_ptr<Injector>>(); return new KeepsShared; } static KeepsShared BALAU_newStackInstance(const Injector& j) { got = j.getInstance<std::shared_ptr<Injector>>(); return KeepsShared(); } }; int KeepsShared::c = 0;
extern "C" void inj_itself() { int how = vp_choose(8, "binding"), threw = 0; KeepsShared::c = vp_choose(2, "const"); std::shared_ptr<Injector> p = vp_choose(2, "parent") ? Injector::create(Do([](const Do&) {})) : nullptr, j;
  auto conf = [&](const Do& d) { switch (how) { case 0: d.on<KeepsWeak>().toEagerSingleton(); break; case 1: d.on<KeepsWeak>().toSingleton(); break; case 2: d.on<KeepsShared>().toEagerSingleton(); break; case 3: d.on<KeepsShared>().toSingleton(); break; case 4: d.on<KeepsShared>().toThreadLocal(); break; case 5: d.on<KeepsShared>().toUnique<KeepsShared>(); break; case 6: d.on<KeepsShared>().toValue(); break; default: d.on<KeepsWeak>().toThreadLocal(); } };
  try { j = make(p, conf); } catch (const Exception::SharedInjectorException&) { threw = 1; } vp_assert(threw == (how >= 2 && how <= 4), "a singleton cannot keep its injector alive"); if (threw) { vp_reach("refused"); return; }
  if (how == 1) j->getShared<KeepsWeak>(); if (how == 5) j->getUnique<KeepsShared>(); if (how == 6) j->getValue<KeepsShared>(); if (how != 7) vp_assert(KeepsWeak::got.lock().get() == j.get(), "an instance is given the injector that creates it"); std::weak_ptr<Injector> w = j; j.reset(); vp_assert(w.expired(), "the injector is destroyed with its last owner"); vp_reach("injected"); }

// Instances of each binding kind: creations, identity and destruction.
static int made, gone, freed, provided, givers; struct Thing { int serial; Thing() : serial(++made) {} Thing(const Thing& t) : serial(++made) {} virtual ~Thing() { ++gone; }
  static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return {}; } static Thing* BALAU_newHeapInstance(const Injector&) { return new Thing; } static Thing BALAU_newStackInstance(const Injector&) { return Thing(); } };
struct Derived : Thing { static Derived* BALAU_newHeapInstance(const Injector&) { return new Derived; } }; struct Free { void operator()(Thing* t) const { ++freed; delete t; } };
struct ShGiver { ShGiver() { ++givers; } std::shared_ptr<Thing> operator()() { ++provided; return std::make_shared<Thing>(); } static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return {}; } static ShGiver* BALAU_newHeapInstance(const Injector&) { return new ShGiver; } };
struct UnGiver { UnGiver() { ++givers; } std::unique_ptr<Thing> operator()() { ++provided; return std::unique_ptr<Thing>(new Derived); } static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return {}; } static UnGiver* BALAU_newHeapInstance(const Injector&) { return new UnGiver; } };
struct VaGiver { int n = 0; VaGiver() { ++givers; } int operator()() { ++provided; return ++n; } static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return {}; } static VaGiver* BALAU_newHeapInstance(const Injector&) { return new VaGiver; } };
extern "C" void inj_singletons() { int how = vp_choose(14, "binding"), child = vp_choose(3, "child"), before = 0, uses = vp_choose(3, "uses"); bool eager = how >= 7, custom = how == 2 || how == 6 || how == 9, kept = how >= 12;
  { std::shared_ptr<Thing> outside; auto conf = [&](const Do& d) { auto& b = d.on<Thing>(); switch (how) { case 0: b.toSingleton(); break; case 1: b.toSingleton<Derived>(); break; case 2: b.toSingleton<Derived, Free>(); break; case 3: b.toThreadLocal(); break; case 4: b.toThreadLocal<Derived>(); break; case 5: b.toThreadLocal<Thing>(); break; case 6: b.toThreadLocal<Derived, Free>(); break;
      case 7: b.toEagerSingleton(); break; case 8: b.toEagerSingleton<Derived>(); break; case 9: b.toEagerSingleton<Derived, Free>(); break; case 10: b.toSingletonProvider<ShGiver>(); break; case 11: b.toSingletonProvider(std::function<std::shared_ptr<Thing>()>([] { ++provided; return std::make_shared<Derived>(); })); break; case 12: b.toSingletonProvider(std::make_shared<ShGiver>()); break; default: b.toSingleton(outside = std::make_shared<Thing>()); } };
    auto j = make(nullptr, conf); before = made; vp_assert(made == (eager ? 1 : 0), "eager instances are created with the injector, others on demand"); vp_assert(provided == (how >= 10 && how <= 12), "a singleton provider is called once");
    auto c = child == 0 ? j : child == 1 ? j->createChild(Do([](const Do&) {})) : make(nullptr, [](const Do&) {})->createChild(j); std::shared_ptr<Thing> a; for (int u = 0; u < uses; u++) { auto x = u ? j->getShared<Thing>() : c->getShared<Thing>(); vp_assert(!a || a == x, "one instance in the injector, its children and its copies"); a = x; vp_assert(a && made == 1, "at most one instance is created"); }
    vp_assert(!uses || (dynamic_cast<Derived*>(a.get()) != nullptr) == (how == 1 || how == 2 || how == 4 || how == 6 || how == 8 || how == 9 || how == 11), "the instance has the bound class"); vp_assert(!gone && !freed, "the injector keeps the instance");
    std::weak_ptr<Injector> w = j; j.reset(); if (child != 0 && a) vp_assert(c->getShared<Thing>() == a, "a child keeps what it shares"); c.reset(); vp_assert(!a || gone == 0, "an owner keeps the instance"); vp_assert(w.expired(), "injectors are destroyed"); if (a) vp_reach("used"); else vp_reach("unused"); (void)kept; (void)before; }
  vp_assert(gone == made, "every instance is destroyed once"); vp_assert(freed == (custom ? made : 0), "the custom deleter destroys the instance"); }
extern "C" void inj_instances() { int how = vp_choose(10, "binding"), uses = vp_choose(3, "uses");
  { auto j = make(nullptr, [&](const Do& d) { switch (how) { case 0: d.on<Thing>().toUnique<Thing>(); break; case 1: d.on<Thing>().toUnique<Derived>(); break; case 2: d.on<Thing>().toUniqueProvider<UnGiver>(); break; case 3: d.on<Thing>().toUniqueProvider(std::make_shared<UnGiver>()); break; case 4: d.on<Thing>().toUniqueProvider([] { ++provided; return std::unique_ptr<Thing>(new Derived); }); break;
      case 5: d.on<Thing>().toValue(); break; case 6: d.on<int>("v").toValueProvider<VaGiver>(); break; case 7: d.on<int>("v").toValueProvider(std::make_shared<VaGiver>()); break; case 8: d.on<int>("v").toValueProvider([] { ++provided; return provided; }); break; default: d.on<Thing, Free>("f").toUnique<Derived>(); d.on<Thing>().toUnique<Thing>(); } });
    vp_assert(!made && !provided && givers == (how == 2 || how == 3 || how == 6 || how == 7), "nothing but the provider is created with the injector");
    for (int u = 0; u < uses; u++) { if (how <= 4) { auto a = j->getUnique<Thing>(), b = j->getUnique<Thing>(); vp_assert(a && b && a != b && (dynamic_cast<Derived*>(b.get()) != nullptr) == (how != 0), "each request gives a new instance of the bound class"); vp_assert(made == 2 * (u + 1) && provided == (how >= 2 ? made : 0), "one creation for each request"); }
      else if (how == 5) { Thing a = j->getValue<Thing>(), b = j->getValue<Thing>(); vp_assert(&a != &b && a.serial != b.serial, "each request gives a new value"); } else if (how == 9) { auto a = j->getUnique<Thing, Free>("f"); vp_assert(a && dynamic_cast<Derived*>(a.get()) && threwMissing([&] { j->getUnique<Thing>("f"); }), "unique instances with a custom deleter"); } else vp_assert(j->getValue<int>("v") == u + 1 && provided == u + 1 && givers == (how == 8 ? 0 : 1), "the same provider serves each request"); } if (uses) vp_reach("used"); }
  vp_assert(gone == made, "every instance is destroyed once"); vp_assert(freed == (how == 9 ? uses : 0), "the custom deleter destroys its instances"); }
extern "C" void inj_threads() { auto j = make(nullptr, [](const Do& d) { d.on<Thing>().toSingleton(); d.on<Thing>("e").toEagerSingleton(); }); std::shared_ptr<Thing> got[2]; auto f = [&](int i) { got[i] = j->getShared<Thing>(i ? "" : ""); vp_assert(!!j->getShared<Thing>("e"), "eager instance"); }; std::thread a(f, 0), b(f, 1); a.join(); b.join(); vp_assert(got[0] && got[0] == got[1] && made == 2, "threads share one lazy instance"); vp_reach("done"); }

// Callbacks, static singletons and extra configurations.
extern "C" void inj_calls() { int posts = 0, pres = 0, early = 0; std::shared_ptr<Thing> st, named; std::weak_ptr<Thing> alive; size_t n = vp_choose(3, "calls"); int nested = vp_choose(3, "extra"), again = vp_choose(3, "earlier use"), vec = vp_choose(2, "vector"), created = 0;
  std::string name("nm"); auto body = [&](const Do& d) { for (size_t i = 0; i < n; i++) { d.post([&](const Injector& j) { ++posts; early += j.getShared<Thing>() == nullptr; }); d.pre([&] { ++pres; early += alive.expired(); }); } };
  Do inner([&](const Do& d) { body(d); d.on<int>("inner").toValue(1); }), extra([&](const Do& d) { body(d); d.on<int>("extra").toValue(2); if (nested == 2) d.more(inner); });
  auto mainBody = [&](const Do& d) { d.on<Thing>().toEagerSingleton(); d.on<Thing>("nm").toSingleton(); body(d); std::string gone("nm"); d.stat(&st, ""); d.stat(&named, gone); gone = "xx"; if (nested) d.more(extra); };
  auto conf = std::make_shared<Do>(mainBody); size_t bodies = 1 + nested;
  auto create = [&] { return vec ? Injector::create(Conf { conf }) : Injector::create(*conf); };
  if (again == 1) { if (vec) Injector::validate(Conf { conf }); else Injector::validate(*conf); vp_assert(!made && !posts && !st, "validation constructs nothing and makes no call"); pres = early = 0; } if (again == 2) { auto j = create(); alive = j->getShared<Thing>(); j.reset(); vp_assert(posts == (int)(n * bodies) && pres == (int)(n * bodies), "each registered call is made once"); posts = pres = early = 0; vp_reach("second use"); }
  { auto j = create(); alive = j->getShared<Thing>(); vp_assert(posts == (int)(n * bodies) && !early, "each registered call is made once after construction"); vp_assert(st && st == j->getShared<Thing>() && named && named == j->getShared<Thing>("nm") && st != named, "static singletons are set after construction"); vp_assert(!pres, "no call is made before destruction"); vp_assert(j->hasBinding<int>("extra") == (nested > 0) && j->hasBinding<int>("inner") == (nested > 1), "extra configurations contribute their bindings");
    auto c = j->createChild(Do([](const Do&) {})); vp_assert(posts == (int)(n * bodies), "the calls belong to the injector"); (void)created; }
  vp_assert(pres == (int)(n * bodies) && !early, "each registered call is made once before the bindings are destroyed"); vp_assert(!st && !named && alive.expired() && made == gone, "static singletons are reset at destruction"); vp_reach("done"); }
static std::vector<int> callLog; struct Registers { std::weak_ptr<Injector> j; explicit Registers(std::shared_ptr<Injector> i) : j(i) { i->registerPostConstructionCall([](const Injector&) { callLog.push_back(1); }); i->registerPreDestructionCall([] { callLog.push_back(2); }); } static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return { Impl::CreateBindingKey<std::weak_ptr<Injector>>()("") }; } static Registers* BALAU_newHeapInstance(const Injector& j) { return new Registers(j.getInstance<std::weak_ptr<Injector>>().lock()); } };
static std::shared_ptr<Thing> staticThing; extern "C" void inj_late_calls() { int late = vp_choose(2, "from a call"); { auto j = make(nullptr, [&](const Do& d) { d.on<Registers>().toEagerSingleton(); d.on<Thing>("long enough a name to live on the heap").toSingleton(); if (late) d.post([](const Injector& i) { i.registerPostConstructionCall([](const Injector&) { callLog.push_back(3); }); }); d.post([](const Injector& i) { std::string n("long enough a name to live on the heap"); i.registerStaticSingleton<Thing>(&staticThing, n); n[0] = 'x'; }); });
    vp_assert((int)std::count(callLog.begin(), callLog.end(), 1) == 1, "a call registered by an eager singleton is made after construction"); vp_assert((int)std::count(callLog.begin(), callLog.end(), 3) == late, "a call registered by a call is made"); vp_assert(staticThing && staticThing == j->getShared<Thing>("long enough a name to live on the heap"), "static singleton registered with the injector"); vp_assert(!std::count(callLog.begin(), callLog.end(), 2), "no call before destruction"); }
  vp_assert((int)std::count(callLog.begin(), callLog.end(), 2) == 1 && !staticThing, "calls at destruction"); vp_reach("done"); }
// iteration over the shared instances of one type
extern "C" void inj_iterate() { unsigned a = vp_choose(6, "first"), b = vp_choose(6, "second"), up = vp_choose(3, "in the parent"); auto ready = std::make_shared<Thing>(); int tl = vp_choose(2, "thread local ones too"), c = vp_choose(2, "const function"), fetched = vp_choose(2, "after a request");
  auto bindOne = [&](const Do& d, unsigned kind, const char* n) { switch (kind) { case 1: d.on<Thing>(n).toSingleton(); break; case 2: d.on<Thing>(n).toEagerSingleton<Derived>(); break; case 3: d.on<Thing>(n).toThreadLocal(); break; case 4: d.on<const Thing>(n).toSingleton(std::shared_ptr<const Thing>(ready)); break; case 5: d.on<Thing>(n).toUniqueProvider([] { return std::unique_ptr<Thing>(new Thing); }); } };
  auto p = make(nullptr, [&](const Do& d) { bindOne(d, up, "a"); d.on<T>("a").toSingleton(std::make_shared<T>(1)); }); auto j = make(p, [&](const Do& d) { bindOne(d, a, "a"); bindOne(d, b, "b"); d.on<T>("b").toSingleton(std::make_shared<T>(2)); d.on<Derived>("a").toSingleton(std::make_shared<Derived>()); });
  std::set<const Thing*> want, seen; auto fetch = [&] { const char* N[] = { "a", "b" }; unsigned k[] = { a, b }; for (int i = 0; i < 2; i++) if (k[i] == 1 || k[i] == 2 || (k[i] == 3 && tl)) want.insert(j->getShared<Thing>(N[i]).get()); }; if (fetched) fetch();
  auto visit = [&](const Thing* t) { vp_assert(t != nullptr && seen.insert(t).second, "each shared instance once"); }; if (c) j->iterate<Thing>(std::function<void(std::shared_ptr<const Thing>)>([&](std::shared_ptr<const Thing> t) { visit(t.get()); }), tl); else if (tl) j->iterate<Thing>(std::function<void(std::shared_ptr<Thing>)>([&](std::shared_ptr<Thing> t) { visit(t.get()); }), true); else j->iterate<Thing>(std::function<void(std::shared_ptr<Thing>)>([&](std::shared_ptr<Thing> t) { visit(t.get()); }));
  if (!fetched) fetch(); vp_assert(seen == want, "exactly the shared instances of the type bound in the injector, thread local ones on demand"); vp_reach(want.empty() ? "none" : "some");
  auto text = j->printBindingsDetailed(), own = j->printBindings(true); vp_assert(text == own, "without dependencies, the detailed text is the plain one"); }
