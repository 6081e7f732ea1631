// Containers without concurrency: the object trie and the dependency graph, against list and matrix models.
#include "common.hpp"
#include <algorithm>
#include <functional>
#include <list>
#include <queue>
#include <Balau/Container/ObjectTrie.hpp>
using namespace Balau::Container;
#ifndef TN
#define TN 3
#endif
#ifndef TP
#define TP 2
#endif
struct V { uint8_t key = 0; uint32_t body = 0; V() = default; V(uint8_t k, uint32_t b = 0) : key(k), body(b) {} bool operator==(const V& r) const { return key == r.key; } };
using Trie = ObjectTrie<V>; using Node = ObjectTrieNode<V>;
// the model: node 0 is the root; children in order of appending
struct Model { struct N { V v; std::vector<int> kids; }; std::vector<N> n; Model() : n(1) {}
  int add(int p, V v) { n.push_back({v, {}}); n[p].kids.push_back(n.size() - 1); return n.size() - 1; }
  int find(int p, uint8_t k) const { for (int c : n[p].kids) if (n[c].v.key == k) return c; return -1; } };
static bool same(const Model& m, int i, const Node& x) { if (!((x.value.key == m.n[i].v.key) & (x.value.body == m.n[i].v.body))) return false; if (x.count() != m.n[i].kids.size() || x.empty() != m.n[i].kids.empty()) return false; for (size_t k = 0; k < x.count(); k++) if (!same(m, m.n[i].kids[k], x[k])) return false; return true; }
// a trie of up to nodes nodes below the root, every shape, symbolic keys over 0..2 and bodies
static Node& at(Trie& t, const Model& m, int i) { if (i == 0) return t.root(); for (size_t p = 0; p < m.n.size(); p++) for (size_t k = 0; k < m.n[p].kids.size(); k++) if (m.n[p].kids[k] == i) return at(t, m, p)[k]; vp_fail("model"); }
static V anyValue() { V v; v.key = vp_range<uint8_t>(0, 2, "key"); v.body = vp_value<uint32_t>("body"); return v; }
static void build(Trie& t, Model& m, size_t nodes) { V r = anyValue(); t.root().value = r; m.n[0].v = r; for (size_t i = 0; i < nodes; i++) { int p = vp_choose(i + 1, "parent"); V v = anyValue(); Node& c = at(t, m, p).addAndReturnChild(v); vp_assert(c.value.body == v.body && c.empty(), "the new child is returned"); m.add(p, v); } }

extern "C" void trie_find() { Trie t; Model m; build(t, m, symLen(TN, "nodes")); const Trie& ct = t; size_t n = symLen(0, TP, "path"); std::vector<V> path; for (size_t i = 0; i < n; i++) path.push_back(anyValue()); bool skip = vp_choose(2, "skip root");
  int exact = -1, nearest = -1; if (n) { size_t i = 0; int cur = 0; bool ok = true; if (!skip) { ok = m.n[0].v == path[0]; if (ok) nearest = 0; i = 1; } if (ok) { for (; i < n; i++) { int c = m.find(cur, path[i].key); if (c < 0) break; cur = nearest = c; } if (i == n) exact = cur; } }
  auto is = [&](const Node* p, int i) { return i < 0 ? p == nullptr : p == &at(t, m, i); };
  vp_assert(is(t.find(path, skip), exact) && is(ct.find(path, skip), exact), "find returns the exact node or nothing");
  vp_assert(is(t.findNearest(path, skip), nearest) && is(ct.findNearest(path, skip), nearest), "findNearest returns the deepest matching node");
  int leaf = nearest >= 0 && m.n[nearest].kids.empty() ? nearest : -1; vp_assert(is(t.findNearestLeaf(path, skip), leaf) && is(ct.findNearestLeaf(path, skip), leaf), "findNearestLeaf returns a leaf or nothing");
  auto byKey = [](const V& a, const V& b) { return a.key == b.key; }; vp_assert(is(t.find(path, byKey, skip), exact) && is(ct.findNearest(path, byKey, skip), nearest), "with a comparison function"); vp_assert(same(m, 0, t.root()), "searching changes nothing");
  if (exact > 0) vp_reach("found"); if (nearest >= 0 && exact < 0) vp_reach("nearest only"); }
extern "C" void trie_iterate() { Trie t; Model m; build(t, m, symLen(TN + 1, "nodes")); const Trie& ct = t; std::vector<int> d, b; std::vector<std::vector<int>> anc;
  std::function<void(int, std::vector<int>)> walk = [&](int i, std::vector<int> up) { up.push_back(i); d.push_back(i); anc.push_back(up); for (int c : m.n[i].kids) walk(c, up); }; walk(0, {}); b.push_back(0); for (size_t i = 0; i < b.size(); i++) for (int c : m.n[b[i]].kids) b.push_back(c);
  size_t k = 0; for (auto it = t.begin(); it != t.end(); ++it, ++k) { vp_assert(k < d.size() && &*it == &at(t, m, d[k]), "depth first order"); for (size_t l = 0; l <= anc[k].size(); l++) vp_assert(it.getAncestor(l) == (l < anc[k].size() ? &at(t, m, anc[k][anc[k].size() - 1 - l]) : nullptr), "ancestors"); std::vector<const Node*> as; it.getAncestors(as); vp_assert(as.size() == anc[k].size() && as[0] == &t.root() && as.back() == &*it, "all ancestors"); } vp_assert(k == d.size(), "every node once, depth first");
  k = 0; for (auto it = ct.begin(); it != ct.end(); ++it, ++k) vp_assert(k < d.size() && &*it == &at(t, m, d[k]), "depth first order, const"); vp_assert(k == d.size(), "every node once, depth first, const");
  k = 0; for (auto it = t.breadthBegin(); it != t.breadthEnd(); ++it, ++k) vp_assert(k < b.size() && &*it == &at(t, m, b[k]), "breadth first order"); vp_assert(k == b.size(), "every node once, breadth first");
  k = 0; for (auto it = ct.breadthBegin(); it != ct.breadthEnd(); ++it, ++k) vp_assert(k < b.size() && it->value.body == m.n[b[k]].v.body, "breadth first order, const"); vp_assert(k == b.size(), "every node once, breadth first, const"); if (d.size() > 3) vp_reach("several"); }
extern "C" void trie_children() { Trie t; Model m; build(t, m, symLen(TN, "nodes")); const Node& r = t.root(); size_t k = 0; for (Node& c : t.root()) { vp_assert(k < m.n[0].kids.size() && &c == &t.root()[k], "children in order"); k++; } vp_assert(k == m.n[0].kids.size(), "every child of a node is visited");
  k = 0; for (const Node& c : r) { vp_assert(k < m.n[0].kids.size() && &c == &r[k], "children in order, const"); k++; } vp_assert(k == m.n[0].kids.size(), "every child of a node is visited, const"); vp_assert(t.count() == m.n[0].kids.size() && t.empty() == m.n[0].kids.empty(), "count and empty"); if (k > 1) vp_reach("several"); if (!k) vp_reach("none"); }
extern "C" void trie_replace() { Trie t; Model m; build(t, m, symLen(TN - 1, "nodes")); int p = vp_choose(m.n.size(), "target"); Node& x = at(t, m, p); V v = anyValue(); auto byKey = [](const V& a, const V& b) { return a.key == b.key; }; auto keep = [](V& a, const V& b) { a.body ^= b.body; };
  int c = m.find(p, v.key); int ret = -1; size_t op = vp_choose(9, "operation"); bool xr = op == 4 || op == 8; uint32_t was = c >= 0 ? m.n[c].v.body : 0; if (c >= 0 && op != 5 && op != 6) m.n[c].v = v; if (c >= 0 && xr) m.n[c].v.body = was ^ v.body;
  switch (op) {
    case 0: x.addOrReplace(v); break; case 1: x.addOrReplace(V(v)); break; case 2: x.addOrReplace(v, byKey); break; case 3: x.addOrReplace(V(v), byKey); break; case 4: x.addOrReplace(v, byKey, keep); break;
    case 5: ret = x.findOrAddChild(v).value.body == (c >= 0 ? was : v.body); break; case 6: ret = x.findOrAddChild(v, byKey).value.body == (c >= 0 ? was : v.body); break;
    case 7: ret = x.addOrReplaceAndReturnChild(v).value.body == v.body; break; default: ret = x.addOrReplaceAndReturnChild(V(v), byKey, keep).value.body == (c >= 0 ? was ^ v.body : v.body); }
  if (c < 0) m.add(p, v); vp_assert(ret != 0, "the child with the value is returned"); vp_assert(same(m, 0, t.root()), "the first equal child is replaced, otherwise one child is appended, and nothing else changes"); vp_reach(c >= 0 ? "replaced" : "added"); }
extern "C" void trie_find_or_add() { Trie t; Model m; build(t, m, symLen(TN - 1, "nodes")); size_t n = symLen(0, TP + 1, "path"); std::vector<V> path; for (size_t i = 0; i < n; i++) path.push_back(anyValue()); int cur = 0; bool added = false; size_t before = m.n.size(); size_t op = vp_choose(3, "form"); auto byKey = [](const V& a, const V& b) { return a.key == b.key; };
  for (auto& v : path) { int c = m.find(cur, v.key); if (c < 0) { V w = v; if (op == 2) w.body += 7; c = m.add(cur, w); added = true; } cur = c; }
  Node& r = op == 0 ? t.findOrAdd(path) : op == 1 ? t.findOrAdd(path, byKey) : t.findOrAdd(path, byKey, [](const V& v) { return V(v.key, v.body + 7); });
  vp_assert(same(m, 0, t.root()), "exactly the missing nodes are created"); vp_assert(&r == &at(t, m, cur), "the node at the end of the path is returned"); if (added && m.n.size() - before > 1) vp_reach("created"); if (!added && n) vp_reach("found"); }
extern "C" void trie_cascade() { Trie t, s; Model m, w; build(t, m, symLen(2, "nodes")); build(s, w, symLen(2, "source nodes")); size_t op = vp_choose(4, "form"); uint32_t mark = op >= 2 ? 1000 : 0; bool hit = m.n[0].v == w.n[0].v;
  std::function<void(int, int)> go = [&](int a, int b) { for (int c : w.n[b].kids) { V v = w.n[c].v; v.body += mark; int e = m.find(a, v.key); if (e >= 0) m.n[e].v = v; else e = m.add(a, v); go(e, c); } }; if (hit) { m.n[0].v = w.n[0].v; m.n[0].v.body += mark; go(0, 0); }
  switch (op) { case 0: t.cascade(s); break; case 1: t.cascade(std::move(s)); break; case 2: t.cascade(s, [](const V& v) { return V(v.key, v.body + 1000); }); break; default: t.cascade(std::move(s), [](V& v) { return V(v.key, v.body + 1000); }); }
  vp_assert(same(m, 0, t.root()), "cascading replaces the matching nodes, adds the others and changes nothing when the roots differ"); if (op == 0 || op == 2) vp_assert(same(w, 0, s.root()), "copying leaves the source alone"); vp_reach(hit ? "cascaded" : "roots differ"); }
extern "C" void trie_copy() { Trie t; Model m; build(t, m, symLen(TN, "nodes")); size_t op = vp_choose(4, "form"); Trie u(V(9, 9)); if (op & 2) u.add(V(8, 8)); Model before = m;
  if (op == 0 || op == 2) { u = t; V v = anyValue(); u.add(v); m.add(0, v); vp_assert(same(before, 0, t.root()), "a copy is independent of the original"); vp_assert(same(m, 0, u.root()), "a copy is equal to the original"); Trie w(t); w.root().value.body++; vp_assert(same(before, 0, t.root()), "a copy is independent of the original"); }
  else { u = std::move(t); vp_assert(same(m, 0, u.root()), "a moved trie is the original"); Trie w(std::move(u)); vp_assert(same(m, 0, w.root()), "a moved trie is the original"); } vp_reach("done"); }
