// The remaining forms of the object trie operations: fluent building, rvalue and comparing forms, node level searches,
// iterators used as values, printing.
#include <memory>
#include <sstream>
#define main_trie_included
#include "trie.cpp"

static std::ostream& operator<<(std::ostream& s, const V& v) { return s << char('a' + v.key); }
static auto byKey = [](const V& a, const V& b) { return a.key == b.key; };
static auto keyIs = [](const V& a, const uint8_t& b) { return a.key == b; };
static auto mix = [](V& a, const V& b) { a.body ^= b.body; };
static auto mixMoved = [](V& a, V&& b) { a.body ^= b.body; };

// the fluent form builds exactly the written tree, below the node it is called on
extern "C" void trie_fluent() {
  Trie t; Model m; build(t, m, symLen(1, "nodes")); int p = vp_choose(m.n.size(), "target"); Node& x = at(t, m, p);
  V a = anyValue(), b = anyValue(), c = anyValue(), d = anyValue(), e = anyValue(); size_t op = vp_choose(7, "form"); Node* r = nullptr; int q = op == 1 || op == 3 || op == 5 ? 0 : p;
  switch (op) {
    case 0: r = &x.add(V(a), Node::child(V(b)), Node::child(V(c), Node::child(V(d), Node::child(V(e))))); break;
    case 1: r = &t.add(V(a), Node::child(V(b)), Node::child(V(c), Node::child(V(d), Node::child(V(e))))); break;
    case 2: r = &x.add(V(a), Node::child(V(b))).add(V(c)).add(d); break;
    case 3: r = &t.add(V(a), Node::child(V(b))).add(V(c)).add(d); break;
    case 4: r = &x.add(a).add(V(b)); break;
    case 5: r = &t.add(a); vp_assert(&t.add(V(b)) == r, "the root is returned"); break;
    default: r = &x.add(V(a), Node::child(V(b), Node::child(V(c)), Node::child(V(d))), Node::child(V(e))); }
  switch (op) { case 0: case 1: { int i = m.add(q, a); m.add(i, b); int j = m.add(i, c); int k = m.add(j, d); m.add(k, e); break; }
    case 2: case 3: { int i = m.add(q, a); m.add(i, b); m.add(q, c); m.add(q, d); break; } case 4: case 5: m.add(q, a); m.add(q, b); break;
    default: { int i = m.add(q, a); int j = m.add(i, b); m.add(j, c); m.add(j, d); m.add(i, e); } }
  vp_assert(r == &at(t, m, q), "the node itself is returned"); vp_assert(same(m, 0, t.root()), "the fluent form appends exactly the written tree"); vp_reach("done"); }

// every remaining add-or-replace form, at node and trie level
extern "C" void trie_replace_forms() {
  Trie t; Model m; build(t, m, symLen(TN - 1, "nodes")); size_t op = vp_choose(20, "operation"); bool top = op >= 9; int p = top ? 0 : vp_choose(m.n.size(), "target"); Node& x = at(t, m, p); V v = anyValue();
  int c = m.find(p, v.key); bool mixed = op == 3 || op == 4 || op == 13 || op == 14 || op == 19 || op == 18; V w = v; if (c >= 0 && mixed) w.body ^= m.n[c].v.body, w.key = m.n[c].v.key;
  const Node* r = nullptr; bool child = true, appended = false;
  switch (op) {
    case 0: r = &x.addOrReplaceAndReturnChild(V(v)); break; case 1: r = &x.addOrReplaceAndReturnChild(v, byKey); break; case 2: r = &x.addOrReplaceAndReturnChild(V(v), byKey); break;
    case 3: r = &x.addOrReplaceAndReturnChild(v, byKey, mix); break; case 4: r = &x.addOrReplaceAndReturnChild(V(v), byKey, mixMoved); break;
    case 5: r = &x.addOrReplaceAndReturnChild(v); break; case 6: r = &x.addAndReturnChild(V(v)); appended = true; break; case 7: r = &x.addOrReplace(V(v)); child = false; break; case 8: r = &x.addOrReplace(V(v), byKey); child = false; break;
    case 9: r = &t.addOrReplace(v); child = false; break; case 10: r = &t.addOrReplace(V(v)); child = false; break; case 11: r = &t.addOrReplace(v, byKey); child = false; break; case 12: r = &t.addOrReplace(V(v), byKey); child = false; break;
    case 13: r = &t.addOrReplace(v, byKey, mix); child = false; break; case 14: r = &t.addOrReplaceAndReturnChild(v, byKey, mix); break;
    case 15: r = &t.addOrReplaceAndReturnChild(v); break; case 16: r = &t.addOrReplaceAndReturnChild(V(v)); break; case 17: r = vp_choose(2, "rvalue") ? &t.addOrReplaceAndReturnChild(V(v), byKey) : &t.addOrReplaceAndReturnChild(v, byKey); break;
    case 18: r = &t.addOrReplaceAndReturnChild(V(v), byKey, mixMoved); break; default: r = &t.addOrReplace(V(v), byKey, mix); child = false; }
  if (appended) c = -1; if (c >= 0) m.n[c].v = w; else c = m.add(p, v), appended = true;
  vp_assert(same(m, 0, t.root()), "the first equal child is replaced, otherwise one child is appended, and nothing else changes"); vp_assert(r == (child ? &at(t, m, c) : &at(t, m, p)), "the returning forms return the child, the fluent forms the node"); vp_reach(appended ? "added" : "replaced"); }

// searching the children of one node, and finding or creating
extern "C" void trie_node_find() {
  Trie t; Model m; build(t, m, symLen(TN, "nodes")); int p = vp_choose(m.n.size(), "target"); Node& x = at(t, m, p); const Node& cx = x; V v = anyValue(); int c = m.find(p, v.key); const Node* want = c < 0 ? nullptr : &at(t, m, c);
  vp_assert(x.find(v) == want && cx.find(v) == want && x.find(v, byKey) == want && cx.find(v, byKey) == want, "the first child with the value, or nothing"); uint8_t key = v.key; vp_assert(x.find(key, keyIs) == want && cx.find(key, keyIs) == want, "searching for a value of another type");
  size_t k = 0; for (const Node* i = cx.begin(); i != cx.end(); ++i, ++k) vp_assert(k < cx.count() && i == &cx[k], "children in order"); vp_assert(k == m.n[p].kids.size(), "every child");
  std::vector<uint8_t> path{key, vp_range<uint8_t>(0, 2, "second")}; int second = -1, first = m.find(0, key); if (first >= 0) second = m.find(first, path[1]); const Trie& ct = t; const Node *exact = second < 0 ? nullptr : &at(t, m, second), *nearest = second >= 0 ? exact : first >= 0 ? &at(t, m, first) : nullptr, *leaf = nearest && nearest->empty() ? nearest : nullptr;
  vp_assert(t.find(path, keyIs) == exact && ct.find(path, keyIs) == exact && t.findNearest(path, keyIs) == nearest && ct.findNearest(path, keyIs) == nearest && t.findNearestLeaf(path, keyIs) == leaf && ct.findNearestLeaf(path, keyIs) == leaf, "the root is skipped unless asked for");
  std::list<uint8_t> l(path.begin(), path.end()); vp_assert(ct.find(l, keyIs) == exact && t.findNearest(l, keyIs) == nearest, "a path in a list");
  size_t op = vp_choose(5, "form"); Node* r = nullptr; uint32_t body = v.body; auto create = [](const uint8_t& k) { return V(k, 77); };
  switch (op) { case 0: r = &x.findOrAddChild(V(v)); break; case 1: r = &x.findOrAddChild(key, keyIs); body = 0; break; case 2: r = &x.findOrAddChild(key, keyIs, create); body = 77; break;
    case 3: r = &x.findOrAddChild(v, byKey, [](const V& v) { return V(v.key, v.body + 1); }); body = v.body + 1; break; default: { r = &t.findOrAdd(path, keyIs, create); int i = first < 0 ? m.add(0, V(key, 77)) : first; c = second < 0 ? m.add(i, V(path[1], 77)) : second; } }
  if (c < 0) c = m.add(p, V(v.key, body)); vp_assert(same(m, 0, t.root()), "exactly the missing nodes are created"); vp_assert(r == &at(t, m, c), "the found or created node is returned"); vp_reach(want ? "found" : "missing"); }

// iterators are values: copies walk on independently, equality is equality of position
template <typename It> static void iteratorValues(It first, It end, size_t n, std::function<const Node*(size_t)> node) {
  std::vector<It> its; It i = first; for (size_t k = 0; k < n; k++) { vp_assert(i != end && !(i == end), "not at the end"); const It& ci = i; vp_assert(&*i == node(k) && &*ci == node(k) && i.operator->() == node(k) && ci.operator->() == node(k), "each node in turn"); its.push_back(i); It& r = ++i; if (k + 1 < n) vp_assert(&r == &i, "incrementing returns the iterator"); else vp_assert(r == end, "incrementing the last position gives the end"); }
  vp_assert(i == end && !(i != end), "the end is reached"); ++i; vp_assert(i == end && first != end, "incrementing the end changes nothing"); for (size_t a = 0; a < n; a++) { for (size_t b = 0; b < n; b++) vp_assert((its[a] == its[b]) == (a == b) && (its[a] != its[b]) == (a != b), "equality is equality of position"); vp_assert(&*its[a] == node(a), "copies stay"); }
  if (n > 1) { It c(its[0]); ++c; vp_assert(c == its[1] && &*its[0] == node(0), "a copy advances alone"); c = its[n - 1]; vp_assert(&*c == node(n - 1), "assignment"); ++c; vp_assert(c == end && its[n - 1] != end, "an assigned iterator advances alone"); } }
extern "C" void trie_iterators() {
  Trie t; Model m; build(t, m, symLen(TN, "nodes")); const Trie& ct = t; std::vector<int> d, b; std::vector<std::vector<int>> anc; std::function<void(int, std::vector<int>)> walk = [&](int i, std::vector<int> up) { up.push_back(i); d.push_back(i); anc.push_back(up); for (int c : m.n[i].kids) walk(c, up); }; walk(0, {}); b.push_back(0); for (size_t i = 0; i < b.size(); i++) for (int c : m.n[b[i]].kids) b.push_back(c);
  auto depth = [&](size_t k) -> const Node* { return &at(t, m, d[k]); }; auto breadth = [&](size_t k) -> const Node* { return &at(t, m, b[k]); }; size_t n = d.size();
  iteratorValues(t.depthBegin(), t.depthEnd(), n, depth); iteratorValues(ct.depthBegin(), ct.depthEnd(), n, depth); iteratorValues(t.breadthBegin(), t.breadthEnd(), n, breadth); iteratorValues(ct.breadthBegin(), ct.breadthEnd(), n, breadth);
  size_t k = 0; for (auto it = ct.begin(); it != ct.end(); ++it, ++k) for (size_t l = 0; l <= anc[k].size(); l++) vp_assert(it.getAncestor(l) == (l < anc[k].size() ? &at(t, m, anc[k][anc[k].size() - 1 - l]) : nullptr), "ancestors, const");
  k = 0; for (auto it = t.begin(); it != t.end(); ++it, ++k) { const auto& ci = it; for (size_t l = 0; l <= anc[k].size(); l++) vp_assert(ci.getAncestor(l) == it.getAncestor(l), "ancestors of a const iterator"); }
  k = 0; for (auto it = t.begin(); it != t.end(); ++it, ++k) it->value.body = k; for (k = 0; k < n; k++) m.n[d[k]].v.body = k; vp_assert(same(m, 0, t.root()), "values are changed through iterators");
  std::ostringstream s; s << ct; std::string text = s.str(); vp_assert(text.size() == 2 * n, "one line for each node"); bool ok = true; for (k = 0; k < n; k++) ok &= (text[2 * k] == char('a' + m.n[b[k]].v.key)) & (text[2 * k + 1] == '\n'); vp_assert(ok, "printed breadth first"); if (n > 2) vp_reach("several"); }

// nodes as values, and tries made from a root value
extern "C" void trie_node_values() {
  Trie t; Model m; build(t, m, symLen(TN - 1, "nodes")); int p = vp_choose(m.n.size(), "node"); Node copy(at(t, m, p)); vp_assert(same(m, p, copy), "a copy of a node is the whole subtree"); copy.value.body++; copy.add(V(5, 5)); vp_assert(same(m, 0, t.root()), "a copy is independent");
  Node moved(std::move(copy)); Model w = m; w.n[p].v.body++; w.add(p, V(5, 5)); vp_assert(same(w, p, moved), "a moved node is the whole subtree"); V rv = anyValue(); size_t op = vp_choose(4, "form"); Trie u(op & 1 ? Trie(V(rv)) : Trie(rv)); vp_assert(u.root().value.key == rv.key && u.root().value.body == rv.body && u.empty() && u.count() == 0, "a trie made from a value has that root and nothing else");
  if (op & 2) u.root() = moved; else u.root() = std::move(moved); vp_assert(same(w, p, u.root()), "assigning a node assigns the subtree"); if (op & 2) vp_assert(same(w, p, moved), "and leaves the source alone"); u.root().add(V(6, 6)); u[0].value.body += 3; const Trie& cu = u; vp_assert(&cu[0] == &u.root()[0] && &cu.root() == &u.root(), "indexing"); vp_assert(same(m, 0, t.root()), "and the origin stays");
  vp_reach(p ? "inner" : "root"); }
