// The dependency graph against a matrix model: every graph of a few vertices and every sequence of a few operations.
#include "common.hpp"
#include <functional>
#include <list>
#include <set>
#include <Balau/Container/DependencyGraph.hpp>
using namespace Balau; using namespace Balau::Container;
#ifndef GN
#define GN 3
#endif
#ifndef GOPS
#define GOPS 2
#endif
using Graph = DependencyGraph<int>;
struct M { bool has[5] = {}; bool e[5][5] = {}; int n() const { int c = 0; for (bool b : has) c += b; return c; }
  bool reach(int a, int b) const { bool r[5] = {}; for (int i = 0; i < 5; i++) r[i] = e[a][i]; for (int k = 0; k < 5; k++) for (int i = 0; i < 5; i++) if (r[i]) for (int j = 0; j < 5; j++) r[j] |= e[i][j]; return r[b]; }
  bool cyclic() const { for (int i = 0; i < 5; i++) if (reach(i, i)) return true; return false; }
  int level(int v) const { int l = 0; for (int i = 0; i < 5; i++) if (e[i][v]) l = std::max(l, level(i) + 1); return l; } };
static int vid(int i) { return 10 * i + 3; } // the vertex objects
static void check(Graph& g, const M& m) { const Graph& c = g;
  for (int i = 0; i < 5; i++) { vp_assert(c.hasDependency(vid(i)) == m.has[i], "exactly the added dependencies are present"); auto* p = c.lookupDependency(vid(i)); vp_assert((p != nullptr) == m.has[i] && (!p || *p == vid(i)), "lookup finds exactly the dependencies");
    if (m.has[i]) { auto d = c.directDependenciesOf(vid(i)); int want = 0; for (int j = 0; j < 5; j++) want += m.e[j][i]; vp_assert((int)d.size() == want, "direct dependencies: number"); for (int j = 0; j < 5; j++) if (m.e[j][i]) vp_assert(std::count(d.begin(), d.end(), vid(j)) == 1, "direct dependencies: each once"); } }
  std::vector<std::pair<int, int>> ce; ce.emplace_back(-1, -1); bool cyc = m.cyclic(); vp_assert(c.hasCycles() == cyc && c.hasCycles(ce) == cyc, "cycles are detected exactly"); vp_assert((ce.size() > 1) == cyc && ce[0].first == -1, "an edge is reported when there is a cycle");
  for (size_t k = 1; k < ce.size(); k++) { int a = (ce[k].first - 3) / 10, b = (ce[k].second - 3) / 10; vp_assert(m.e[a][b] && (a == b || m.reach(b, a)), "a reported edge is part of a cycle"); }
  if (!cyc) { auto o = c.dependencyOrder(); vp_assert((int)o.size() == m.n(), "the order has every dependency once"); int pos[5]; for (int i = 0; i < 5; i++) { pos[i] = -1; for (size_t k = 0; k < o.size(); k++) if (o[k] == vid(i)) { vp_assert(pos[i] < 0, "the order has every dependency once"); pos[i] = k; } vp_assert((pos[i] >= 0) == m.has[i], "the order has every dependency"); } for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) if (m.e[i][j]) vp_assert(pos[i] < pos[j], "dependencies come before their dependents");
    auto l = c.parallelDependencyOrder(); int n = 0; for (size_t k = 0; k < l.size(); k++) for (int x : l[k]) { vp_assert(m.level((x - 3) / 10) == (int)k, "each dependency is in the earliest possible step"); n++; } vp_assert(n == m.n(), "the steps contain every dependency once"); }
  else { bool threw = false; try { c.dependencyOrder(); } catch (const boost::not_a_dag&) { threw = true; } vp_assert(threw, "a cyclic graph has no dependency order"); vp_reach("cyclic"); }
  std::set<int> seen; for (auto it = g.begin(); it != g.end(); ++it) { vp_assert(seen.insert(*it).second, "iteration visits each dependency once"); } vp_assert((int)seen.size() == m.n(), "iteration visits every dependency"); seen.clear(); for (auto it = c.begin(); it != c.end(); it++) seen.insert(*it); vp_assert((int)seen.size() == m.n(), "const iteration visits every dependency"); }
extern "C" void graph_shapes() { Graph g; M m; size_t n = symLen(GN, "vertices"); for (size_t i = 0; i < n; i++) { g.addDependency(vid(i)); m.has[i] = true; } for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (n <= 3 || i != j) { if ((i == j && n > 2) || !vp_choose(2, "edge")) continue; g.addRelationship(vid(i), vid(j)); m.e[i][j] = true; } check(g, m); if (n == GN) vp_reach("largest"); }
extern "C" void graph_ops() { Graph g; M m; for (int i = 0; i < 3; i++) { g.addDependency(vid(i)); m.has[i] = true; } size_t shape = vp_choose(4, "shape"); auto rel = [&](int a, int b) { g.addRelationship(vid(a), vid(b)); m.e[a][b] = true; }; if (shape & 1) rel(0, 1); if (shape & 2) { rel(1, 2); rel(0, 2); }
  for (int k = 0; k < GOPS; k++) { int a = vp_choose(4, "first"); bool threw = false, exists = false; size_t op = vp_choose(6, "operation"); int b = op >= 4 ? (int)vp_choose(4, "second") : 0;
    try { switch (op) { case 0: g.addDependency(vid(a)); break; case 1: g.addDependency(vid(a), false); break; case 2: g.removeDependency(vid(a)); break; case 3: g.removeDependency(vid(a), false); break; case 4: g.addRelationship(vid(a), vid(b)); break; default: g.removeRelationship(vid(a), vid(b)); } } catch (const Exception::ItemExistsException<int>& e) { vp_assert(e.item == vid(a), "the exception names the item"); threw = exists = true; } catch (const Exception::ItemDoesNotExistException<int>& e) { vp_assert(e.item == vid(a) || e.item == vid(b), "the exception names the item"); threw = true; }
    vp_assert(exists == (op == 0 && m.has[a]), "adding an existing item throws"); vp_assert((threw && !exists) == ((op == 2 && !m.has[a]) || (op >= 4 && !(m.has[a] && m.has[b]))), "using a missing item throws"); if (threw) { vp_reach("threw"); }
    else switch (op) { case 0: case 1: m.has[a] = true; break; case 2: case 3: m.has[a] = false; for (int i = 0; i < 5; i++) m.e[a][i] = m.e[i][a] = false; break; case 4: m.e[a][b] = true; break; default: m.e[a][b] = false; } }
  check(g, m); }
struct Edge { unsigned w = 0; };
extern "C" void graph_edge_data() { DependencyGraph<int, Edge> g; for (int i = 0; i < 3; i++) g.addDependency(vid(i)); bool has[3][3] = {}; unsigned w[3][3] = {}; for (int k = 0; k < 2; k++) { int a = vp_choose(3, "first"), b = vp_choose(3, "second"); if (has[a][b]) continue; Edge e; e.w = vp_value<unsigned>("weight"); g.addRelationship(vid(a), vid(b), e); has[a][b] = true; w[a][b] = e.w; } if (vp_choose(2, "remove")) { g.removeDependency(vid(0)); for (int i = 0; i < 3; i++) has[0][i] = has[i][0] = false; }
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { bool none = false; Edge e; if (!g.hasDependency(vid(a)) || !g.hasDependency(vid(b))) continue; try { e = g.getRelation(vid(a), vid(b)); } catch (const Exception::RelationshipDoesNotExistException<int, int>&) { none = true; } vp_assert(none == !has[a][b] && (none || e.w == w[a][b]), "the data of a relationship is the data it was added with"); } size_t n = 0; for (auto it = g.begin(); it != g.end(); ++it) n++; vp_assert(n == 3 || !g.hasDependency(vid(0)), "iteration"); vp_reach("done"); }
// iterators are values: copies walk on independently, assignment takes the position and the graph, equality is equality of position
template <class G, class It> static void iterators(G& g, const Graph& other, size_t n, std::function<It()> otherBegin) {
  std::vector<It> its; std::vector<int> seen; It i = g.begin(); while (i != g.end()) { vp_assert(!(i == g.end()), "not at the end"); its.push_back(i); const It& ci = i; vp_assert(*ci == *i && i.operator->() == ci.operator->() && *ci.operator->() == *i, "a const iterator refers to the same dependency"); int here = *i; if (vp_choose(2, "post increment")) { It old = i++; vp_assert(*old == here && old == its.back(), "post increment returns the old position"); } else { It& r = ++i; vp_assert(&r == &i, "pre increment returns the iterator"); } seen.push_back(here); }
  vp_assert(seen.size() == n && std::set<int>(seen.begin(), seen.end()).size() == n, "every dependency once"); for (size_t a = 0; a < n; a++) { vp_assert(*its[a] == seen[a], "copies stay where they were"); for (size_t b = 0; b < n; b++) vp_assert((its[a] == its[b]) == (a == b) && (its[a] != its[b]) == (a != b), "equality is equality of position"); }
  if (n) { It c(its[0]); c = its[n - 1]; vp_assert(*c == seen[n - 1] && *its[0] == seen[0], "assignment takes the position"); ++c; vp_assert(c == g.end() && its[n - 1] != g.end(), "an assigned iterator advances alone"); c = otherBegin(); vp_assert(*c == 1003, "and the graph"); vp_reach("some"); } else vp_reach("none"); }
extern "C" void graph_iterators() { Graph g, o; size_t n = symLen(GN, "vertices"); for (size_t k = 0; k < n; k++) g.addDependency(vid(k)); o.addDependency(1003); const Graph &cg = g, &co = o; if (n && vp_choose(2, "removal")) { g.removeDependency(vid(vp_choose(n, "removed"))); n--; } if (n > 1) { auto i = g.begin(); int a = *i++; g.addRelationship(a, *i); }
  if (vp_choose(2, "const")) iterators<const Graph, Graph::const_iterator>(cg, o, n, [&] { return co.begin(); }); else iterators<Graph, Graph::iterator>(g, o, n, [&] { return o.begin(); }); }
