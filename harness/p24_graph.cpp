// Monitor for graphs, flows and disjoint sets: structure against a multiset of edges, searches against distances,
// flows against an independent augmenting-path solver, sets against naive labels.
#include "mon.h"
#include "bss-util/Graph.h"
#include <map>
#include <set>
#include <vector>
#include <deque>
#include <functional>
using namespace bss;
using mon::Rng;
using internal::__edge_MaxFlow;
using internal::__vertex_Demand;
using internal::__edge_LowerBound;

// ---------------------------------------------------------------- structure
struct MEdge { int from, to, val; };
template<class CT, bool MAT>
struct GraphHist
{
  typedef Graph<int, int, CT> G;
  typedef Edge<int, CT> E;
  G* g;
  std::map<CT, int> nodes; // id -> value
  std::vector<CT> order;   // insertion order, as iterated
  std::map<E*, MEdge> edges;
  std::vector<E*> elist; // in creation order, so that choices do not depend on addresses
  static bool isedge(const int* p) { return *p != 0; }

  void check()
  {
    CHECK((size_t)g->NumNodes() == nodes.size(), "graph:count", "%zu nodes, expected %zu", (size_t)g->NumNodes(), nodes.size());
    CHECK((size_t)g->NumEdges() == edges.size(), "graph:count", "%zu edges, expected %zu", (size_t)g->NumEdges(), edges.size());
    std::vector<CT> got;
    for(CT i = g->Front(); i != (CT)-1; g->GetNodes().Next(i)) { got.push_back(i); if(got.size() > nodes.size()) mon::fail("graph:nodes", "iteration yields more nodes than exist"); }
    CHECK(got == order, "graph:nodes", "iteration order differs (%zu of %zu)", got.size(), order.size());
    if(order.size()) { CHECK(g->Back() == order.back(), "graph:back", "last node is %d, expected %d", (int)g->Back(), (int)order.back()); }
    else CHECK(g->Front() == (CT)-1 && g->Back() == (CT)-1, "graph:empty", "an empty graph has ends");
    size_t k = 0;
    for(auto& n : *g) { CHECK(k < order.size() && n.data == nodes[order[k]], "graph:value", "node %zu in range iteration", k); ++k; }
    const G& cg = *g;
    k = 0;
    for(auto& n : cg) { CHECK(n.data == nodes[order[k]], "graph:value", "node %zu in const iteration", k); ++k; }
    size_t out = 0, in = 0;
    for(CT i : order)
    {
      E* prev = 0;
      for(E* e = cg[i].to; e; prev = e, e = e->next)
      {
        auto it = edges.find(e);
        CHECK(it != edges.end(), "graph:edges", "node %d lists an edge that was removed", (int)i);
        CHECK(e->prev == prev && e->from == i && it->second.from == (int)i && e->to == (CT)it->second.to && e->data == it->second.val, "graph:edges", "outgoing edge of %d is %d->%d (%d), expected %d->%d (%d)", (int)i, (int)e->from, (int)e->to, e->data, it->second.from, it->second.to, it->second.val);
        if(++out > edges.size()) mon::fail("graph:edges", "outgoing lists hold more edges than exist");
      }
      prev = 0;
      for(E* e = (*g)[i].from; e; prev = e, e = e->alt.next)
      {
        auto it = edges.find(e);
        CHECK(it != edges.end(), "graph:edges", "node %d lists an incoming edge that was removed", (int)i);
        CHECK(e->alt.prev == prev && e->to == i && it->second.to == (int)i, "graph:edges", "incoming edge of %d is %d->%d", (int)i, (int)e->from, (int)e->to);
        if(++in > edges.size()) mon::fail("graph:edges", "incoming lists hold more edges than exist");
      }
    }
    CHECK(out == edges.size() && in == edges.size(), "graph:edges", "%zu outgoing and %zu incoming edges listed, expected %zu", out, in, edges.size());
  }
  void matrix(Rng& r)
  {
    size_t n = nodes.size();
    CHECK((size_t)g->ToMatrix(0, 0) == n, "graph:matrix", "ToMatrix reports %zu", (size_t)g->ToMatrix(0, 0));
    if(!n) return;
    int* m = (int*)calloc(n * n, sizeof(int)); // exact sizes so that ASan sees every overrun
    int* v = (int*)malloc(n * sizeof(int));
    CT len = g->ToMatrix(m, v);
    CHECK((size_t)len == n, "graph:matrix", "ToMatrix returned %zu", (size_t)len);
    std::map<CT, size_t> pos;
    for(size_t i = 0; i < n; ++i) { pos[order[i]] = i; CHECK(v[i] == nodes[order[i]], "graph:matrix-vertex", "vertex %zu of the matrix is %d, expected %d", i, v[i], nodes[order[i]]); }
    std::map<std::pair<size_t, size_t>, std::set<int>> want;
    for(auto& e : edges) want[{ pos[(CT)e.second.from], pos[(CT)e.second.to] }].insert(e.second.val);
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j)
      {
        auto it = want.find({ i, j });
        if(it == want.end()) CHECK(m[i * n + j] == 0, "graph:matrix", "cell %zu,%zu is %d for an absent edge", i, j, m[i * n + j]);
        else CHECK(it->second.count(m[i * n + j]), "graph:matrix", "cell %zu,%zu is %d, which is no edge's value", i, j, m[i * n + j]);
      }
    mon::ev("matrices");
    // rebuild a graph from the matrix and compare it with the one it came from (parallel edges collapse)
    {
      G h;
      h.template FromMatrix<&isedge>((CT)n, m, v);
      CHECK((size_t)h.NumNodes() == n && (size_t)h.NumEdges() == want.size(), "graph:frommatrix", "rebuilt graph has %zu nodes and %zu edges, expected %zu and %zu", (size_t)h.NumNodes(), (size_t)h.NumEdges(), n, want.size());
      int* m2 = (int*)calloc(n * n, sizeof(int));
      int* v2 = (int*)malloc(n * sizeof(int));
      h.ToMatrix(m2, v2);
      CHECK(!memcmp(m, m2, n * n * sizeof(int)) && !memcmp(v, v2, n * sizeof(int)), "graph:frommatrix", "matrix changed in a round trip");
      free(m2);
      free(v2);
    }
    free(m);
    free(v);
  }
  void run(Rng& r, int steps)
  {
    int init = r.chance(1, 2) ? 0 : (int)r.below(6);
    if(!init) g = new G();
    else if(r.chance(1, 2))
    {
      std::vector<int> vals;
      for(int i = 0; i < init; ++i) vals.push_back(1 + (int)r.below(99));
      g = new G((CT)init, vals.data());
      for(int i = 0; i < init; ++i) { nodes[(CT)i] = vals[i]; order.push_back((CT)i); }
    }
    else
    {
      g = new G((CT)init);
      for(int i = 0; i < init; ++i) { nodes[(CT)i] = 0; order.push_back((CT)i); }
    }
    mon::op("graph init=%d ct=%zu", init, sizeof(CT));
    check();
    for(int s = 0; s < steps; ++s)
    {
      switch(r.below(13))
      {
      case 12:
      {
        G* h;
        bool as = r.chance(1, 2);
        mon::op("move %d", (int)as);
        if(as)
        {
          h = new G();
          int a = h->AddNode();
          h->AddEdge((CT)a, (CT)h->AddNode());
          *h = std::move(*g);
        }
        else h = new G(std::move(*g));
        CHECK(g->NumNodes() == 0 && g->NumEdges() == 0 && g->Front() == (CT)-1, "graph:moved", "a moved-from graph keeps its contents");
        delete g;
        g = h;
        break;
      }
      case 0: case 1:
      {
        if(nodes.size() > 60) break;
        int v = 1 + (int)r.below(1000);
        CT id = r.chance(1, 6) ? (v = 0, g->AddNode()) : g->AddNode(&v);
        mon::op("node %d -> %d", v, (int)id);
        CHECK(!nodes.count(id), "graph:addnode", "new node reuses the id %d of an existing one", (int)id);
        nodes[id] = v;
        order.push_back(id);
        break;
      }
      case 2: case 3: case 4: case 5: case 6:
      {
        if(order.empty() || edges.size() > 200) break;
        CT a = order[r.below(order.size())], b = r.chance(1, 8) ? a : order[r.below(order.size())];
        int v = 1 + (int)r.below(1000);
        E* e;
        if(r.chance(1, 4)) { e = g->AddEdge(a, b); e->data = v; }
        else e = g->AddEdge(a, b, &v);
        mon::op("edge %d->%d %d", (int)a, (int)b, v);
        CHECK(!edges.count(e), "graph:addedge", "a new edge has the address of a live one");
        edges[e] = { (int)a, (int)b, v };
        elist.push_back(e);
        break;
      }
      case 7: case 8:
      {
        if(edges.empty()) break;
        size_t k = r.below(elist.size());
        auto it = edges.find(elist[k]);
        elist.erase(elist.begin() + k);
        mon::op("remove edge %d->%d", it->second.from, it->second.to);
        g->RemoveEdge(it->first);
        edges.erase(it);
        break;
      }
      case 9:
      {
        if(order.empty()) break;
        size_t k = r.below(order.size());
        CT id = order[k];
        mon::op("remove node %d", (int)id);
        g->RemoveNode(id);
        order.erase(order.begin() + k);
        nodes.erase(id);
        for(auto it = edges.begin(); it != edges.end();) { if(it->second.from == (int)id || it->second.to == (int)id) it = edges.erase(it); else ++it; }
        for(size_t k2 = 0; k2 < elist.size();) { if(!edges.count(elist[k2])) elist.erase(elist.begin() + k2); else ++k2; }
        break;
      }
      case 10: matrix(r); break;
      case 11:
        if(order.size())
        {
          CT id = order[r.below(order.size())];
          int v = 1 + (int)r.below(1000);
          mon::op("set %d = %d", (int)id, v);
          (*g)[id].data = v;
          nodes[id] = v;
        }
        break;
      }
      check();
    }
    matrix(r);
    mon::ev("graph histories");
    delete g;
  }
};

// ---------------------------------------------------------------- breadth-first search
static std::vector<int> visited;
static size_t stop_after;
static bool visit(uint16_t n) { visited.push_back(n); if(visited.size() > 4096) mon::fail("bfs:revisit", "the search does not terminate"); return visited.size() == stop_after; }
static void run_bfs(Rng& r)
{
  typedef Graph<void, void> G;
  G g;
  std::vector<int> ids;
  int n = 1 + (int)r.below(r.chance(1, 4) ? 40 : 8);
  for(int i = 0; i < n + 3; ++i) ids.push_back(g.AddNode());
  for(int i = 0; i < 3; ++i) { size_t k = r.below(ids.size()); g.RemoveNode(ids[k]); ids.erase(ids.begin() + k); }
  std::map<int, std::vector<int>> adj;
  int m = (int)r.below(r.chance(1, 3) ? n * n + 1 : 3 * n + 1);
  for(int i = 0; i < m; ++i)
  {
    int a = ids[r.below(n)], b = ids[r.below(n)];
    g.AddEdge(a, b, 0);
    adj[a].push_back(b);
    mon::op("edge %d->%d", a, b);
  }
  for(int q = 0; q < 3; ++q)
  {
    int root = ids[r.below(n)];
    std::map<int, int> dist;
    std::deque<int> dq;
    dist[root] = 0;
    dq.push_back(root);
    while(!dq.empty()) { int x = dq.front(); dq.pop_front(); for(int y : adj[x]) if(!dist.count(y)) { dist[y] = dist[x] + 1; dq.push_back(y); } }
    visited.clear();
    stop_after = r.chance(1, 3) ? 1 + r.below(dist.size()) : 100000;
    mon::op("search from %d stop %zu", root, stop_after);
    if(r.chance(1, 2)) BreadthFirstGraph<G, &visit>(g, root);
    else
    {
      uint16_t* queue = (uint16_t*)malloc(g.NumNodes() * sizeof(uint16_t));
      BreadthFirstGraph<G, &visit>(g, root, queue);
      free(queue);
    }
    size_t want = stop_after < dist.size() ? stop_after : dist.size();
    std::set<int> once;
    int d = 0;
    for(int v : visited)
    {
      CHECK(dist.count(v), "bfs:unreachable", "visited %d, which cannot be reached from %d", v, root);
      CHECK(once.insert(v).second, "bfs:revisit", "visited %d twice", v);
      CHECK(dist[v] >= d, "bfs:order", "visited %d at distance %d after distance %d", v, dist[v], d);
      d = dist[v];
    }
    CHECK(visited.size() == want, "bfs:complete", "visited %zu nodes, expected %zu", visited.size(), want);
    CHECK(visited[0] == root, "bfs:root", "search starts at %d instead of %d", visited[0], root);
    mon::ev("searches");
  }
}

// ---------------------------------------------------------------- flows
struct FE { int from, to, cap, flow; };
static int64_t own_maxflow(int n, int s, int t, std::vector<FE> e)
{ // shortest augmenting paths on explicit residuals
  int64_t total = 0;
  for(;;)
  {
    std::vector<int> via(n, -1);
    std::vector<char> seen(n, 0);
    std::deque<int> q;
    q.push_back(s);
    seen[s] = 1;
    while(!q.empty() && !seen[t])
    {
      int x = q.front();
      q.pop_front();
      for(size_t i = 0; i < e.size(); ++i)
      {
        if(e[i].from == x && e[i].cap > e[i].flow && !seen[e[i].to]) { seen[e[i].to] = 1; via[e[i].to] = (int)i * 2; q.push_back(e[i].to); }
        if(e[i].to == x && e[i].flow > 0 && !seen[e[i].from]) { seen[e[i].from] = 1; via[e[i].from] = (int)i * 2 + 1; q.push_back(e[i].from); }
      }
    }
    if(!seen[t]) return total;
    int amt = INT_MAX;
    for(int x = t; x != s;) { FE& f = e[via[x] / 2]; if(via[x] & 1) { amt = std::min(amt, f.flow); x = f.to; } else { amt = std::min(amt, f.cap - f.flow); x = f.from; } }
    for(int x = t; x != s;) { FE& f = e[via[x] / 2]; if(via[x] & 1) { f.flow -= amt; x = f.to; } else { f.flow += amt; x = f.from; } }
    total += amt;
  }
}
template<class CT>
static void run_flow(Rng& r)
{
  typedef Graph<__edge_MaxFlow<int>, int, CT> G;
  G g;
  std::vector<int> ids;
  int n = 2 + (int)r.below(r.chance(1, 5) ? 20 : 7);
  int extra = (int)r.below(3);
  for(int i = 0; i < n + extra; ++i) { int v = i; ids.push_back(g.AddNode(&v)); }
  for(int i = 0; i < extra; ++i) { size_t k = r.below(ids.size()); g.RemoveNode(ids[k]); ids.erase(ids.begin() + k); }
  int m = (int)r.below(r.chance(1, 3) ? n * n + 1 : 2 * n + 2);
  int kind = (int)r.below(3);
  std::map<Edge<__edge_MaxFlow<int>, CT>*, FE> es;
  std::vector<FE> list;
  for(int i = 0; i < m; ++i)
  {
    int a = ids[r.below(n)], b = ids[r.below(n)];
    if(kind == 0 && a == b) continue;
    int cap = (int)r.below(kind == 2 ? 1000000 : 6);
    __edge_MaxFlow<int> e = {};
    e.flow = 0;
    e.capacity = cap;
    e.d.data = i;
    es[g.AddEdge(a, b, &e)] = { a, b, cap, 0 };
    list.push_back({ a, b, cap, 0 });
    mon::op("edge %d->%d cap %d", a, b, cap);
  }
  size_t si = r.below(n), ti = (si + 1 + r.below(n - 1)) % n;
  int s = ids[si], t = ids[ti];
  mon::op("flow %d -> %d over %d nodes", s, t, n);
  MaxFlow_PushRelabel(g, (CT)s, (CT)t);
  int64_t want = own_maxflow(n + extra + 1, s, t, list);
  std::map<int, int64_t> net;
  for(auto& p : es)
  {
    auto* e = p.first;
    CHECK((int)e->from == p.second.from && (int)e->to == p.second.to && e->data.capacity == p.second.cap, "flow:graph", "the solver changed edge %d->%d", p.second.from, p.second.to);
    CHECK(e->data.flow >= 0 && e->data.flow <= e->data.capacity, "flow:capacity", "edge %d->%d carries %d of %d", p.second.from, p.second.to, e->data.flow, e->data.capacity);
    net[p.second.from] -= e->data.flow;
    net[p.second.to] += e->data.flow;
  }
  for(int id : ids) if(id != s && id != t) CHECK(net[id] == 0, "flow:conservation", "node %d keeps %lld", id, (long long)net[id]);
  CHECK(net[t] == want, "flow:value", "flow value %lld, the maximum is %lld", (long long)net[t], (long long)want);
  if(want > 0) mon::ev("positive flows");
  mon::ev("flows");
}
template<class CT>
static void run_circulation(Rng& r)
{
  typedef __edge_MaxFlow<__edge_LowerBound<void>> ED;
  typedef Graph<ED, __vertex_Demand<void>, CT> G;
  G g;
  int n = 2 + (int)r.below(6);
  std::vector<int> ids, dem(64, 0);
  bool lower = r.chance(1, 2);
  struct CE { int from, to, cap, low; Edge<ED, CT>* p; };
  std::vector<CE> es;
  std::vector<int> plan(n, 0); // demands of a hidden feasible circulation, then sometimes perturbed
  int m = (int)r.below(3 * n + 1);
  std::vector<CE> tmp;
  for(int i = 0; i < m; ++i)
  {
    int a = (int)r.below(n), b = (int)r.below(n), cap = (int)r.below(8), low = lower && r.chance(1, 2) ? (int)r.below(cap + 1) : 0;
    int f = low + (int)r.below(cap - low + 1);
    plan[a] -= f;
    plan[b] += f;
    tmp.push_back({ a, b, cap, low, 0 });
  }
  if(r.chance(1, 2)) for(int k = 1 + (int)r.below(3); k > 0; --k) { int a = (int)r.below(n), b = (int)r.below(n), x = (int)r.below(5); plan[a] += x; plan[b] -= x; }
  if(r.chance(1, 8)) plan[r.below(n)] += 1 + (int)r.below(3);
  for(int i = 0; i < n; ++i) { __vertex_Demand<void> v = {}; v.demand = plan[i]; ids.push_back(g.AddNode(&v)); dem[ids[i]] = plan[i]; mon::op("node %d demand %d", ids[i], plan[i]); }
  for(auto& c : tmp)
  {
    ED e = {};
    e.flow = 0;
    e.capacity = c.cap;
    e.d.data.lowerbound = c.low;
    c.from = ids[c.from];
    c.to = ids[c.to];
    c.p = g.AddEdge(c.from, c.to, &e);
    mon::op("edge %d->%d [%d,%d]", c.from, c.to, c.low, c.cap);
  }
  int64_t total = 0, need = 0;
  for(int i = 0; i < n; ++i) total += plan[i];
  // reference: adjust demands by the lower bounds, then ask the independent solver for saturation
  std::vector<int> ad(dem);
  std::vector<FE> list;
  for(auto& c : tmp) { ad[c.from] += c.low; ad[c.to] -= c.low; list.push_back({ c.from, c.to, c.cap - c.low, 0 }); }
  int S = 60, T = 61;
  for(int id : ids) { if(ad[id] < 0) { list.push_back({ S, id, -ad[id], 0 }); } else if(ad[id] > 0) { list.push_back({ id, T, ad[id], 0 }); need += ad[id]; } }
  int64_t want = own_maxflow(64, S, T, list);
  bool feasible = total == 0 && want == need;
  CT s, t;
  if(lower) LowerBound_Circulation(g);
  for(auto& c : tmp) CHECK(c.p->data.capacity == c.cap - c.low, "circulation:lowerbound", "edge %d->%d [%d,%d] was reduced to %d", c.from, c.to, c.low, c.cap, c.p->data.capacity);
  for(int id : ids) CHECK(g[id].data.demand == ad[id], "circulation:demand", "node %d has demand %d after the reduction, expected %d", id, g[id].data.demand, ad[id]);
  int res = Circulation_MaxFlow(g, s, t);
  CHECK(res == total, "circulation:infeasible", "reduction reports %d, demands sum to %lld", res, (long long)total);
  CHECK((int)g.NumNodes() == n + 2, "circulation:nodes", "reduction leaves %d nodes", (int)g.NumNodes());
  MaxFlow_PushRelabel(g, s, t);
  std::map<int, int64_t> net;
  for(auto& c : tmp)
  {
    int f = c.p->data.flow;
    CHECK(f >= 0 && f <= c.cap - c.low, "circulation:capacity", "edge %d->%d carries %d of %d", c.from, c.to, f, c.cap - c.low);
    net[c.from] -= f + c.low;
    net[c.to] += f + c.low;
  }
  int64_t got = 0;
  for(auto* e = g[t].from; e; e = e->alt.next) got += e->data.flow;
  CHECK(got == want, "circulation:value", "reduced flow is %lld, the maximum is %lld", (long long)got, (long long)want);
  g.RemoveNode(s);
  g.RemoveNode(t);
  CHECK((int)g.NumNodes() == n && (int)g.NumEdges() == (int)tmp.size(), "circulation:restore", "removing the terminals leaves %d nodes and %d edges", (int)g.NumNodes(), (int)g.NumEdges());
  if(feasible)
  {
    for(int id : ids) CHECK(net[id] == dem[id], "circulation:demand", "node %d receives %lld, demands %d", id, (long long)net[id], dem[id]);
    mon::ev("feasible circulations");
  }
  else mon::ev("infeasible circulations");
}
static bool nonzero(const char* b) { return *b != 0; }
static void run_adjacency(Rng& r)
{ // plain adjacency matrices
  typedef Graph<void, void> G;
  size_t n = 1 + r.below(9);
  char* m = (char*)malloc(n * n);
  size_t cnt = 0;
  for(size_t i = 0; i < n * n; ++i) { m[i] = r.chance(1, 3); cnt += m[i]; mon::note(m[i]); }
  G g((uint16_t)n, m, 0);
  CHECK((size_t)g.NumEdges() == cnt, "graph:adjacency", "%zu edges from a matrix with %zu", (size_t)g.NumEdges(), cnt);
  char* o = (char*)calloc(n, n);
  g.ToMatrix(o, 0);
  CHECK(!memcmp(m, o, n * n), "graph:adjacency", "adjacency matrix of %zu nodes changed in a round trip", n);
  free(m);
  free(o);
  mon::ev("adjacency matrices");
}

// ---------------------------------------------------------------- disjoint sets
template<class T>
static void run_sets(Rng& r, int steps)
{
  typedef DisjointSet<T> D;
  size_t n = r.chance(1, 8) ? 0 : 1 + r.below(r.chance(1, 4) ? 100 : 12);
  bool big = r.chance(1, 60);
  if(big) { n = 200 + r.below(1500); mon::ev("large disjoint sets"); }
  D* d = new D((T)n);
  std::vector<int> lab(n);
  for(size_t i = 0; i < n; ++i) lab[i] = (int)i;
  mon::op("sets n=%zu t=%zu", n, sizeof(T));
  auto count = [&]() { std::set<int> s(lab.begin(), lab.end()); return s.size(); };
  auto check = [&]()
  {
    CHECK((size_t)d->Length() == lab.size(), "sets:length", "length %zu, expected %zu", (size_t)d->Length(), lab.size());
    CHECK((size_t)d->NumSets() == count(), "sets:count", "%zu sets, expected %zu", (size_t)d->NumSets(), count());
    std::map<int, size_t> rep;
    size_t names = 0;
    for(size_t i = 0; i <= lab.size(); ++i) if(d->IsSetName((T)i)) ++names;
    CHECK(names == count(), "sets:names", "%zu set names for %zu sets", names, count());
    for(size_t q = 0; q < lab.size(); ++q)
    {
      size_t i = (q * 7 + 3) % lab.size();
      if(lab.size() % 7 == 0) i = q;
      size_t f = (size_t)d->Find((T)i);
      CHECK(f < lab.size() && d->IsSetName((T)f) && lab[f] == lab[i], "sets:find", "element %zu is in set %zu", i, f);
      auto it = rep.insert({ lab[i], f });
      CHECK(it.first->second == f, "sets:find", "element %zu is in set %zu, its companion in %zu", i, f, it.first->second);
    }
  };
  check();
  if(big) steps += (int)r.below(600);
  for(int s = 0; s < steps; ++s)
  {
    switch(r.below(big && r.chance(5, 6) ? 5 : 8))
    {
    case 0: case 1: case 2: case 3:
    {
      if(lab.empty()) break;
      T a = (T)r.below(lab.size() + (r.chance(1, 10) ? 3 : 0)), b = (T)r.below(lab.size());
      if(r.chance(2, 3)) { if((size_t)a < lab.size()) a = (T)d->Find(a); b = (T)d->Find(b); }
      bool ok = (size_t)a < lab.size() && d->IsSetName(a) && d->IsSetName(b) && a != b;
      mon::op("union %zu %zu", (size_t)a, (size_t)b);
      bool got = d->Union(a, b);
      CHECK(got == ok, "sets:union", "Union(%zu,%zu) returned %d", (size_t)a, (size_t)b, (int)got);
      if(ok) { int x = lab[a], y = lab[b]; for(auto& l : lab) if(l == y) l = x; mon::ev("unions"); }
      break;
    }
    case 4:
    {
      if(lab.empty()) break;
      T a = (T)r.below(lab.size());
      std::vector<T> want;
      for(size_t i = 0; i < lab.size(); ++i) if(lab[i] == lab[a]) want.push_back((T)i);
      mon::op("elements %zu", (size_t)a);
      CHECK((size_t)d->NumElements(a) == want.size() && (size_t)d->GetElements(a, 0) == want.size(), "sets:elements", "set of %zu has %zu elements, expected %zu", (size_t)a, (size_t)d->NumElements(a), want.size());
      auto p = d->GetElements(a);
      for(size_t i = 0; i < want.size(); ++i) CHECK(p[i] == want[i], "sets:elements", "element %zu of the set is %zu, expected %zu", i, (size_t)p[i], (size_t)want[i]);
      CHECK(d->NumElements((T)lab.size()) == -1 && !d->GetElements((T)lab.size()), "sets:elements", "an element outside the universe has a set");
      break;
    }
    case 5:
    {
      if(!big && lab.size() > 110) break;
      T k = (T)r.below(5);
      mon::op("add %zu", (size_t)k);
      d->AddSets(k);
      for(T i = 0; i < k; ++i) lab.push_back((int)lab.size() + 100000 * (s + 1));
      break;
    }
    case 6:
    {
      int w = (int)r.below(4);
      mon::op("copy/move %d", w);
      if(w == 0) { D* c = new D(*d); if(r.chance(1, 2)) { D* x = d; d = c; c = x; } if(lab.size() > 1) { T a = (T)c->Find(0), b = (T)c->Find((T)(lab.size() - 1)); c->Union(a, b); } delete c; }
      else if(w == 1) { D* c = new D((T)r.below(9)); *c = *d; delete d; d = c; }
      else if(w == 2) { D* c = new D(std::move(*d)); CHECK(d->Length() == 0 && d->NumSets() == 0, "sets:moved", "a moved-from collection keeps sets"); delete d; d = c; }
      else { D* c = new D((T)r.below(9)); *c = std::move(*d); CHECK(d->Length() == 0 && d->NumSets() == 0, "sets:moved", "a moved-from collection keeps sets"); delete d; d = c; }
      break;
    }
    case 7:
      if(r.chance(1, 3)) { mon::op("reset"); d->Reset(); for(size_t i = 0; i < lab.size(); ++i) lab[i] = (int)i; }
      break;
    }
    if(big && s % 8) continue;
    check();
  }
  delete d;
  mon::ev("disjoint-set histories");
}
static void run_mst(Rng& r)
{
  typedef uint32_t T;
  size_t n = 1 + r.below(r.chance(1, 60) ? 600 : r.chance(1, 4) ? 40 : 8);
  size_t m = r.below(3 * n + 1);
  std::vector<std::pair<T, T>> e;
  for(size_t i = 0; i < m; ++i) { e.push_back({ (T)r.below(n), (T)r.below(n) }); mon::op("edge %u-%u", e.back().first, e.back().second); }
  // reference: greedy by position with naive labels; for edges sorted by weight this forest is the minimum one
  std::vector<int> lab(n);
  for(size_t i = 0; i < n; ++i) lab[i] = (int)i;
  std::vector<std::pair<T, T>> want;
  for(auto& p : e) if(lab[p.first] != lab[p.second]) { want.push_back(p); int x = lab[p.first], y = lab[p.second]; for(auto& l : lab) if(l == y) l = x; }
  auto out = DisjointSet<T>::MinSpanningTree((T)n, e.begin(), e.end());
  CHECK(out.Capacity() == want.size(), "mst:size", "forest of %zu edges, expected %zu", (size_t)out.Capacity(), want.size());
  for(size_t i = 0; i < want.size(); ++i) CHECK(out[(T)i] == want[i], "mst:edges", "edge %zu of the forest is %u-%u, expected %u-%u", i, out[(T)i].first, out[(T)i].second, want[i].first, want[i].second);
  mon::ev("spanning trees");
}

void mon_case(Rng& r, uint64_t c)
{
  int steps = 10 + (int)r.below(60);
  switch(c % 8)
  {
  case 0: { GraphHist<uint16_t, true> h; h.run(r, steps); break; }
  case 1: { if(r.chance(1, 2)) { GraphHist<uint8_t, true> h; h.run(r, steps); } else { GraphHist<uint32_t, true> h; h.run(r, steps); } break; }
  case 2: run_bfs(r); break;
  case 3: run_flow<uint16_t>(r); break;
  case 4: if(r.chance(1, 2)) run_flow<uint8_t>(r); else run_flow<uint32_t>(r); break;
  case 5: run_circulation<uint16_t>(r); break;
  case 6: switch(r.below(3)) { case 0: run_sets<uint32_t>(r, steps); break; case 1: run_sets<uint16_t>(r, steps); break; default: run_sets<size_t>(r, steps); } break;
  case 7: run_adjacency(r); run_mst(r); break;
  }
  mon::nontrivial();
}
