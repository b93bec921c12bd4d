// Monitor for the balanced trees: contents, order, neighbour queries, node identity, depth bound, lifetimes.
#include "mon.h"
#include "bss-util/AVLTree.h"
#include "bss-util/AATree.h"
#include "bss-util/TRBtree.h"
#include <map>
#include <set>
#include <vector>
#include <math.h>
using namespace bss;
using mon::Rng;
using mon::Trk;
static int V(int v) { return v; }
static int V(const Trk& v) { return v.get(); }

// ---------------------------------------------------------------- AVL
template<class N> static int avl_height(N* n) { if(!n) return 0; int l = avl_height(n->_left), r = avl_height(n->_right); return 1 + (l > r ? l : r); }

template<class T, class K, class D>
static void avl_check(T& t, const std::map<int, int>& m, int range, Rng& r, const char* nm)
{
  std::vector<std::pair<int, int>> got;
  t.Traverse([&](std::pair<K, D>& kd) { got.push_back({ V(kd.first), V(kd.second) }); if(got.size() > m.size() + 4) mon::fail("avl:contents", "%s: traversal visits more nodes than were inserted (%zu)", nm, m.size()); });
  CHECK(got.size() == m.size(), "avl:contents", "%s: traversal visits %zu nodes, expected %zu", nm, got.size(), m.size());
  bool asc = got.size() < 2 || got[0].first < got[1].first;
  size_t i = 0;
  if(asc) for(auto& p : m) { CHECK(got[i].first == p.first && got[i].second == p.second, "avl:order", "%s: position %zu holds (%d,%d), expected (%d,%d)", nm, i, got[i].first, got[i].second, p.first, p.second); ++i; }
  else for(auto p = m.rbegin(); p != m.rend(); ++p) { CHECK(got[i].first == p->first && got[i].second == p->second, "avl:order", "%s: position %zu holds (%d,%d), expected (%d,%d)", nm, i, got[i].first, got[i].second, p->first, p->second); ++i; }
  int h = avl_height(t.GetRoot());
  CHECK(h <= 1.4405 * log2((double)m.size() + 2) + 0.01, "avl:depth", "%s: depth %d with %zu keys", nm, h, m.size());
  for(int q = 0; q < 6; ++q)
  {
    int k = (int)r.range(-1, range);
    auto it = m.find(k);
    auto* ref = t.GetRef(K(k));
    CHECK((ref != 0) == (it != m.end()), "avl:find", "%s: key %d found=%d", nm, k, (int)(ref != 0));
    if(ref) CHECK(V(*ref) == it->second, "avl:value", "%s: key %d has %d, expected %d", nm, k, V(*ref), it->second);
    CHECK(V(t.Get(K(k), D(-77))) == (it != m.end() ? it->second : -77), "avl:get", "%s: Get(%d)", nm, k);
    auto* n = t.Near(K(k));
    if(m.empty()) { CHECK(!n, "avl:near", "%s: Near on an empty tree", nm); }
    else
    {
      CHECK(n != 0, "avl:near", "%s: Near(%d) found nothing", nm, k);
      int nk = V(n->_key.first);
      auto up = m.lower_bound(k);
      bool ok = it != m.end() ? nk == k : ((up != m.end() && nk == up->first) || (up != m.begin() && nk == std::prev(up)->first));
      CHECK(ok, "avl:near", "%s: Near(%d) is %d, which is not a neighbour", nm, k, nk);
    }
  }
}
template<class K, class D, class Alloc, bool POL>
static void run_avl(Rng& r, int steps, int range)
{
  typedef AVLTree<K, D, CompT<K>, Alloc> T;
  typedef typename internal::AVLTreeDataField<K, D>::Node Node;
  BlockPolicy<Node>* pol[2] = { 0, 0 };
  T* t[2];
  for(int i = 0; i < 2; ++i)
  {
    if constexpr(POL) { pol[i] = new BlockPolicy<Node>(1 + r.below(4)); t[i] = new T(pol[i]); }
    else t[i] = new T();
  }
  std::map<int, int> m[2];
  int bias = (int)r.below(3), seq = 0;
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k, key = bias == 2 ? (seq++ % range) : (int)r.below(range), val = (int)r.below(1000);
    const char* nm = "?";
    int what = (int)r.below(14);
    if(bias == 0 && what >= 5 && what <= 8 && r.chance(1, 2)) what = 0;
    switch(what)
    {
    case 0: case 1: case 2: { nm = "Insert&&"; auto* n = t[k]->Insert(K(key), D(val)); bool has = m[k].count(key); CHECK((n != 0) == !has, "avl:insert", "Insert(%d) returned %p, key %s", key, (void*)n, has ? "present" : "absent"); if(!has) { m[k][key] = val; CHECK(V(n->_key.first) == key, "avl:insert", "Insert returned another node"); } break; }
    case 3: { nm = "Insert&"; D d(val); auto* n = t[k]->Insert(K(key), (const D&)d); bool has = m[k].count(key); CHECK((n != 0) == !has, "avl:insert", "Insert(%d)", key); if(!has) m[k][key] = val; CHECK(V(d) == val, "avl:argument", "Insert changed its argument"); break; }
    case 4: { nm = "InsertKey"; auto* n = t[k]->Insert(K(key)); bool has = m[k].count(key); CHECK((n != 0) == !has, "avl:insert", "Insert(%d)", key); if(!has) { n->_key.second = D(val); m[k][key] = val; } break; }
    case 5: case 6: case 7: case 8: { nm = "Remove"; if(!m[k].empty() && r.chance(2, 3)) { auto it = m[k].lower_bound(key); if(it == m[k].end()) --it; key = it->first; } bool has = m[k].count(key); CHECK(t[k]->Remove(K(key)) == has, "avl:remove", "Remove(%d) returned %d", key, (int)!has); m[k].erase(key); break; }
    case 9: case 10: { nm = "ReplaceKey"; int nk = (int)r.below(range); if(m[k].count(key) && (nk == key || !m[k].count(nk))) { CHECK(t[k]->ReplaceKey(K(key), K(nk)), "avl:replace", "ReplaceKey(%d,%d) failed", key, nk); int v = m[k][key]; m[k].erase(key); m[k][nk] = v; mon::note(nk); } break; }
    case 11: nm = "Clear"; if(r.chance(1, 8)) { t[k]->Clear(); m[k].clear(); } break;
    case 12: nm = "MoveAssign"; if(r.chance(1, 3)) { *t[o] = std::move(*t[k]); m[o] = m[k]; m[k].clear();
      if(POL) { delete t[k]; if(r.chance(1, 2)) { delete pol[o]; pol[o] = pol[k]; pol[k] = new BlockPolicy<Node>(2); } else std::swap(pol[o], pol[k]); if constexpr(POL) t[k] = new T(pol[k]); } } break;
    case 13: nm = "MoveConstruct"; if(r.chance(1, 3)) { T* n = new T(std::move(*t[k])); delete t[k]; t[k] = n; } break;
    }
    mon::op("avl%d %s %d n=%zu", k, nm, key, m[k].size());
    mon::feature(what * 1000 + m[k].size());
    avl_check<T, K, D>(*t[k], m[k], range, r, nm);
    if(what == 12) avl_check<T, K, D>(*t[o], m[o], range, r, nm);
  }
  for(int i = 0; i < 2; ++i) { avl_check<T, K, D>(*t[i], m[i], range, r, "end"); delete t[i]; delete pol[i]; }
}
template<class K>
static void run_avlset(Rng& r, int steps, int range)
{
  typedef typename internal::AVLTreeDataField<K, void>::Node Node;
  AVLTree<K, void, CompT<K>, StandardAllocator<Node>> t;
  std::set<int> m;
  for(int s = 0; s < steps; ++s)
  {
    int key = (int)r.below(range);
    bool has = m.count(key);
    if(r.chance(1, 2)) { CHECK((t.Insert(K(key)) != 0) == !has, "avlset:insert", "Insert(%d)", key); m.insert(key); }
    else { CHECK(t.Remove(K(key)) == has, "avlset:remove", "Remove(%d)", key); m.erase(key); }
    mon::op("avlset %d", key);
    size_t n = 0;
    t.Traverse([&](K& k) { ++n; CHECK(m.count(V(k)), "avlset:contents", "unknown key"); });
    CHECK(n == m.size(), "avlset:contents", "%zu keys, expected %zu", n, m.size());
    int q = (int)r.below(range);
    CHECK((t.GetRef(K(q)) != 0) == (m.count(q) > 0), "avlset:find", "%d", q);
    CHECK(V(t.Get(K(q), K(-5))) == (m.count(q) ? q : -5), "avlset:get", "%d", q);
    int h = avl_height(t.GetRoot());
    CHECK(h <= 1.4405 * log2((double)m.size() + 2) + 0.01, "avlset:depth", "depth %d with %zu keys", h, m.size());
  }
}

// ---------------------------------------------------------------- AA
template<class N> static void aa_walk(N* n, std::vector<int>& out, int depth, int& maxd, size_t limit)
{
  if(!n || n->level == 0) return;
  if(depth > maxd) maxd = depth;
  if(out.size() > limit || depth > 200) mon::fail("aa:contents", "the tree holds more nodes than were inserted (%zu)", limit);
  aa_walk(n->left, out, depth + 1, maxd, limit);
  out.push_back(V(n->data));
  aa_walk(n->right, out, depth + 1, maxd, limit);
}
template<class K, class Alloc>
static void run_aa(Rng& r, int steps, int range)
{
  typedef AATree<K, CompT<K>, Alloc> T;
  T* t = new T();
  std::multiset<int> m;
  int bias = (int)r.below(3), seq = 0;
  for(int s = 0; s < steps; ++s)
  {
    int key = bias == 2 ? (seq++ % range) : (int)r.below(range);
    const char* nm = "?";
    int what = (int)r.below(12);
    if(bias == 0 && what >= 6 && r.chance(1, 2)) what = 0;
    switch(what)
    {
    default: nm = "Insert"; { K kk(key); t->Insert(kk); } m.insert(key); break;
    case 6: case 7: case 8: case 9: case 10:
    { nm = "Remove"; if(!m.empty() && r.chance(2, 3)) { auto it = m.lower_bound(key); if(it == m.end()) --it; key = *it; } else if(r.chance(1, 4)) key = r.chance(1, 2) ? -1 : range; auto it = m.find(key); CHECK(t->Remove(K(key)) == (it != m.end()), "aa:remove", "Remove(%d) returned %d", key, (int)(it == m.end())); if(it != m.end()) m.erase(it); break; }
    case 11: nm = "Clear"; if(r.chance(1, 6)) { t->Clear(); m.clear(); } break;
    }
    mon::op("aa %s %d n=%zu", nm, key, m.size());
    mon::feature(what * 1000 + m.size());
    CHECK(t->IsEmpty() == m.empty() && (t->GetRoot() == 0) == m.empty(), "aa:empty", "%s: IsEmpty %d with %zu", nm, (int)t->IsEmpty(), m.size());
    std::vector<int> out, want(m.begin(), m.end());
    int maxd = 0;
    aa_walk(t->GetRoot(), out, 1, maxd, m.size());
    CHECK(out == want, "aa:contents", "%s: in-order contents differ (%zu of %zu)", nm, out.size(), want.size());
    CHECK(maxd <= 2 * log2((double)m.size() + 1) + 1, "aa:depth", "%s: depth %d with %zu keys", nm, maxd, m.size());
    for(int q = 0; q < 5; ++q)
    {
      int k = (int)r.range(-1, range);
      auto* n = t->Get(K(k));
      CHECK((n != 0) == (m.count(k) > 0), "aa:find", "%s: %d found=%d", nm, k, (int)(n != 0));
      if(n) CHECK(V(n->data) == k, "aa:find", "%s: Get(%d) returned %d", nm, k, V(n->data));
    }
  }
  delete t;
}

// ---------------------------------------------------------------- threaded red-black
template<class N> static int trb_walk(const N* n, int depth, size_t& cnt, const std::set<N*>& nodes)
{
  if(!nodes.count(const_cast<N*>(n))) return depth - 1; // the sentinel
  if(depth > 200) mon::fail("trb:depth", "depth beyond 200");
  ++cnt;
  int l = trb_walk<N>(n->left, depth + 1, cnt, nodes), r = trb_walk<N>(n->right, depth + 1, cnt, nodes);
  return l > r ? l : r;
}
template<class K>
static void trb_check(TRBtree<K>& t, const std::multimap<int, TRB_Node<K>*>& m, int range, Rng& r, const char* nm)
{
  size_t n = 0;
  std::set<TRB_Node<K>*> nodes;
  for(auto& p : m) nodes.insert(p.second);
  TRB_Node<K>* prev = 0;
  for(auto i = t.begin(); i != t.end(); ++i)
  {
    TRB_Node<K>* c = *i;
    CHECK(++n <= m.size() && nodes.count(c), "trb:contents", "%s: iteration reaches a node that was never inserted (%zu of %zu)", nm, n, m.size());
    CHECK(!prev || V(prev->value) <= V(c->value), "trb:order", "%s: %d before %d", nm, V(prev->value), V(c->value));
    CHECK(TRBtree<K>::Validate(c), "trb:validate", "%s: Validate is false for a node in order", nm);
    prev = c;
  }
  CHECK(n == m.size(), "trb:contents", "%s: iteration yields %zu nodes of %zu", nm, n, m.size());
  CHECK(t.Back() == prev && (m.empty() ? !t.Front() : t.Front() == *t.begin()), "trb:ends", "%s: front/back", nm);
  n = 0;
  for(TRB_Node<K>* c = t.Back(); c; c = c->prev) { ++n; if(n > m.size()) break; }
  CHECK(n == m.size(), "trb:backward", "%s: backward iteration yields %zu of %zu", nm, n, m.size());
  for(auto& p : m) CHECK(V(p.second->value) == p.first, "trb:node", "%s: node changed its value", nm);
  size_t cnt = 0;
  int d = trb_walk<TRB_Node<K>>(t.GetRoot(), 1, cnt, nodes);
  CHECK(d <= 2 * log2((double)cnt + 1) + 0.01, "trb:depth", "%s: depth %d with %zu distinct keys", nm, d, cnt);
  CHECK(t.DEBUGVERIFY() >= 0, "trb:verify", "%s: red-black constraints violated", nm);
  for(int q = 0; q < 6; ++q)
  {
    int k = (int)r.range(-1, range);
    auto* g = t.Get(K(k));
    CHECK((g != 0) == (m.count(k) > 0), "trb:find", "%s: %d found=%d", nm, k, (int)(g != 0));
    if(g) CHECK(V(g->value) == k && nodes.count(g), "trb:find", "%s: Get(%d)", nm, k);
    if(!m.empty())
    {
      auto up = m.lower_bound(k);
      int before = m.count(k) ? k : (up == m.begin() ? m.begin()->first : std::prev(up)->first);
      int after = up == m.end() ? m.rbegin()->first : up->first;
      auto* b = t.GetNear(K(k), true);
      auto* a = t.GetNear(K(k), false);
      CHECK(b && nodes.count(b) && V(b->value) == before, "trb:near-before", "%s: nearest at or before %d is %d, expected %d", nm, k, b ? V(b->value) : -1, before);
      CHECK(a && nodes.count(a) && V(a->value) == after, "trb:near-after", "%s: nearest at or after %d is %d, expected %d", nm, k, a ? V(a->value) : -1, after);
    }
  }
}
template<class K>
static void run_trb(Rng& r, int steps, int range)
{
  typedef TRBtree<K> T;
  T* t[2] = { new T(), new T() };
  std::multimap<int, TRB_Node<K>*> m[2];
  int bias = (int)r.below(3), seq = 0;
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k, key = bias == 2 ? (seq++ % range) : (int)r.below(range);
    const char* nm = "?";
    int what = (int)r.below(14);
    if(bias == 0 && what >= 6 && what <= 9 && r.chance(1, 2)) what = 0;
    switch(what)
    {
    default: { nm = "Insert"; K kk(key); auto* n = t[k]->Insert(kk); CHECK(n && V(n->value) == key, "trb:insert", "Insert(%d)", key); m[k].insert({ key, n }); break; }
    case 6: case 7: { nm = "Remove(value)"; if(!m[k].empty() && r.chance(2, 3)) { auto it = m[k].lower_bound(key); if(it == m[k].end()) --it; key = it->first; }
      auto* g = t[k]->Get(K(key)); bool has = m[k].count(key); CHECK(t[k]->Remove(K(key)) == has, "trb:remove", "Remove(%d) returned %d", key, (int)!has);
      if(has) for(auto i = m[k].lower_bound(key); i != m[k].upper_bound(key); ++i) if(i->second == g) { m[k].erase(i); break; }
      break; }
    case 8: case 9: { nm = "Remove(node)"; if(!m[k].empty()) { auto it = m[k].begin(); std::advance(it, r.below(m[k].size())); key = it->first; CHECK(t[k]->Remove(it->second), "trb:remove", "Remove(node %d)", key); m[k].erase(it); } else CHECK(!t[k]->Remove((TRB_Node<K>*)0), "trb:remove", "Remove(null) succeeded"); break; }
    case 10: nm = "Clear"; if(r.chance(1, 8)) { t[k]->Clear(); m[k].clear(); } break;
    case 11: nm = "MoveAssign"; if(r.chance(1, 3)) { *t[o] = std::move(*t[k]); m[o] = m[k]; m[k].clear(); } break;
    case 12: nm = "MoveConstruct"; if(r.chance(1, 3)) { T* n = new T(std::move(*t[k])); std::multimap<int, TRB_Node<K>*> e; trb_check(*t[k], e, range, r, "moved-from"); K kk(key); e.insert({ key, t[k]->Insert(kk) }); trb_check(*t[k], e, range, r, "moved-from"); delete t[k]; t[k] = n; } break;
    case 13: { nm = "Validate"; // a node whose value is pushed out of order is reported as such
      if(m[k].size() > 1) { auto it = m[k].begin(); if(r.chance(1, 2)) { auto* n = t[k]->Front(); int sv = V(n->value); if(V(t[k]->Back()->value) != sv) { n->value = K(range + 5); CHECK(!TRBtree<K>::Validate(n), "trb:validate-bad", "Validate is true for a node out of order"); n->value = K(sv); } } } break; }
    }
    mon::op("trb%d %s %d n=%zu", k, nm, key, m[k].size());
    mon::feature(what * 1000 + m[k].size());
    trb_check(*t[k], m[k], range, r, nm);
    if(what == 11) trb_check(*t[o], m[o], range, r, nm);
  }
  for(int i = 0; i < 2; ++i) { trb_check(*t[i], m[i], range, r, "end"); delete t[i]; }
}

void mon_case(Rng& r, uint64_t c)
{
  bool big = (c % 40) == 17;
  int steps = big ? 700 : 20 + (int)r.below(150);
  int range = big ? 400 : 3 + (int)r.below(60);
  switch(c % 9)
  {
  case 0: run_avl<int, int, StandardAllocator<AVLNode<std::pair<int, int>>>, false>(r, steps, range); mon::ev("avl<int,int>"); break;
  case 1: run_avl<Trk, Trk, StandardAllocator<AVLNode<std::pair<Trk, Trk>>>, false>(r, steps, range); mon::ev("avl<tracked,tracked>"); break;
  case 2: run_avl<int, Trk, PolymorphicAllocator<AVLNode<std::pair<int, Trk>>, BlockPolicy>, true>(r, steps, range); mon::ev("avl<int,tracked,pool>"); break;
  case 3: run_avlset<int>(r, steps, range); mon::ev("avl<int>"); break;
  case 4: run_avlset<Trk>(r, steps, range); mon::ev("avl<tracked>"); break;
  case 5: run_aa<int, StandardAllocator<AANODE<int>>>(r, steps, range); mon::ev("aa<int>"); break;
  case 6: run_aa<Trk, StandardAllocator<AANODE<Trk>>>(r, steps, range); mon::ev("aa<tracked>"); break;
  case 7: run_trb<int>(r, steps, range); mon::ev("trb<int>"); break;
  case 8: run_trb<Trk>(r, steps, range); mon::ev("trb<tracked>"); break;
  }
  mon::nontrivial();
}
