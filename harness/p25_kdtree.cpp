// Monitor for the KD-tree: every rectangle query against a scan of the live items, after every operation.
#include <tuple>
#include "mon.h"
#include "bss-util/KDTree.h"
#include <vector>
#include <set>
using namespace bss;
using mon::Rng;

struct Item
{
  float rect[4];
  LLBase<Item> list;
  KDNode<Item>* node;
  int id;
  int hits;
  bool in;
};
static const float* f_rect(Item* i) { return i->rect; }
static LLBase<Item>& f_list(Item* i) { return i->list; }
static KDNode<Item>*& f_node(Item* i) { return i->node; }
static void f_hit(Item* i) { ++i->hits; }
typedef PolymorphicAllocator<KDNode<Item>, BlockPolicy> PA;
typedef StandardAllocator<KDNode<Item>> SA;

static float coord(Rng& r, int kind)
{
  switch(kind)
  {
  case 0: return (float)r.range(-4, 4);
  case 1: return (float)r.range(-100, 100) * 0.25f;
  case 2: return (float)((r.unit() - 0.5) * 2000.0);
  case 3: return (float)(r.unit() * 0.1 + 0.1);
  default: return (float)((r.unit() - 0.5) * 2e6);
  }
}
static void rect(Rng& r, int kind, float (&o)[4])
{
  if(r.chance(1, 4)) { o[0] = o[2] = coord(r, kind); o[1] = o[3] = coord(r, kind); return; }
  float a = coord(r, kind), b = coord(r, kind), c = coord(r, kind), d = coord(r, kind);
  if(r.chance(2, 3)) { b = a + (b - a) * 0.0625f; d = c + (d - c) * 0.0625f; }
  o[0] = std::min(a, b);
  o[2] = std::max(a, b);
  o[1] = std::min(c, d);
  o[3] = std::max(c, d);
}

template<class A>
static void run(Rng& r, int steps)
{
  typedef KDTree<Item, &f_rect, &f_list, &f_node, A> T;
  int kind = (int)r.below(5);
  uint32_t rb = r.chance(1, 3) ? T::RBTHRESHOLD : r.chance(1, 2) ? (uint32_t)r.below(3) : (uint32_t)r.below(120);
  T* t = rb == T::RBTHRESHOLD ? new T() : new T(rb);
  std::vector<Item*> all;
  std::vector<Item*> pool;
  bool bulk = r.chance(1, 3);     // start with bulk loading
  bool rootonly = bulk;
  mon::op("kdtree kind=%d rb=%u bulk=%d", kind, rb, (int)bulk);
  auto query = [&](float (&q)[4], int form)
  {
    for(auto p : pool) p->hits = 0;
    if(form == 0) t->template Traverse<&f_hit>(q);
    else t->TraverseAction(q, [](Item* i) { ++i->hits; });
    size_t found = 0;
    for(auto p : pool)
    {
      bool want = p->in && p->rect[0] <= q[2] && p->rect[1] <= q[3] && p->rect[2] >= q[0] && p->rect[3] >= q[1];
      CHECK(p->hits == (int)want, want ? "kdtree:missed" : "kdtree:extra", "item %d [%g %g %g %g] (%s) reported %d times for the query [%g %g %g %g]", p->id, p->rect[0], p->rect[1], p->rect[2], p->rect[3], p->in ? "in the tree" : "not in the tree", p->hits, q[0], q[1], q[2], q[3]);
      found += want;
    }
    mon::ev("queries");
    mon::ev("items found", found);
  };
  auto check = [&]()
  {
    for(int k = 0; k < 2; ++k)
    {
      float q[4];
      rect(r, kind, q);
      query(q, (int)r.below(2));
    }
    if(!all.empty())
    { // touching queries: exactly one item's edge
      Item* p = all[r.below(all.size())];
      float q[4] = { p->rect[2], p->rect[3], p->rect[2], p->rect[3] };
      query(q, 0);
      float q2[4] = { p->rect[0], p->rect[1], p->rect[0], p->rect[1] };
      query(q2, 1);
      float q3[4] = { p->rect[2], p->rect[1], p->rect[2] + 1, p->rect[3] };
      query(q3, 0);
    }
    float everything[4] = { -1e9f, -1e9f, 1e9f, 1e9f };
    query(everything, 1);
    for(auto p : pool) p->hits = 0;
    size_t seen = 0;
    t->TraverseAll([&](Item* i) { for(; i; i = i->list.next) { ++i->hits; if(++seen > pool.size() + 4) mon::fail("kdtree:all", "the full traversal does not end"); } });
    for(auto p : pool) CHECK(p->hits == (int)p->in, "kdtree:all", "item %d is visited %d times by the full traversal", p->id, p->hits);
    if(t->GetRoot()) CHECK(t->GetRoot()->num == all.size(), "kdtree:count", "the root counts %u items, expected %zu", t->GetRoot()->num, all.size());
    else CHECK(all.empty(), "kdtree:count", "no root with %zu items", all.size());
    CHECK(t->GetRBThreshold() == rb, "kdtree:threshold", "threshold %u, expected %u", t->GetRBThreshold(), rb);
  };
  auto fresh = [&]() -> Item*
  {
    Item* p = 0;
    for(auto i : pool) if(!i->in && r.chance(1, 3)) { p = i; break; }
    if(!p) { p = new Item(); p->id = (int)pool.size(); pool.push_back(p); }
    if(!all.empty() && r.chance(1, 6)) memcpy(p->rect, all[r.below(all.size())]->rect, sizeof p->rect);
    else rect(r, kind, p->rect);
    p->node = 0;
    p->in = true;
    p->list.next = p->list.prev = 0;
    all.push_back(p);
    return p;
  };
  size_t maxn = r.chance(1, 4) ? 120 : 24;
  bool big = r.chance(1, 120);
  if(big) { maxn = 250 + r.below(1000); bulk = true; mon::ev("large"); }
  if(bulk)
  {
    int n = big ? (int)maxn - 40 : (int)r.below(maxn);
    bool same = r.chance(1, 5);
    for(int i = 0; i < n; ++i)
    {
      Item* p = fresh();
      if(same && i) memcpy(p->rect, all[0]->rect, sizeof p->rect);
      t->InsertRoot(p);
      mon::op("insertroot %d [%g %g %g %g]", p->id, p->rect[0], p->rect[1], p->rect[2], p->rect[3]);
    }
    check();
    mon::op("solve");
    t->Solve();
    mon::ev("bulk loads");
    check();
  }
  for(int s = 0; s < steps; ++s)
  {
    int w = (int)r.below(20);
    if(all.size() >= maxn && w < 10) w = 10;
    if(w < 9)
    {
      Item* p = fresh();
      mon::op("insert %d [%g %g %g %g]", p->id, p->rect[0], p->rect[1], p->rect[2], p->rect[3]);
      t->Insert(p);
      CHECK(p->node != 0, "kdtree:node", "an inserted item belongs to no node");
    }
    else if(w == 9)
    {
      Item* p = fresh();
      mon::op("insertroot %d [%g %g %g %g]", p->id, p->rect[0], p->rect[1], p->rect[2], p->rect[3]);
      t->InsertRoot(p);
    }
    else if(w < 16)
    {
      if(all.empty()) continue;
      size_t k = r.below(all.size());
      Item* p = all[k];
      mon::op("remove %d", p->id);
      t->Remove(p);
      p->in = false;
      all.erase(all.begin() + k);
    }
    else if(w == 16) { mon::op("solve"); t->Solve(); }
    else if(w == 17) { if(t->GetRoot() && !all.empty()) { mon::op("rebalance"); t->Rebalance(r.chance(1, 2) ? t->GetRoot() : all[r.below(all.size())]->node); } }
    else if(w == 18)
    {
      if(r.chance(1, 2))
      {
        mon::op("move");
        T* n;
        if(r.chance(1, 2)) n = new T(std::move(*t));
        else { n = new T(7); Item x[3] = {}; for(auto& i : x) n->Insert(&i); *n = std::move(*t); }
        CHECK(!t->GetRoot(), "kdtree:moved", "a moved-from tree keeps its root");
        delete t;
        t = n;
      }
      else { rb = (uint32_t)r.below(150); mon::op("threshold %u", rb); t->SetRBThreshold(rb); }
    }
    else if(r.chance(1, 6))
    {
      mon::op("clear");
      t->Clear();
      for(auto p : all) p->in = false;
      all.clear();
    }
    if(big && s % 8) continue;
    check();
  }
  delete t;
  for(auto p : pool) delete p;
  mon::ev("histories");
}

void mon_case(Rng& r, uint64_t c)
{
  int steps = 10 + (int)r.below(80);
  if(c & 1) run<PA>(r, steps); else run<SA>(r, steps);
  mon::nontrivial();
}
