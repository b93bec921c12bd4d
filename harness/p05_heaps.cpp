// Monitor for the heaps and priority queues: what comes out is what went in, in priority order, whatever was changed between.
#include "mon.h"
#include "bss-util/BinaryHeap.h"
#include "bss-util/PriorityQueue.h"
#include <vector>
#include <map>
#include <set>
#include <algorithm>
using namespace bss;
using mon::Rng;
template<class T> static int V(const T& t) { return (int)t; }
static int big = 0; // elements to start with; when large, everything is compared every 16 operations only

template<class T, class CT, ARRAY_TYPE AT, bool MIN>
static void run_heap(Rng& r, int steps, int range)
{
  typedef BinaryHeap<T, CT, MIN ? CompTInv<T> : CompT<T>, AT> H;
  H* h[2] = { new H(), new H() };
  std::multiset<int> m[2];
  auto top = [](std::multiset<int>& s) { return MIN ? *s.begin() : *s.rbegin(); };
  auto check = [&](H& x, std::multiset<int>& mm, const char* nm) {
    CHECK((size_t)x.Length() == mm.size() && x.Empty() == mm.empty(), "heap:length", "%s: length %zu, expected %zu", nm, (size_t)x.Length(), mm.size());
    if(!mm.empty()) CHECK(V(x.Peek()) == top(mm), "heap:peek", "%s: Peek is %d, best is %d (of %zu)", nm, V(x.Peek()), top(mm), mm.size());
    std::multiset<int> got;
    for(const T* p = x.begin(); p != x.end(); ++p) got.insert(V(*p));
    const H& cx = x;
    CHECK(x.end() - x.begin() == (ptrdiff_t)mm.size() && cx.end() - cx.begin() == (ptrdiff_t)mm.size() && (mm.empty() || ((T*)x == x.begin() && (const T*)cx == cx.begin())), "heap:iterate", "%s: begin/end", nm);
    CHECK(got == mm, "heap:contents", "%s: the stored values are not the inserted ones", nm);
  };
  for(int i = 0; i < big; ++i) { int q = (int)r.range(0, range); h[0]->Insert(T(q)); m[0].insert(q); }
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k;
    H& x = *h[k];
    auto& v = m[k];
    int val = (int)r.range(0, range);
    const char* nm = "?";
    size_t i = 0;
    switch(r.below(12))
    {
    case 0: case 1: case 2: { nm = "Insert&&"; int n = 1 + (int)r.below(5); while(n--) { int q = (int)r.range(0, range); x.Insert(T(q)); v.insert(q); } break; }
    case 3: { nm = "Insert&"; T t(val); x.Insert((const T&)t); v.insert(val); CHECK(V(t) == val, "heap:argument", "Insert changed its argument"); break; }
    case 4: case 5: nm = "Pop"; if(!v.empty()) { int e = top(v); T t(x.Pop()); CHECK(V(t) == e, "heap:pop", "Pop gave %d, best was %d", V(t), e); v.erase(v.find(e)); } break;
    case 6: case 7: nm = "Remove"; if(!v.empty()) { i = r.below(v.size()); if(r.chance(1, 4)) i = v.size() - 1; int e = V(x.Get((CT)i)); CHECK(x.Remove((CT)i), "heap:remove", "Remove(%zu) of %zu failed", i, v.size()); v.erase(v.find(e)); } else CHECK(!x.Remove(0), "heap:remove", "Remove on an empty heap succeeded"); break;
    case 8: nm = "Set"; if(!v.empty()) { i = r.below(v.size()); int e = V(x.Get((CT)i)); T t(val); CHECK(r.chance(1, 2) ? x.Set((CT)i, (const T&)t) : x.Set((CT)i, T(val)), "heap:set", "Set(%zu) failed", i); v.erase(v.find(e)); v.insert(val); } else CHECK(!x.Set(0, T(val)), "heap:set", "Set on an empty heap succeeded"); break;
    case 9: nm = "Assign"; if(r.chance(1, 3)) { *h[o] = std::move(x); m[o] = v; v.clear(); } else { *h[o] = x; m[o] = v; } break;
    case 10: { nm = "Copy"; H n(x); check(n, v, nm); break; }
    case 11: nm = "Clear"; if(r.chance(1, 4)) { x.Clear(); v.clear(); } break;
    }
    mon::op("heap%d %s v=%d i=%zu len=%zu", k, nm, val, i, m[k].size());
    if(big && s % 16) continue;
    check(*h[0], m[0], nm);
    check(*h[1], m[1], nm);
  }
  for(int k = 0; k < 2; ++k)
  {
    if(r.chance(2, 3))
      while(!m[k].empty())
      {
        int e = top(m[k]);
        T t(h[k]->Pop());
        CHECK(V(t) == e, "heap:drain", "draining gave %d, best was %d", V(t), e);
        m[k].erase(m[k].find(e));
      }
    delete h[k];
  }
}

static void run_heapsort(Rng& r)
{
  size_t n = r.below(r.chance(1, 6) ? 700 : 40);
  std::vector<int> v(n + 1), s;
  int range = 1 + (int)r.below(n * 2 + 2);
  for(size_t i = 0; i < n; ++i) v[i] = (int)r.below(range);
  v[n] = -12345;
  s.assign(v.begin(), v.begin() + n);
  std::sort(s.begin(), s.end());
  std::vector<int> w(v), z(v);
  BinaryHeap<int, size_t>::HeapSort(v.data(), n);
  CHECK(v[n] == -12345 && std::equal(s.begin(), s.end(), v.begin()), "heap:sort", "HeapSort of %zu values is not the sorted sequence", n);
  BinaryHeap<int, size_t, CompTInv<int>>::HeapSort(w.data(), n);
  std::reverse(s.begin(), s.end());
  CHECK(w[n] == -12345 && std::equal(s.begin(), s.end(), w.begin()), "heap:sort-inv", "HeapSort (descending) of %zu values is wrong", n);
  BinaryHeap<int, size_t>::Heapify(z.data(), n);
  for(size_t i = 1; i < n; ++i) CHECK(z[(i - 1) / 2] >= z[i], "heap:heapify", "Heapify leaves %d above %d", z[(i - 1) / 2], z[i]);
  std::sort(z.begin(), z.begin() + n);
  std::reverse(s.begin(), s.end());
  CHECK(std::equal(s.begin(), s.end(), z.begin()), "heap:heapify-contents", "Heapify changed the values");
  {
    int q[17], q2[17];
    for(int i = 0; i < 17; ++i) q[i] = q2[i] = (int)r.below(20);
    BinaryHeap<int, size_t>::HeapSort<17>(q);
    BinaryHeap<int, size_t>::Heapify<17>(q2);
    for(int i = 1; i < 17; ++i) CHECK(q2[(i - 1) / 2] >= q2[i], "heap:heapify", "Heapify of an array leaves %d above %d", q2[(i - 1) / 2], q2[i]);
    std::sort(q2, q2 + 17);
    CHECK(std::equal(q, q + 17, q2), "heap:sort", "HeapSort of an array is not the sorted sequence");
  }
  mon::op("heapsort %zu range %d", n, range);
}

template<class D, ARRAY_TYPE AT, bool MIN>
static void run_pq(Rng& r, int steps, int range)
{
  typedef PriorityQueue<int, D, MIN ? CompTInv<int> : CompT<int>, size_t, AT> Q;
  Q* q[2] = { new Q(), new Q() };
  typedef std::multimap<int, int> MM;
  MM m[2];
  int ctr = 0;
  auto best = [](MM& s) { return MIN ? s.begin()->first : s.rbegin()->first; };
  auto erase = [&](MM& s, int k, int d, const char* nm) {
    auto rg = s.equal_range(k);
    for(auto it = rg.first; it != rg.second; ++it) if(it->second == d) { s.erase(it); return; }
    mon::fail("pqueue:pair", "%s: produced (%d,%d), which is not in the queue", nm, k, d);
  };
  for(int i = 0; i < big; ++i) { int q2 = (int)r.range(0, range); q[0]->Push(q2, D(ctr)); m[0].insert({ q2, ctr++ }); }
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k;
    Q& x = *q[k];
    MM& v = m[k];
    int key = (int)r.range(0, range);
    const char* nm = "?";
    switch(r.below(10))
    {
    case 0: case 1: case 2: case 3: { nm = "Push"; int n = 1 + (int)r.below(4); while(n--) { int q2 = (int)r.range(0, range); if(r.chance(1, 2)) { const int kk = q2; x.Push(kk, D(ctr)); } else { int kk = q2; x.Push(std::move(kk), D(ctr)); } v.insert({ q2, ctr++ }); } break; }
    case 4: case 5: nm = "Pop"; if(!v.empty()) { int b = best(v); auto p = x.Pop(); CHECK(p.first == b, "pqueue:pop", "Pop gave priority %d, best was %d", p.first, b); erase(v, p.first, V(p.second), nm); } break;
    case 6: nm = "Discard"; if(!v.empty()) { int kk = x.Peek().first, d = V(x.Peek().second); CHECK(kk == best(v), "pqueue:discard", "Discard would drop priority %d", kk); x.Discard(); erase(v, kk, d, nm); } break;
    case 7: nm = "Remove"; if(!v.empty()) { size_t i = r.below(v.size()); int kk = x.Get(i).first, d = V(x.Get(i).second); CHECK(x.Remove(i), "pqueue:remove", "Remove(%zu) failed", i); erase(v, kk, d, nm); } break;
    case 8: nm = "Assign"; if(r.chance(1, 3)) { *q[o] = std::move(x); m[o] = v; v.clear(); } else { *q[o] = x; m[o] = v; } break;
    case 9: nm = "Clear"; if(r.chance(1, 5)) { x.Clear(); v.clear(); } break;
    }
    mon::op("pq%d %s k=%d len=%zu", k, nm, key, m[k].size());
    for(int i = 0; i < 2; ++i)
    {
      CHECK(q[i]->Length() == m[i].size() && q[i]->Empty() == m[i].empty(), "pqueue:length", "%s: length %zu, expected %zu", nm, q[i]->Length(), m[i].size());
      if(!m[i].empty()) CHECK(q[i]->Peek().first == best(m[i]), "pqueue:peek", "%s: Peek has priority %d, best is %d", nm, q[i]->Peek().first, best(m[i]));
    }
  }
  for(int i = 0; i < 2; ++i)
  {
    while(!m[i].empty()) { int b = best(m[i]); auto p = q[i]->Pop(); CHECK(p.first == b, "pqueue:drain", "drain gave %d, best was %d", p.first, b); erase(m[i], p.first, V(p.second), "drain"); }
    delete q[i];
  }
}

// PriorityHeap: values addressed by the key that Push returned, until they leave
template<class D, ARRAY_TYPE AT, bool MIN>
static void run_ph(Rng& r, int steps, int range)
{
  typedef PriorityHeap<D, size_t, MIN ? CompTInv<D> : CompT<D>, AT> H;
  H* h[2] = { new H(), new H() };
  std::map<size_t, int> m[2];
  auto bestv = [](std::map<size_t, int>& s) { int b = s.begin()->second; for(auto& p : s) if(MIN ? p.second < b : p.second > b) b = p.second; return b; };
  // values are unique per history so that the popped value identifies its key
  int uniq = 0;
  auto mk = [&]() { return ((int)r.range(0, range)) * 4096 + (uniq++ & 4095); };
  auto byval = [](std::map<size_t, int>& s, int v) { for(auto& p : s) if(p.second == v) return p.first; mon::fail("pheap:value", "value %d left the heap but is not in it", v); };
  for(int i = 0; i < big && i < 700; ++i) { int q = mk(); size_t key = h[0]->Push(D(q)); CHECK(!m[0].count(key), "pheap:key", "Push returned a live key %zu", key); m[0][key] = q; }
  for(int s = 0; s < steps && uniq < 4000; ++s)
  {
    int k = (int)r.below(2), o = 1 - k;
    H& x = *h[k];
    auto& v = m[k];
    const char* nm = "?";
    switch(r.below(11))
    {
    case 0: case 1: case 2: { nm = "Push"; int n = 1 + (int)r.below(4); while(n--) { int q = mk(); size_t key = x.Push(D(q)); CHECK(!v.count(key), "pheap:key", "Push returned key %zu, which names another live value", key); v[key] = q; } break; }
    case 3: { nm = "Push&"; int q = mk(); D d(q); size_t key = x.Push((const D&)d); CHECK(!v.count(key), "pheap:key", "Push returned a live key %zu", key); v[key] = q; break; }
    case 4: nm = "Pop"; if(!v.empty()) { int b = bestv(v); D d(x.Pop()); CHECK(V(d) == b, "pheap:pop", "Pop gave %d, best was %d", V(d), b); v.erase(byval(v, b)); } break;
    case 5: case 6: nm = "Set"; if(!v.empty()) { auto it = v.begin(); std::advance(it, r.below(v.size())); int q = mk(); D d(q); CHECK(r.chance(1, 2) ? x.Set(it->first, (const D&)d) : x.Set(it->first, D(q)), "pheap:set", "Set of a live key failed"); it->second = q; } break;
    case 7: nm = "Remove"; if(!v.empty()) { auto it = v.begin(); std::advance(it, r.below(v.size())); CHECK(x.Remove(it->first), "pheap:remove", "Remove of a live key failed"); v.erase(it); } break;
    case 8: nm = "Discard"; if(!v.empty()) { int b = bestv(v); x.Discard(); v.erase(byval(v, b)); } break;
    case 9: nm = "Assign"; if(r.chance(1, 3)) { *h[o] = std::move(x); m[o] = v; v.clear(); } else { *h[o] = x; m[o] = v; } break;
    case 10: { if(r.chance(1, 4)) { nm = "Clear"; x.Clear(); v.clear(); break; } nm = "Construct"; if(r.chance(1, 2)) { H* n = new H(std::move(x)); delete h[k]; h[k] = n; } else { H* n = new H(x); delete h[k]; h[k] = n; } break; }
    }
    mon::op("pheap%d %s len=%zu", k, nm, m[k].size());
    if(big && s % 16) continue;
    for(int i = 0; i < 2; ++i)
    {
      CHECK(h[i]->Length() == m[i].size() && h[i]->Empty() == m[i].empty(), "pheap:length", "%s: length %zu, expected %zu", nm, h[i]->Length(), m[i].size());
      if(!m[i].empty()) CHECK(V(h[i]->Peek()) == bestv(m[i]), "pheap:peek", "%s: Peek %d, best %d", nm, V(h[i]->Peek()), bestv(m[i]));
      for(auto& p : m[i]) CHECK(V(h[i]->Get(p.first)) == p.second, "pheap:get", "%s: key %zu names %d, expected %d", nm, p.first, V(h[i]->Get(p.first)), p.second);
    }
  }
  for(int i = 0; i < 2; ++i)
  {
    while(!m[i].empty()) { int b = bestv(m[i]); D d(h[i]->Pop()); CHECK(V(d) == b, "pheap:drain", "drain gave %d, best was %d", V(d), b); m[i].erase(byval(m[i], b)); }
    delete h[i];
  }
}

void mon_case(Rng& r, uint64_t c)
{
  int steps = 15 + (int)r.below(90);
  int range = r.chance(1, 2) ? 4 + (int)r.below(10) : 400;
  big = r.chance(1, 150) ? 200 + (int)r.below(2000) : 0;
  if(big) mon::ev("large");
  switch(c % 12)
  {
  case 0: run_heap<int, size_t, ARRAY_SIMPLE, false>(r, steps, range); mon::ev("heap<int,max>"); break;
  case 1: run_heap<int, uint32_t, ARRAY_SIMPLE, true>(r, steps, range); mon::ev("heap<int,min>"); break;
  case 2: run_heap<mon::Trk, size_t, ARRAY_SAFE, false>(r, steps, range); mon::ev("heap<tracked>"); break;
  case 3: run_heap<mon::TrkR, uint16_t, ARRAY_CONSTRUCT, true>(r, steps, range); mon::ev("heap<relocatable>"); break;
  case 4: case 5: run_heapsort(r); mon::ev("heapsort"); break;
  case 6: run_pq<int, ARRAY_SIMPLE, false>(r, steps, range); mon::ev("pqueue<max>"); break;
  case 7: run_pq<int, ARRAY_SIMPLE, true>(r, steps, range); mon::ev("pqueue<min>"); break;
  case 8: run_pq<mon::Trk, ARRAY_SAFE, false>(r, steps, range); mon::ev("pqueue<tracked>"); break;
  case 9: run_ph<int, ARRAY_SIMPLE, false>(r, steps, range); mon::ev("pheap<max>"); break;
  case 10: run_ph<int, ARRAY_SIMPLE, true>(r, steps, range); mon::ev("pheap<min>"); break;
  case 11: run_ph<mon::Trk, ARRAY_SAFE, false>(r, steps, range); mon::ev("pheap<tracked>"); break;
  }
  mon::nontrivial();
}
