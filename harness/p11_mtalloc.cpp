// Thread-safe allocators under several threads and forced preemption.
#define MON_BALANCE 0
#include "mon.h"
#include "perturb.h"
#include <map>
#include <mutex>
#include <set>
#include "bss-util/BlockAllocMT.h"
#include "bss-util/GreedyAlloc.h"
#include "bss-util/RingAlloc.h"
#include "bss-util/CacheAlloc.h"
using namespace bss;
using mon::Rng;

struct Blk { uint8_t* p; size_t sz; uint64_t id; };
static inline uint8_t pat(uint64_t id, size_t i) { return (uint8_t)(mon::mix(id) >> ((i & 7) * 8)) ^ (uint8_t)(i >> 3); }
static inline void fill(Blk& b) { for(size_t i = 0; i < b.sz; ++i) b.p[i] = pat(b.id, i); }
static inline void match(const Blk& b, const char* when)
{
  for(size_t i = 0; i < b.sz; ++i)
    if(b.p[i] != pat(b.id, i)) mon::fail("mt:overlap", "byte %zu of a block of %zu bytes owned by one thread was changed while it was live (seen at %s)", i, b.sz, when);
}
static void disjoint(std::vector<Blk>& all)
{
  std::sort(all.begin(), all.end(), [](const Blk& a, const Blk& b) { return a.p < b.p; });
  for(size_t i = 1; i < all.size(); ++i)
    CHECK(all[i - 1].p + all[i - 1].sz <= all[i].p, "mt:overlap", "two live blocks overlap: %zu bytes and %zu bytes, %zd apart", all[i - 1].sz, all[i].sz, (ssize_t)(all[i].p - all[i - 1].p));
  mon::ev("live_blocks_compared", all.size());
}
// A: alloc(size)->void*, free(void*, size); sizes: the sizes used. distinct: collects all (addr,size) ever handed out
template<class ALLOC, class FREE>
static void churn(Rng& r, int nt, int rounds, int ops, int hold, const std::vector<size_t>& sizes, ALLOC alloc, FREE dealloc, std::map<size_t, std::set<void*>>* ever, bool handoff, size_t align)
{
  long period = (long)r.range(15000, 120000);
  if(r.chance(1, 5)) period = 0;
  uint64_t seed = r.next();
  std::vector<std::vector<Blk>> own(nt);
  std::vector<std::map<size_t, std::set<void*>>> evs(nt);
  std::mutex mx;
  std::vector<Blk> pool;
  mon::op("threads=%d rounds=%d ops=%d hold=%d sizes=%zu handoff=%d period=%ld", nt, rounds, ops, hold, sizes.size(), (int)handoff, period);
  std::atomic<uint64_t> nalloc{ 0 }, nfree{ 0 };
  for(int rd = 0; rd < rounds; ++rd)
  {
    sch::run(nt, seed + rd, period, [&](int t) {
      Rng q(seed ^ (t * 7919 + rd * 104729 + 1));
      auto& o = own[t];
      for(int k = 0; k < ops; ++k)
      {
        if(o.empty() || ((int)o.size() < hold && q.chance(1, 2)))
        {
          Blk b;
          b.sz = sizes[q.below(sizes.size())];
          b.id = q.next();
          b.p = (uint8_t*)alloc(b.sz);
          if(!b.p) mon::fail("mt:null", "allocation of %zu bytes returned null", b.sz);
          if((uintptr_t)b.p % align) mon::fail("mt:align", "block is not aligned to %zu", align);
          nalloc.fetch_add(1, std::memory_order_relaxed);
          if(ever) evs[t][b.sz].insert(b.p);
          fill(b);
          o.push_back(b);
        }
        else
        {
          size_t i = q.chance(1, 2) ? o.size() - 1 : q.below(o.size());
          Blk b = o[i];
          o[i] = o.back();
          o.pop_back();
          match(b, "free");
          if(handoff && q.chance(1, 3))
          { // another thread frees it
            std::lock_guard<std::mutex> g(mx);
            pool.push_back(b);
            if(pool.size() < 3) continue;
            b = pool[q.below(pool.size())];
            for(auto& x : pool) if(x.p == b.p) { x = pool.back(); pool.pop_back(); break; }
          }
          match(b, "hand-off");
          dealloc(b.p, b.sz);
          nfree.fetch_add(1, std::memory_order_relaxed);
        }
      }
    });
    std::vector<Blk> all(pool);
    for(auto& o : own) all.insert(all.end(), o.begin(), o.end());
    disjoint(all);
    for(auto& b : all) match(b, "barrier");
  }
  for(auto& o : own) for(auto& b : o) { match(b, "end"); dealloc(b.p, b.sz); }
  for(auto& b : pool) dealloc(b.p, b.sz);
  if(ever) for(auto& e : evs) for(auto& s : e) (*ever)[s.first].insert(s.second.begin(), s.second.end());
  mon::ev("concurrent_allocs", nalloc);
  mon::ev("concurrent_frees", nfree);
  mon::note(sch::preempts);
  mon::nontrivial();
}
template<size_t N> struct Obj { size_t d[N / 8]; };

template<size_t N> static void t_lockless(Rng& r)
{
  size_t init = r.below(20);
  mon::op("LocklessBlockPolicy<%zu> init=%zu", N, init);
  LocklessBlockPolicy<Obj<N>> a(init);
  std::map<size_t, std::set<void*>> ever;
  churn(r, (int)r.range(2, 6), (int)r.range(1, 3), (int)r.range(200, 3000), (int)r.range(1, 20), { N },
    [&](size_t) -> void* { return a.allocate(1); }, [&](void* p, size_t) { a.deallocate((Obj<N>*)p, 1); }, &ever, r.chance(1, 2), 8);
  // conservation: every block ever handed out is free again, so all of them can be handed out without new memory, each once
  size_t h = mon::heap_bytes();
  auto& s = ever[N];
  std::set<void*> got;
  size_t d = s.size();
  void** v = (void**)malloc(d * sizeof(void*));
  h = mon::heap_bytes();
  for(size_t i = 0; i < d; ++i) v[i] = a.allocate(1);
  if(MON_ASAN) CHECK(mon::heap_bytes() == h, "mt:lost", "%zu blocks had been handed out and freed, but handing out %zu again took new memory: blocks were lost", d, d);
  for(size_t i = 0; i < d; ++i) CHECK(got.insert(v[i]).second, "mt:overlap", "the freelist holds a block twice");
  for(size_t i = 0; i < d; ++i) a.deallocate((Obj<N>*)v[i], 1);
  free(v);
  mon::ev("blocks_conserved", d);
}
static void t_greedy(Rng& r)
{
  size_t align = (size_t)1 << r.below(5), init = r.range(1, 2000);
  mon::op("GreedyAlloc init=%zu align=%zu", init, align);
  GreedyAlloc a(init, align);
  std::vector<size_t> sizes;
  for(int i = 0; i < 6; ++i) sizes.push_back(r.chance(1, 5) ? r.range(100, 800) : r.range(1, 60));
  int ops = (int)r.range(100, 1200);
  churn(r, (int)r.range(2, 6), (int)r.range(1, 3), ops, ops, sizes, [&](size_t n) { return a.Alloc(n); }, [&](void* p, size_t) { a.Dealloc(p); }, nullptr, false, align);
  a.Clear();
  churn(r, (int)r.range(2, 6), 1, ops, ops, sizes, [&](size_t n) { return a.Alloc(n); }, [&](void* p, size_t) { a.Dealloc(p); }, nullptr, false, align);
}
static void t_cache(Rng& r)
{
  size_t align = (size_t)1 << r.below(5), init = r.range(1, 500), mx = r.range(50, 300);
  mon::op("CacheAlloc max=%zu init=%zu align=%zu", mx, init, align);
  CacheAlloc a(mx, init, align);
  std::vector<size_t> sizes;
  int ns = (int)r.range(1, 30);
  for(int i = 0; i < ns; ++i) sizes.push_back(r.range(1, mx + 10));
  std::map<size_t, std::set<void*>> ever;
  churn(r, (int)r.range(2, 6), (int)r.range(1, 3), (int)r.range(100, 2000), (int)r.range(1, 20), sizes, [&](size_t n) { return a.Alloc(n); }, [&](void* p, size_t n) { a.Dealloc(p, n); }, &ever, r.chance(1, 2), 1);
  for(auto& e : ever)
    if(e.first <= mx)
    {
      size_t d = e.second.size();
      std::vector<void*> v(d);
      size_t h = mon::heap_bytes();
      for(auto& p : v) p = a.Alloc(e.first);
      if(MON_ASAN) CHECK(mon::heap_bytes() == h, "mt:lost", "%zu blocks of %zu bytes had been handed out and freed, but handing them out again took new memory: blocks were lost", d, e.first);
      std::set<void*> got;
      for(auto& p : v) CHECK(got.insert(p).second && e.second.count(p), "mt:lost", "handing out %zu freed blocks of %zu bytes again did not give the same blocks", d, e.first);
      for(auto& p : v) a.Dealloc(p, e.first);
      mon::ev("blocks_conserved", d);
    }
}
static void t_ring(Rng& r)
{
  size_t init = r.range(1, 2000);
  mon::op("RingAlloc init=%zu", init);
  RingAlloc<char> a(init);
  std::vector<size_t> sizes;
  for(int i = 0; i < 6; ++i) sizes.push_back(r.chance(1, 6) ? r.range(100, 600) : r.range(1, 60));
  churn(r, (int)r.range(2, 6), (int)r.range(1, 3), (int)r.range(100, 2000), (int)r.range(1, 20), sizes, [&](size_t n) -> void* { return a.allocate(n); }, [&](void* p, size_t) { a.deallocate((char*)p); }, nullptr, r.chance(1, 2), 1);
}
void mon_case(Rng& r, uint64_t c)
{
  switch(c % 6)
  {
  case 0: t_lockless<8>(r); break;
  case 1: t_lockless<40>(r); break;
  case 2: t_greedy(r); break;
  case 3: t_cache(r); break;
  case 4: t_ring(r); break;
  case 5: t_lockless<16>(r); break;
  }
}
