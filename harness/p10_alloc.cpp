// Allocators used from one thread: a shadow map of every live block.
#include "mon.h"
#include <map>
#include <vector>
#include <string>
#include "bss-util/BlockAlloc.h"
#include "bss-util/BlockAllocMT.h"
#include "bss-util/GreedyAlloc.h"
#include "bss-util/GreedyBlockAlloc.h"
#include "bss-util/RingAlloc.h"
#include "bss-util/CacheAlloc.h"
using namespace bss;
using mon::Rng;

struct Shadow
{
  struct B { size_t sz; uint8_t pat; };
  std::map<uintptr_t, B> live;
  uint8_t next = 1;
  static uint8_t at(uint8_t pat, size_t i) { return (uint8_t)(pat * 31 + i * 7 + (i >> 8) * 13); }
  void fill(void* p, size_t from, size_t to, uint8_t pat) { for(size_t i = from; i < to; ++i) ((uint8_t*)p)[i] = at(pat, i); }
  void match(const void* p, size_t n, uint8_t pat, const char* when)
  {
    for(size_t i = 0; i < n; ++i)
      CHECK(((const uint8_t*)p)[i] == at(pat, i), "alloc:content", "byte %zu of a live block of %zu bytes changed (seen at %s)", i, n, when);
  }
  void add(void* p, size_t sz, size_t align, uint8_t pat, bool fillit)
  {
    uintptr_t a = (uintptr_t)p;
    CHECK(p != nullptr, "alloc:null", "allocation of %zu bytes returned null", sz);
    CHECK(a % align == 0, "alloc:align", "block of %zu bytes is not aligned to %zu", sz, align);
    auto it = live.lower_bound(a);
    if(it != live.end()) CHECK(a + sz <= it->first, "alloc:overlap", "block of %zu bytes overlaps a live block of %zu bytes", sz, it->second.sz);
    if(it != live.begin())
    {
      --it;
      CHECK(it->first + it->second.sz <= a, "alloc:overlap", "block of %zu bytes overlaps a live block of %zu bytes", sz, it->second.sz);
    }
    live[a] = B{ sz, pat };
    if(fillit) fill(p, 0, sz, pat);
    mon::ev("blocks_tracked");
  }
  void add(void* p, size_t sz, size_t align) { add(p, sz, align, next++, true); }
  std::map<uintptr_t, B>::iterator pick(Rng& r)
  {
    auto it = live.begin();
    std::advance(it, r.below(live.size()));
    return it;
  }
  void verify_all() { for(auto& k : live) match((void*)k.first, k.second.sz, k.second.pat, "sweep"); mon::ev("sweeps"); }
};

static size_t pick_align(Rng& r) { return (size_t)1 << r.below(7); }

template<size_t N, size_t A = alignof(void*)> struct alignas(A) Obj { char d[N]; };

// fixed-size allocators: GET() / PUT(p)
template<class GET, class PUT, class CLR>
static void drive_block(Rng& r, size_t sz, size_t align, GET get, PUT put, CLR clr, bool canclear, size_t& peak, Shadow& sh, bool reuse)
{
  int n = (int)r.range(1, 120);
  int bias = (int)r.range(2, 8);
  for(int k = 0; k < n; ++k)
  {
    if(sh.live.empty() || r.chance(bias, 10))
    {
      size_t h = mon::heap_bytes();
      void* p = get();
      size_t h2 = mon::heap_bytes();
      mon::op("alloc");
      if(MON_ASAN && reuse && sh.live.size() < peak) CHECK(h2 == h, "alloc:reuse", "allocating while %zu of %zu blocks are live took new memory although freed blocks exist", sh.live.size(), peak);
      sh.add(p, sz, align);
      if(sh.live.size() > peak) peak = sh.live.size();
    }
    else if(canclear && r.chance(1, 40))
    {
      sh.verify_all();
      sh.live.clear();
      clr();
      mon::op("clear");
      mon::ev("clears");
      size_t h = mon::heap_bytes();
      size_t want = r.chance(1, 2) ? peak : r.below(peak + 1);
      for(size_t i = 0; i < want; ++i) { sh.add(get(), sz, align); mon::op("alloc after clear"); }
      if(MON_ASAN && reuse) CHECK(mon::heap_bytes() - h <= want * 160, "alloc:clear-reuse", "after Clear, %zu blocks (at most %zu had been live) took new memory", want, peak);
    }
    else if(r.chance(1, 12)) { sh.verify_all(); }
    else
    {
      auto it = sh.pick(r);
      sh.match((void*)it->first, it->second.sz, it->second.pat, "free");
      put((void*)it->first);
      sh.live.erase(it);
      mon::op("free");
      if(r.chance(1, 4)) sh.verify_all();
    }
  }
  sh.verify_all();
}

static void t_blockalloc(Rng& r)
{
  Shadow sh;
  size_t align = pick_align(r), sz = r.range(8, 80), init = r.below(12), peak = 0;
  mon::op("BlockAlloc sz=%zu init=%zu align=%zu", sz, init, align);
  size_t real = AlignSize(sz, align);
  BlockAlloc a(sz, init, align);
  CHECK(a.GetSize() == real, "alloc:size", "GetSize %zu expected %zu", a.GetSize(), real);
  auto go = [&](BlockAlloc& b) {
    drive_block(r, sz, align, [&]() -> void* { return r.chance(1, 2) ? b.Alloc() : b.Alloc(sz, align); }, [&](void* p) { b.Dealloc(p); }, [&]() { b.Clear(); }, true, peak, sh, true);
  };
  go(a);
  if(r.chance(1, 3))
  {
    BlockAlloc b(std::move(a));
    mon::op("move ctor");
    sh.verify_all();
    go(b);
    if(r.chance(1, 2))
    {
      BlockAlloc c(sz, r.below(4), align);
      size_t pk = 0;
      Shadow s2;
      drive_block(r, sz, align, [&]() -> void* { return c.Alloc(); }, [&](void* p) { c.Dealloc(p); }, [&]() { c.Clear(); }, true, pk, s2, true);
      c = std::move(b);
      mon::op("move assign");
      sh.verify_all();
      go(c);
    }
  }
}
template<class T> static void t_blockpolicy(Rng& r)
{
  Shadow sh;
  size_t peak = 0, init = r.below(10);
  mon::op("BlockPolicy size=%zu init=%zu", sizeof(T), init);
  BlockPolicy<T> a(init);
  auto go = [&](BlockPolicy<T>& b) { drive_block(r, sizeof(T), alignof(T), [&]() -> void* { return b.allocate(1); }, [&](void* p) { b.deallocate((T*)p, 1); }, [&]() { b.Clear(); }, true, peak, sh, true); };
  go(a);
  if(r.chance(1, 3))
  {
    BlockPolicy<T> b(std::move(a));
    mon::op("move ctor");
    go(b);
    BlockPolicy<T> c(3);
    c = std::move(b);
    mon::op("move assign");
    go(c);
  }
}
template<size_t S, size_t A, class T> static void t_blocksize(Rng& r)
{
  Shadow sh;
  size_t peak = 0, init = r.below(10);
  mon::op("BlockPolicySize size=%zu align=%zu init=%zu", S, A, init);
  BlockPolicySize<S, A> a(init);
  drive_block(r, sizeof(T), alignof(T), [&]() -> void* { return a.template allocate<T>(1); }, [&](void* p) { a.template deallocate<T>((T*)p, 1); }, [&]() { a.Clear(); }, true, peak, sh, true);
}
template<class T> static void t_lockless1(Rng& r)
{
  Shadow sh;
  size_t peak = 0, init = r.below(10);
  mon::op("LocklessBlockPolicy size=%zu init=%zu", sizeof(T), init);
  LocklessBlockPolicy<T> a(init);
  auto go = [&](LocklessBlockPolicy<T>& b) { drive_block(r, sizeof(T), alignof(T) > 16 ? 1 : alignof(T), [&]() -> void* { return b.allocate(1); }, [&](void* p) { b.deallocate((T*)p, 1); }, []() {}, false, peak, sh, true); };
  go(a);
  if(r.chance(1, 3))
  {
    LocklessBlockPolicy<T> b(std::move(a));
    mon::op("move ctor");
    go(b);
    LocklessBlockPolicy<T> c(3);
    c = std::move(b);
    mon::op("move assign");
    go(c);
  }
}
template<class T> static void t_greedyblock(Rng& r)
{
  Shadow sh;
  size_t init = r.below(100);
  mon::op("GreedyBlockPolicy size=%zu init=%zu", sizeof(T), init);
  GreedyBlockPolicy<T> a0(init);
  GreedyBlockPolicy<T>* a = &a0;
  int rounds = (int)r.range(1, 4);
  std::vector<size_t> log;
  for(int rd = 0; rd < rounds; ++rd)
  {
    if(rd && r.chance(1, 2))
    {
      size_t h = mon::heap_bytes();
      size_t hs = 0;
      for(size_t n : log) { T* p = a->allocate(n); hs = mon::heap_bytes() - h; sh.add(p, n * sizeof(T), alignof(T)); h = mon::heap_bytes(); if(MON_ASAN) CHECK(!hs, "alloc:clear-reuse", "replaying the allocations made before Clear took new memory"); }
      mon::op("replay %zu", log.size());
    }
    else
    {
      log.clear();
      int n = (int)r.range(1, 60);
      for(int k = 0; k < n; ++k)
      {
        size_t c = r.chance(1, 8) ? r.range(10, 90) : r.range(1, 4);
        sh.add(a->allocate(c), c * sizeof(T), alignof(T));
        mon::op("alloc %zu", c);
        log.push_back(c);
        if(r.chance(1, 4) && !sh.live.empty())
        {
          auto it = sh.pick(r);
          sh.match((void*)it->first, it->second.sz, it->second.pat, "free");
          a->deallocate((void*)it->first, it->second.sz / sizeof(T));
          sh.live.erase(it);
          mon::op("free");
        }
        if(r.chance(1, 10)) sh.verify_all();
      }
    }
    sh.verify_all();
    sh.live.clear();
    a->Clear();
    mon::op("clear");
    mon::ev("clears");
  }
  if(r.chance(1, 2))
  {
    sh.add(a->allocate(3), 3 * sizeof(T), alignof(T));
    GreedyBlockPolicy<T> b(std::move(*a));
    mon::op("move ctor");
    sh.verify_all();
    for(int i = 0; i < 20; ++i) sh.add(b.allocate(2), 2 * sizeof(T), alignof(T));
    sh.verify_all();
  }
}
static void t_greedy(Rng& r)
{
  Shadow sh;
  size_t align = pick_align(r), init = r.chance(1, 6) ? 0 : r.range(1, 300);
  mon::op("GreedyAlloc init=%zu align=%zu", init, align);
  GreedyAlloc a(init, align);
  GreedyAlloc* g = &a;
  std::vector<size_t> log;
  int rounds = (int)r.range(1, 4);
  auto churn = [&](GreedyAlloc* g) {
    log.clear();
    int n = (int)r.range(1, 60);
    for(int k = 0; k < n; ++k)
    {
      size_t c = r.chance(1, 8) ? r.range(100, 700) : r.range(1, 40);
      sh.add(g->Alloc(c), c, align);
      mon::op("alloc %zu", c);
      log.push_back(c);
      if(r.chance(1, 4) && !sh.live.empty())
      {
        auto it = sh.pick(r);
        sh.match((void*)it->first, it->second.sz, it->second.pat, "free");
        g->Dealloc((void*)it->first);
        sh.live.erase(it);
        mon::op("free");
      }
      if(r.chance(1, 10)) sh.verify_all();
    }
    sh.verify_all();
  };
  for(int rd = 0; rd < rounds; ++rd)
  {
    if(rd && r.chance(1, 2))
    {
      for(size_t n : log) { size_t h = mon::heap_bytes(); void* p = g->Alloc(n); size_t h2 = mon::heap_bytes(); if(MON_ASAN) CHECK(h2 == h, "alloc:clear-reuse", "replaying the allocations made before Clear took new memory"); sh.add(p, n, align); }
      mon::op("replay %zu", log.size());
    }
    else churn(g);
    sh.verify_all();
    sh.live.clear();
    g->Clear();
    mon::op("clear");
    mon::ev("clears");
  }
  if(r.chance(1, 2))
  {
    churn(g);
    GreedyAlloc b(std::move(*g));
    mon::op("move ctor");
    sh.verify_all();
    churn(&b);
    GreedyAlloc c(r.range(1, 50), align);
    { Shadow s2; for(int i = 0; i < 10; ++i) s2.add(c.Alloc(30), 30, align); s2.verify_all(); }
    c = std::move(b);
    mon::op("move assign");
    sh.verify_all();
    churn(&c);
  }
}
// policies with realloc semantics
template<class T, class A> static void drive_realloc(Rng& r, A& a, size_t align, bool inplaceok, const char* nm, size_t maxcnt, bool dofree = true)
{
  Shadow sh;
  int n = (int)r.range(1, 80);
  for(int k = 0; k < n; ++k)
  {
    if(sh.live.empty() || r.chance(4, 10))
    {
      size_t c = r.chance(1, 6) ? r.range(1, maxcnt) : r.range(1, 20);
      mon::op("%s allocate %zu", nm, c);
      sh.add(a.allocate(c), c * sizeof(T), align);
    }
    else if(r.chance(1, 2))
    {
      auto it = sh.pick(r);
      size_t old = it->second.sz / sizeof(T);
      size_t c = r.chance(1, 3) ? (size_t)r.range(1, old) : (size_t)r.range(1, maxcnt);
      uint8_t pat = it->second.pat;
      sh.match((void*)it->first, it->second.sz, pat, "before resize");
      T* p = (T*)it->first;
      sh.live.erase(it);
      mon::op("%s resize %zu -> %zu", nm, old, c);
      T* q = a.allocate(c, p, old);
      sh.match(q, bssmin(old, c) * sizeof(T), pat, "after resize");
      sh.add(q, c * sizeof(T), align, pat, false);
      sh.fill(q, bssmin(old, c) * sizeof(T), c * sizeof(T), pat);
      mon::ev("resizes");
    }
    else if(r.chance(1, 8)) sh.verify_all();
    else
    {
      auto it = sh.pick(r);
      sh.match((void*)it->first, it->second.sz, it->second.pat, "free");
      a.deallocate((T*)it->first, it->second.sz / sizeof(T));
      sh.live.erase(it);
      mon::op("%s free", nm);
    }
  }
  sh.verify_all();
  if(dofree) for(auto& k : sh.live) a.deallocate((T*)k.first, k.second.sz / sizeof(T));
}
static void t_cache(Rng& r)
{
  size_t align = r.chance(1, 2) ? 1 : pick_align(r), maxsize = r.range(8, 300), init = r.range(0, 200);
  mon::op("CacheAlloc max=%zu init=%zu align=%zu", maxsize, init, align);
  CacheAlloc a(maxsize, init, align);
  Shadow sh;
  std::map<size_t, size_t> peak, cur;
  size_t sizes[6];
  for(auto& s : sizes) s = r.chance(1, 8) ? r.range(maxsize, maxsize + 200) : r.range(1, maxsize);
  auto go = [&](CacheAlloc& c) {
    int n = (int)r.range(1, 120);
    for(int k = 0; k < n; ++k)
    {
      if(sh.live.empty() || r.chance(5, 10))
      {
        size_t s = r.chance(1, 10) ? r.range(1, maxsize + 50) : sizes[r.below(6)];
        size_t h = mon::heap_bytes();
        void* p = c.Alloc(s);
        size_t h2 = mon::heap_bytes();
        mon::op("alloc %zu", s);
        if(MON_ASAN && s <= maxsize && cur[s] < peak[s]) CHECK(h2 == h, "alloc:reuse", "allocating %zu bytes took new memory although freed blocks of that size exist", s);
        sh.add(p, s, s <= maxsize ? align : 1);
        if(++cur[s] > peak[s]) peak[s] = cur[s];
      }
      else if(r.chance(1, 12)) sh.verify_all();
      else
      {
        auto it = sh.pick(r);
        sh.match((void*)it->first, it->second.sz, it->second.pat, "free");
        c.Dealloc((void*)it->first, it->second.sz);
        --cur[it->second.sz];
        sh.live.erase(it);
        mon::op("free");
      }
    }
    sh.verify_all();
  };
  auto drop = [&](CacheAlloc& c) { for(auto& k : sh.live) c.Dealloc((void*)k.first, k.second.sz); sh.live.clear(); };
  go(a);
  if(r.chance(1, 3))
  {
    CacheAlloc b(std::move(a));
    mon::op("move ctor");
    go(b);
    if(r.chance(1, 2))
    {
      CacheAlloc c(maxsize, 20, align);
      c.Dealloc(c.Alloc(5), 5);
      c = std::move(b);
      mon::op("move assign");
      go(c);
      drop(c);
    }
    else drop(b);
  }
  else drop(a);
}
template<class T> static void t_ring(Rng& r)
{
  size_t init = r.chance(1, 6) ? 0 : r.range(1, 400);
  mon::op("RingAlloc init=%zu", init);
  RingAlloc<T> a(init);
  Shadow sh;
  auto go = [&](RingAlloc<T>& c) {
    int n = (int)r.range(1, 120);
    bool fifo = r.chance(1, 3);
    std::vector<uintptr_t> order;
    for(auto& k : sh.live) order.push_back(k.first);
    for(int k = 0; k < n; ++k)
    {
      if(sh.live.empty() || r.chance(5, 10))
      {
        size_t s = r.chance(1, 8) ? r.range(20, 100) : r.range(1, 10);
        mon::op("alloc %zu", s);
        T* p = c.allocate(s);
        sh.add(p, s * sizeof(T), 1);
        order.push_back((uintptr_t)p);
      }
      else if(r.chance(1, 12)) sh.verify_all();
      else
      {
        size_t i = fifo ? 0 : r.below(order.size());
        auto it = sh.live.find(order[i]);
        order.erase(order.begin() + i);
        sh.match((void*)it->first, it->second.sz, it->second.pat, "free");
        c.deallocate((T*)it->first, it->second.sz / sizeof(T));
        sh.live.erase(it);
        mon::op("free");
      }
      if(r.chance(1, 60))
      {
        sh.verify_all();
        sh.live.clear();
        order.clear();
        c.Clear();
        mon::op("clear");
        mon::ev("clears");
      }
    }
    sh.verify_all();
  };
  go(a);
  if(r.chance(1, 3))
  {
    RingAlloc<T> b(std::move(a));
    mon::op("move ctor");
    go(b);
    RingAlloc<T> c(30);
    c.allocate(3);
    c = std::move(b);
    mon::op("move assign");
    go(c);
  }
  else
  { // recycling: once every block is free, repeating the same allocations forever must not take memory forever
    for(auto& k : sh.live) a.deallocate((T*)k.first);
    sh.live.clear();
    size_t cnt = r.range(1, 30), s = r.range(1, 20);
    std::vector<T*> v(cnt);
    size_t settled = 0;
    for(int rd = 0; rd < 40; ++rd)
    {
      for(auto& p : v) { p = a.allocate(s); sh.add(p, s * sizeof(T), 1); }
      sh.verify_all();
      sh.live.clear();
      for(auto& p : v) a.deallocate(p);
      if(rd == 20) settled = mon::heap_bytes();
    }
    if(MON_ASAN) CHECK(mon::heap_bytes() <= settled, "alloc:reuse", "allocating and freeing the same %zu blocks over and over keeps taking memory (%zu -> %zu)", cnt, settled, mon::heap_bytes());
    mon::op("recycled %zu x %zu", cnt, s);
    mon::ev("ring_recycle_rounds", 40);
  }
}

void mon_case(Rng& r, uint64_t c)
{
  mon::nontrivial();
  switch(c % 14)
  {
  case 0: case 1: t_blockalloc(r); break;
  case 2: t_blockpolicy<Obj<24>>(r); break;
  case 3: t_blockpolicy<Obj<64, 32>>(r); t_blockpolicy<size_t>(r); break;
  case 4: t_blocksize<48, 16, Obj<40>>(r); t_blocksize<17, 8, Obj<16>>(r); break;
  case 5: t_lockless1<Obj<40>>(r); t_lockless1<size_t>(r); break;
  case 6: t_greedyblock<Obj<24>>(r); t_greedyblock<int>(r); t_greedyblock<Obj<64, 64>>(r); break;
  case 7: case 8: t_greedy(r); break;
  case 9: t_cache(r); t_cache(r); break;
  case 10: t_ring<size_t>(r); t_ring<char>(r); break;
  case 11: { CachePolicy<char> a(r.range(8, 300), r.range(1, 100), 1); drive_realloc<char>(r, a, 1, true, "CachePolicy<char>", 400); CachePolicy<size_t> b(r.range(8, 600), r.range(1, 100), 8); drive_realloc<size_t>(r, b, 8, true, "CachePolicy<size_t>", 100); break; }
  case 12: { GreedyPolicy<char> a(r.range(1, 300)); drive_realloc<char>(r, a, 1, true, "GreedyPolicy<char>", 400); GreedyPolicy<size_t> b(r.range(1, 300), 8); drive_realloc<size_t>(r, b, 8, true, "GreedyPolicy<size_t>", 100); break; }
  case 13:
  {
    StandardAllocator<char> a; drive_realloc<char>(r, a, 1, true, "StandardAllocator<char>", 400);
    StandardAllocator<size_t> b; drive_realloc<size_t>(r, b, 8, true, "StandardAllocator<size_t>", 100);
    StandardAllocator<char, 16> d; drive_realloc<char>(r, d, 16, true, "StandardAllocator<char,16>", 400);
    StandardAllocator<Obj<64, 64>, 64> e; drive_realloc<Obj<64, 64>>(r, e, 64, true, "StandardAllocator<Obj,64>", 20);
    break;
  }
  }
}
