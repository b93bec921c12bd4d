// lockless.h primitives: value semantics on every width with guarded neighbours, and atomicity under contention.
#include "mon.h"
#include "perturb.h"
#include "bss-util/lockless.h"
#include "bss-util/RWLock.h"
using namespace bss;
using mon::Rng;

template<class T> static T rv(Rng& r)
{
  switch(r.below(6))
  {
  case 0: return (T)0;
  case 1: return (T)-1;
  case 2: return (T)((T)1 << (sizeof(T) * 8 - 1));
  case 3: return (T)r.below(3);
  default: return (T)r.next();
  }
}
// the cell lives at the very end of an exact heap block in half of the cases, between two guards in the others
template<class T> struct Cell
{
  T* base;
  size_t at, n;
  T g[4];
  Cell(Rng& r)
  {
    n = r.range(1, 4);
    at = r.below(n);
    base = (T*)malloc(n * sizeof(T));
    for(size_t i = 0; i < n; ++i) { g[i] = rv<T>(r); memcpy(&base[i], &g[i], sizeof(T)); }
  }
  ~Cell() { free(base); }
  volatile T* p() { return base + at; }
  T val() const { return g[at]; }
  void set(T v) { g[at] = v; }
  void ok(const char* op)
  {
    for(size_t i = 0; i < n; ++i)
      CHECK(!memcmp(&base[i], &g[i], sizeof(T)), i == at ? "atomic:value" : "atomic:neighbour", "%s on a %zu-byte value left %s %zu as %llx, expected %llx", op, sizeof(T), i == at ? "cell" : "NEIGHBOUR", i,
        (unsigned long long)base[i], (unsigned long long)g[i]);
  }
};
template<class T> static void seq(Rng& r)
{
  Cell<T> c(r);
  mon::op("cells of %zu bytes: %zu, target %zu", sizeof(T), c.n, c.at);
  for(int k = 0; k < 40; ++k)
  {
    T a = rv<T>(r), b = r.chance(1, 2) ? c.val() : rv<T>(r);
    switch(r.below(4))
    {
    case 0:
    {
      T o = c.val();
      T got = atomic_xadd<T>(c.p(), a);
      c.set((T)((uint64_t)o + (uint64_t)a));
      mon::op("xadd %llx", (unsigned long long)a);
      CHECK(got == o, "atomic:result", "atomic_xadd on %zu bytes returned %llx, expected %llx", sizeof(T), (unsigned long long)got, (unsigned long long)o);
      c.ok("atomic_xadd");
      break;
    }
    case 1:
    {
      T o = c.val();
      T got = atomic_xchg<T>(c.p(), a);
      c.set(a);
      mon::op("xchg %llx", (unsigned long long)a);
      CHECK(got == o, "atomic:result", "atomic_xchg on %zu bytes returned %llx, expected %llx", sizeof(T), (unsigned long long)got, (unsigned long long)o);
      c.ok("atomic_xchg");
      break;
    }
    case 2:
    {
      bool want = c.val() == b;
      bool got = asmcas<T>(c.p(), a, b) != 0;
      if(want) c.set(a);
      mon::op("cas %llx %llx", (unsigned long long)a, (unsigned long long)b);
      CHECK(got == want, "atomic:result", "asmcas on %zu bytes returned %d, expected %d", sizeof(T), got, want);
      c.ok("asmcas");
      break;
    }
    case 3:
    {
      T o = c.val();
      bool want = o == b;
      Cell<T> ret(r); // the returned value must not spill over its neighbours either
      bool got = asmcasr<T>(c.p(), a, b, *(T*)ret.p());
      ret.set(o);
      if(want) c.set(a);
      mon::op("casr %llx %llx", (unsigned long long)a, (unsigned long long)b);
      CHECK(got == want, "atomic:result", "asmcasr on %zu bytes returned %d, expected %d", sizeof(T), got, want);
      ret.ok("asmcasr result");
      c.ok("asmcasr");
      break;
    }
    }
  }
}
static void seq16(Rng& r)
{
  typedef bss_PTag<void> P;
  P* m = (P*)aligned_alloc(16, 48);
  P g[3];
  for(int i = 0; i < 3; ++i) { g[i].p = (void*)r.next(); g[i].tag = r.below(3); m[i] = g[i]; }
  for(int k = 0; k < 20; ++k)
  {
    P a = { (void*)r.below(3), r.below(3) };
    P b = g[1];
    if(r.chance(1, 3)) b.tag ^= 1;
    if(r.chance(1, 3)) b.p = (void*)((uintptr_t)b.p ^ 8);
    bool want = b.p == g[1].p && b.tag == g[1].tag;
    P ret = { 0, 0 };
    bool got, usev = r.chance(1, 2);
    if(usev) got = asmcasr<P>(&m[1], a, b, ret);
    else got = asmcas<P>(&m[1], a, b) != 0;
    mon::op("cas16 %d", (int)want);
    CHECK(got == want, "atomic:result", "16-byte compare-and-swap returned %d, expected %d", got, want);
    if(usev) CHECK(ret.p == g[1].p && ret.tag == g[1].tag, "atomic:result", "16-byte asmcasr returned the wrong previous value");
    if(want) g[1] = a;
    for(int i = 0; i < 3; ++i) CHECK(m[i].p == g[i].p && m[i].tag == g[i].tag, "atomic:value", "16-byte compare-and-swap left cell %d wrong", i);
  }
  free(m);
}
template<class T> static void seqbits(Rng& r)
{
  Cell<T> c(r);
  for(int k = 0; k < 30; ++k)
  {
    T bit = (T)r.below(sizeof(T) * 8);
    T o = c.val();
    bool was = (o >> bit) & 1, got;
    if(r.chance(1, 2)) { got = asmbts<T>((T*)c.p(), bit); c.set(o | ((T)1 << bit)); mon::op("bts %d", (int)bit); }
    else { got = asmbtr<T>((T*)c.p(), bit); c.set(o & ~((T)1 << bit)); mon::op("btr %d", (int)bit); }
    CHECK(got == was, "atomic:result", "bit test on %zu bytes returned %d, expected %d", sizeof(T), got, was);
    c.ok("bit test");
  }
  // compile-time constant indices select another instruction form
  T* p = (T*)c.p();
#define BIT(N) { T o = c.val(); bool was = (o >> (N)) & 1; bool got = asmbts<T>(p, (T)(N)); c.set(o | ((T)1 << (N))); CHECK(got == was, "atomic:result", "asmbts of constant bit %d on %zu bytes returned %d, expected %d", (int)(N), sizeof(T), got, was); c.ok("asmbts"); \
                 got = asmbtr<T>(p, (T)(N)); c.set(c.val() & ~((T)1 << (N))); CHECK(got, "atomic:result", "asmbtr of constant bit %d on %zu bytes returned %d, expected 1", (int)(N), sizeof(T), got); c.ok("asmbtr"); }
  BIT(0) BIT(1) BIT(7) BIT(sizeof(T) * 4) BIT(sizeof(T) * 8 - 2) BIT(sizeof(T) * 8 - 1)
}
template<class T> static void conc(Rng& r)
{
  int nt = (int)r.range(2, 6), ops = (int)r.range(100, 2000);
  uint64_t seed = r.next();
  long period = r.chance(1, 3) ? 0 : (long)r.range(20000, 90000);
  alignas(64) T cells[8];
  for(auto& x : cells) x = (T)0;
  mon::op("concurrent %zu bytes, %d threads, %d ops", sizeof(T), nt, ops);
  std::atomic<uint64_t> sum{ 0 }, casok{ 0 }, sumr{ 0 };
  // cell 1: xadd, cell 3: cas loop, cell 5: casr loop, cell 6: xchg of unique tokens
  std::vector<std::vector<T>> put(nt), got(nt);
  sch::run(nt, seed, period, [&](int t) {
    Rng q(seed ^ mon::mix(t + 1));
    for(int k = 0; k < ops; ++k)
    {
      T v = (T)q.below(5);
      atomic_xadd<T>(&cells[1], v);
      sum.fetch_add((uint64_t)v, std::memory_order_relaxed);
      for(;;)
      {
        T o = *(volatile T*)&cells[3];
        if(asmcas<T>(&cells[3], (T)(o + 1), o)) break;
      }
      casok.fetch_add(1, std::memory_order_relaxed);
      T o = (T)0;
      asmcasr<T>(&cells[5], o, o, o);
      while(!asmcasr<T>(&cells[5], (T)(o + 3), o, o)) ;
      sumr.fetch_add(3, std::memory_order_relaxed);
      T tok = (T)(t * ops + k + 1);
      put[t].push_back(tok);
      got[t].push_back(atomic_xchg<T>(&cells[6], tok));
    }
  });
  CHECK(cells[1] == (T)sum.load(), "atomic:lost", "concurrent atomic_xadd on %zu bytes lost updates", sizeof(T));
  CHECK(cells[3] == (T)casok.load(), "atomic:lost", "concurrent asmcas increments on %zu bytes: %llx, expected %llx", sizeof(T), (unsigned long long)cells[3], (unsigned long long)(T)casok.load());
  CHECK(cells[5] == (T)sumr.load(), "atomic:lost", "concurrent asmcasr increments on %zu bytes: %llx, expected %llx", sizeof(T), (unsigned long long)cells[5], (unsigned long long)(T)sumr.load());
  for(int i : { 0, 2, 4, 7 }) CHECK(cells[i] == (T)0, "atomic:neighbour", "a neighbouring cell changed");
  // every token put comes out exactly once, or is the one left
  std::vector<T> a, b;
  for(auto& v : put) a.insert(a.end(), v.begin(), v.end());
  for(auto& v : got) b.insert(b.end(), v.begin(), v.end());
  a.push_back((T)0);
  b.push_back(cells[6]);
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  CHECK(a == b, "atomic:lost", "tokens exchanged with atomic_xchg on %zu bytes were lost or duplicated", sizeof(T));
  mon::ev("concurrent_atomic_ops", (uint64_t)nt * ops * 4);
}
template<class T> static void concbits(Rng& r)
{
  int nt = (int)r.range(2, 6), ops = (int)r.range(100, 3000);
  uint64_t seed = r.next();
  long period = r.chance(1, 3) ? 0 : (long)r.range(20000, 90000);
  T w = 0;
  const int NB = sizeof(T) * 8;
  std::vector<std::atomic<int>> owner(NB);
  for(auto& o : owner) o = 0;
  mon::op("concurrent bits of %zu bytes, %d threads, %d ops", sizeof(T), nt, ops);
  std::atomic<uint64_t> acq{ 0 };
  sch::run(nt, seed, period, [&](int t) {
    Rng q(seed ^ mon::mix(t + 1));
    for(int k = 0; k < ops; ++k)
    {
      T b = (T)(q.chance(1, 2) ? NB - 1 - q.below(2) : q.below(NB));
      if(!asmbts<T>(&w, b))
      { // we own the bit until we reset it
        int e = 0;
        if(!owner[b].compare_exchange_strong(e, t + 1)) mon::fail("atomic:bit", "two threads both found bit %d clear and set it", (int)b);
        acq.fetch_add(1, std::memory_order_relaxed);
        owner[b].store(0);
        if(!asmbtr<T>(&w, b)) mon::fail("atomic:bit", "bit %d was cleared by someone else", (int)b);
      }
    }
  });
  CHECK(w == 0, "atomic:bit", "bits left set after every owner reset them: %llx", (unsigned long long)w);
  mon::ev("bits_acquired", acq);
}
static void conc16(Rng& r)
{ // (value, tag) pairs move together: p is always mix(tag)
  typedef bss_PTag<void> P;
  int nt = (int)r.range(2, 6), ops = (int)r.range(100, 2000);
  uint64_t seed = r.next();
  alignas(16) P cell = { (void*)mon::mix(0), 0 };
  long period = r.chance(1, 3) ? 0 : (long)r.range(20000, 90000);
  mon::op("concurrent 16 bytes, %d threads, %d ops", nt, ops);
  sch::run(nt, seed, period, [&](int t) {
    for(int k = 0; k < ops; ++k)
    {
      P o = { 0, 0 }, n;
      asmcasr<P>(&cell, o, o, o);
      do
      {
        if((uint64_t)o.p != mon::mix(o.tag)) mon::fail("atomic:torn", "a 16-byte compare-and-swap returned a torn value");
        n.tag = o.tag + 1;
        n.p = (void*)mon::mix(n.tag);
      } while(!asmcasr<P>(&cell, n, o, o));
    }
  });
  CHECK(cell.tag == (size_t)nt * ops && (uint64_t)cell.p == mon::mix(cell.tag), "atomic:lost", "16-byte compare-and-swap increments were lost");
  mon::ev("concurrent_atomic_ops", (uint64_t)nt * ops);
}
void mon_case(Rng& r, uint64_t c)
{
  mon::nontrivial();
  switch(c % 10)
  {
  case 0: seq<uint8_t>(r); seq<int8_t>(r); break;
  case 1: seq<uint16_t>(r); seq<int16_t>(r); break;
  case 2: seq<uint32_t>(r); seq<int32_t>(r); break;
  case 3: seq<uint64_t>(r); seq<int64_t>(r); break;
  case 4: seq16(r); seqbits<uint32_t>(r); seqbits<uint64_t>(r); break;
  case 5: conc<uint8_t>(r); conc<uint16_t>(r); break;
  case 6: conc<uint32_t>(r); break;
  case 7: conc<uint64_t>(r); break;
  case 8: concbits<uint32_t>(r); concbits<uint64_t>(r); break;
  case 9: conc16(r); break;
  }
}
