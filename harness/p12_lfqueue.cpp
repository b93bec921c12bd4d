// LocklessQueue (one producer, one consumer) and MicroLockQueue (many of each): recorded histories checked offline.
#define MON_BALANCE 0
#include "mon.h"
#include "perturb.h"
#include <deque>
#include "bss-util/LocklessQueue.h"
using namespace bss;
using mon::Rng;
#if defined(__SANITIZE_THREAD__)
// under the race detector the harness itself may not order the two threads, or it would hide a missing ordering in the queue
#define PUB std::memory_order_relaxed
#define SUB std::memory_order_relaxed
#define JUDGE_EMPTY 0
#else
#define PUB std::memory_order_release
#define SUB std::memory_order_acquire
#define JUDGE_EMPTY 1
#endif

struct Item // id = producer * 2^32 + seq; the payload lives in tracked heap memory
{
  uint64_t id;
  mon::Trk t;
  Item() : id(~0ull), t(0) {}
  explicit Item(uint64_t i) : id(i), t((int)(i * 2654435761u)) {}
  Item(const Item&) = default;
  Item(Item&&) = default;
  Item& operator=(const Item&) = default;
  Item& operator=(Item&&) = default;
  void check() const
  {
    if(t.get() != (int)(id * 2654435761u)) mon::fail("q:payload", "item %llx arrived with another item's payload", (unsigned long long)id);
  }
};
struct Rec { uint64_t id, s, e; };
static inline uint64_t pid(int p, uint64_t k) { return ((uint64_t)p << 32) | k; }

template<class T> struct Mk { static T mk(uint64_t i) { return T(i); } static uint64_t id(const T& t) { return t; } };
template<> struct Mk<Item> { static Item mk(uint64_t i) { return Item(i); } static uint64_t id(const Item& t) { t.check(); return t.id; } };

template<class Q, class T> static void push(Q& q, Rng& r, uint64_t id)
{
  if(r.chance(1, 2)) { T v(Mk<T>::mk(id)); q.Push(v); }
  else q.Push(Mk<T>::mk(id));
}
// every pushed item is popped at most once; what is left plus what was popped is what was pushed; FIFO as far as real time fixes it
static void judge(const char* nm, std::vector<std::vector<Rec>>& pushes, std::vector<std::vector<Rec>>& pops, std::vector<uint64_t>& left)
{
  struct J { uint64_t ps, pe, qs, qe; bool pushed, popped; };
  std::vector<std::vector<J>> all(pushes.size());
  uint64_t total = 0, taken = 0;
  for(size_t p = 0; p < pushes.size(); ++p)
  {
    all[p].resize(pushes[p].size());
    for(size_t k = 0; k < pushes[p].size(); ++k) all[p][k] = J{ pushes[p][k].s, pushes[p][k].e, ~0ull, ~0ull, true, false };
    total += pushes[p].size();
  }
  for(auto& c : pops)
  {
    std::vector<int64_t> last(pushes.size(), -1);
    for(auto& x : c)
    {
      size_t p = x.id >> 32, k = x.id & 0xffffffff;
      CHECK(p < all.size() && k < all[p].size(), "q:invented", "%s: popped an item that was never pushed (%llx)", nm, (unsigned long long)x.id);
      CHECK(!all[p][k].popped, "q:duplicate", "%s: item %zu of producer %zu was popped twice", nm, k, p);
      all[p][k].popped = true;
      all[p][k].qs = x.s;
      all[p][k].qe = x.e;
      CHECK((int64_t)k > last[p], "q:order", "%s: a consumer received item %zu of producer %zu after item %lld", nm, k, p, (long long)last[p]);
      last[p] = k;
      ++taken;
    }
  }
  uint64_t t = ~0ull - 1000000;
  for(uint64_t id : left)
  { // popped one after another once all threads were done: later than everything else
    size_t p = id >> 32, k = id & 0xffffffff;
    CHECK(p < all.size() && k < all[p].size(), "q:invented", "%s: an item that was never pushed is left in the queue", nm);
    CHECK(!all[p][k].popped, "q:duplicate", "%s: item %zu of producer %zu was popped and is still in the queue", nm, k, p);
    all[p][k].popped = true;
    all[p][k].qs = t++;
    all[p][k].qe = t++;
    ++taken;
  }
  CHECK(taken == total, "q:lost", "%s: %llu items were pushed, %llu came out", nm, (unsigned long long)total, (unsigned long long)taken);
  // if push(a) ended before push(b) began, pop(b) may not end before pop(a) begins
  std::vector<J> v;
  for(auto& p : all) v.insert(v.end(), p.begin(), p.end());
  std::vector<J> bystart(v), byend(v);
  std::sort(bystart.begin(), bystart.end(), [](const J& a, const J& b) { return a.ps < b.ps; });
  std::sort(byend.begin(), byend.end(), [](const J& a, const J& b) { return a.pe < b.pe; });
  size_t j = 0;
  uint64_t maxqs = 0;
  for(auto& b : bystart)
  {
    while(j < byend.size() && byend[j].pe < b.ps) { maxqs = std::max(maxqs, byend[j].qs); ++j; }
    CHECK(b.qe >= maxqs, "q:order", "%s: an item was popped entirely before one that had been pushed entirely before it", nm);
  }
  mon::ev("history_events_judged", total * 2);
}
static std::atomic<uint64_t> clk{ 1 };

template<class T> static void mpmc(Rng& r)
{
  typedef MicroLockQueue<T, size_t> Q;
  typedef LocklessBlockPolicy<internal::LQ_QNode<T>> POL;
  int np = (int)r.range(1, 4), nc = (int)r.range(1, 4), per = (int)r.range(50, 1500);
  uint64_t seed = r.next();
  long period = r.chance(1, 5) ? 0 : (long)r.range(15000, 100000);
  int burst = (int)r.range(1, 40);
  mon::op("MicroLockQueue producers=%d consumers=%d per=%d burst=%d period=%ld", np, nc, per, burst, period);
  POL pol(r.below(20));
  {
    Q q(&pol);
    std::vector<std::vector<Rec>> pu(np), po(nc);
    for(auto& v : pu) v.reserve(per);
    std::atomic<uint64_t> pushed{ 0 }, popped{ 0 };
    std::atomic<int> done{ 0 };
    bool drain = r.chance(2, 3);
    uint64_t empties = 0;
    sch::run(np + nc, seed, period, [&](int t) {
      Rng g(seed ^ mon::mix(t + 5));
      if(t < np)
      {
        for(int k = 0; k < per; ++k)
        {
          Rec x;
          x.id = pid(t, k);
          x.s = clk.fetch_add(1);
          push<Q, T>(q, g, x.id);
          x.e = clk.fetch_add(1);
          pu[t].push_back(x);
          pushed.fetch_add(1);
          if(k % burst == 0 && g.chance(1, 3)) sched_yield();
        }
        done++;
      }
      else
      {
        uint64_t mine = 0, quota = drain ? ~0ull : (uint64_t)per / 2;
        while(mine < quota)
        {
          bool fin = done == np;
          uint64_t have = pushed.load();
          T v;
          Rec x;
          x.s = clk.fetch_add(1);
          bool ok = q.Pop(v);
          x.e = clk.fetch_add(1);
          if(!ok)
          {
            if(nc == 1 && have > mine) mon::fail("q:false-empty", "Pop found nothing although %llu items had been pushed and only %llu popped", (unsigned long long)have, (unsigned long long)mine);
            if(fin) break;
            ++empties;
            if(g.chance(1, 3)) sched_yield();
            continue;
          }
          x.id = Mk<T>::id(v);
          po[t - np].push_back(x);
          ++mine;
          popped.fetch_add(1);
        }
      }
    });
    std::vector<uint64_t> left;
    uint64_t rest = pushed - popped;
    CHECK(q.Length() == rest, "q:length", "Length is %zu when %llu items are in the queue", q.Length(), (unsigned long long)rest);
    CHECK(q.Peek() == (rest > 0), "q:peek", "Peek is %d when %llu items are in the queue", (int)q.Peek(), (unsigned long long)rest);
    if(r.chance(3, 4))
    {
      T v;
      while(q.Pop(v)) left.push_back(Mk<T>::id(v));
      CHECK(q.Length() == 0 && !q.Peek(), "q:length", "an emptied queue is not empty");
      T w;
      CHECK(!q.Pop(w), "q:false-full", "Pop succeeded on an empty queue");
      judge("MicroLockQueue", pu, po, left);
    }
    else mon::ev("destroyed_nonempty");
    mon::note(sch::preempts);
    mon::note(empties);
  }
}
template<class T> static void spsc(Rng& r)
{
#if defined(__SANITIZE_THREAD__)
  typedef LocklessQueue<T> Q; // without the length counter, which would order the threads by itself
#define LEN_OK(Q, N) true
#else
  typedef LocklessQueue<T, size_t> Q;
#define LEN_OK(Q, N) ((Q).Length() == (N))
#endif
  typedef BlockPolicy<internal::LQ_QNode<T>> POL;
  int per = (int)r.range(50, 3000);
  uint64_t seed = r.next();
  long period = r.chance(1, 5) ? 0 : (long)r.range(15000, 100000);
  int burst = (int)r.range(1, 60);
  mon::op("LocklessQueue per=%d burst=%d period=%ld", per, burst, period);
  POL pol(r.range(0, 20));
  {
    Q q(&pol);
    std::atomic<uint64_t> pushed{ 0 };
    std::atomic<bool> done{ false };
    uint64_t got = 0, quota = r.chance(2, 3) ? ~0ull : (uint64_t)per / 2;
    sch::run(2, seed, period, [&](int t) {
      Rng g(seed ^ mon::mix(t + 5));
      if(t == 0)
      {
        for(int k = 0; k < per; ++k)
        {
          push<Q, T>(q, g, pid(0, k));
          pushed.store(k + 1, PUB);
          if(k % burst == 0 && g.chance(1, 2)) sched_yield();
        }
        done = true;
      }
      else
        while(got < quota)
        {
          bool fin = done;
          uint64_t have = pushed.load(SUB);
          bool pk = g.chance(1, 6) ? q.Peek() : true;
          if(JUDGE_EMPTY && !pk && have > got) mon::fail("q:peek", "Peek found nothing although items are waiting");
          T v;
          if(!q.Pop(v))
          {
            if(JUDGE_EMPTY && have > got) mon::fail("q:false-empty", "Pop found nothing although %llu items had been pushed and only %llu popped", (unsigned long long)have, (unsigned long long)got);
            if(fin) break;
            if(g.chance(1, 3)) sched_yield();
            continue;
          }
          uint64_t id = Mk<T>::id(v);
          if(id != pid(0, got)) mon::fail("q:order", "popped item %llu, expected %llu", (unsigned long long)id, (unsigned long long)got);
          ++got;
        }
    });
    CHECK(LEN_OK(q, per - got), "q:length", "Length is wrong when %llu items are in the queue", (unsigned long long)(per - got));
    CHECK(q.Peek() == (got < (uint64_t)per), "q:peek", "Peek is wrong on a queue at rest");
    if(r.chance(3, 4))
    {
      T v;
      while(q.Pop(v)) { CHECK(Mk<T>::id(v) == pid(0, got), "q:order", "popped the wrong item"); ++got; }
      CHECK(got == (uint64_t)per, "q:lost", "%d items pushed, %llu popped", per, (unsigned long long)got);
      CHECK(LEN_OK(q, 0) && !q.Peek(), "q:length", "an emptied queue is not empty");
    }
    else mon::ev("destroyed_nonempty");
    mon::ev("history_events_judged", per * 2);
    mon::note(sch::preempts);
  }
}
// used from one thread: exact FIFO against a model, interleaved pushes and pops
template<class Q, class T> static void seq(Rng& r, const char* nm)
{
  Q q;
  std::deque<uint64_t> m;
  uint64_t k = 0;
  int n = (int)r.range(1, 200), bias = (int)r.range(3, 7);
  mon::op("%s from one thread", nm);
  for(int i = 0; i < n; ++i)
  {
    if(r.chance(bias, 10)) { push<Q, T>(q, r, k); m.push_back(k++); mon::op("push"); }
    else
    {
      T v;
      bool ok = q.Pop(v);
      mon::op("pop %d", ok);
      CHECK(ok == !m.empty(), "q:false-empty", "%s: Pop returned %d with %zu items queued", nm, ok, m.size());
      if(ok) { CHECK(Mk<T>::id(v) == m.front(), "q:order", "%s: wrong item", nm); m.pop_front(); }
    }
    CHECK(q.Length() == m.size(), "q:length", "%s: Length %zu expected %zu", nm, q.Length(), m.size());
    CHECK(q.Peek() == !m.empty(), "q:peek", "%s: Peek wrong", nm);
  }
}
void mon_case(Rng& r, uint64_t c)
{
  mon::nontrivial();
#ifdef ONLY_SPSC
  if(c & 1) spsc<uint64_t>(r); else spsc<Item>(r);
#else
  switch(c % 6)
  {
  case 0: mpmc<Item>(r); break;
  case 1: mpmc<uint64_t>(r); break;
  case 2: spsc<Item>(r); break;
  case 3: spsc<uint64_t>(r); break;
  case 4: mpmc<Item>(r); break;
  case 5: seq<LocklessQueue<Item, size_t>, Item>(r, "LocklessQueue"); seq<MicroLockQueue<Item, size_t>, Item>(r, "MicroLockQueue"); break;
  }
#endif
}
