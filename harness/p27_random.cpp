// Monitor for timers, scheduled events and random selection. The clock the library reads is ours.
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/algo.h"
#include "bss-util/Scheduler.h"
#include "bss-util/AliasTable.h"
#include "bss-util/RandomQueue.h"
#include "bss-util/XorshiftEngine.h"
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <math.h>
#include <time.h>
using namespace bss;
using mon::Rng;
using mon::Trk;
using mon::TrkR;

static uint64_t CLOCK = 1000000000ull; // nanoseconds
extern "C" int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = CLOCK / 1000000000ull; t->tv_nsec = CLOCK % 1000000000ull; return 0; }

static bool near(double a, double b, double tol) { return fabs(a - b) <= tol + 1e-12 * (fabs(a) + fabs(b)); }

static void timer(Rng& r)
{
  HighPrecisionTimer* t = new HighPrecisionTimer();
  uint64_t cur = CLOCK, ns = 0, d = 0;
  double dms = 0;
  for(int i = (int)r.below(40); i > 0; --i)
  {
    uint64_t step = r.chance(1, 6) ? 0 : r.chance(1, 4) ? r.below(5000000000ull) : r.below(40000000);
    bool back = r.chance(1, 8); // a clock that steps back must not take time back
    int w = (int)r.below(8);
    if(w >= 4) back = false;
    if(back) { CLOCK -= std::min<uint64_t>(step, CLOCK - 1000); } else CLOCK += step;
    uint64_t e = CLOCK > cur ? CLOCK - cur : 0;
    double ret = 0;
    switch(w)
    {
    case 0: case 1:
      mon::op("clock %c%llu update", back ? '-' : '+', (unsigned long long)step);
      ret = t->Update();
      cur = std::max(cur, CLOCK);
      d = e; dms = e / 1e6; ns += e;
      CHECK(ret == t->GetDelta(), "timer:return", "Update returned %g, the delta is %g", ret, t->GetDelta());
      break;
    case 2: case 3:
    {
      double warp = r.chance(1, 4) ? 1.0 : r.chance(1, 3) ? 1 << r.below(4) : 0.1 + r.unit() * 10;
      mon::op("clock %c%llu update warped %g", back ? '-' : '+', (unsigned long long)step, warp);
      ret = t->Update(warp);
      cur = std::max(cur, CLOCK);
      dms = e / 1e6 / warp;
      uint64_t got = t->GetDeltaNS();
      CHECK(fabs((double)got - e / warp) <= 2 + 1e-9 * e, "timer:warp", "%llu ns warped by %g became %llu ns", (unsigned long long)e, warp, (unsigned long long)got);
      d = got; ns += got; // to the nanosecond
      CHECK(ret == t->GetDelta(), "timer:return", "Update returned %g, the delta is %g", ret, t->GetDelta());
      break;
    }
    case 4: { uint64_t o = r.below(100000000); mon::op("clock +%llu override %llu ns", (unsigned long long)step, (unsigned long long)o); t->Override(o); cur = CLOCK; d = o; dms = o / 1e6; ns += o; break; }
    case 5: { double o = r.below(400000) / 64.0; mon::op("clock +%llu override %g ms", (unsigned long long)step, o); t->Override(o); cur = CLOCK; d = (uint64_t)(o * 1e6); dms = o; ns += d; break; }
    case 6: mon::op("clock +%llu reset delta", (unsigned long long)step); t->ResetDelta(); cur = CLOCK; d = 0; dms = 0; break;
    case 7:
      if(r.chance(1, 2)) { mon::op("reset time"); t->ResetTime(); ns = 0; }
      else { mon::op("copy"); HighPrecisionTimer* n = new HighPrecisionTimer(*t); if(r.chance(1, 2)) *n = *t; delete t; t = n; }
      break;
    }
    CHECK(t->GetDeltaNS() == d, "timer:delta-ns", "delta is %llu ns, expected %llu", (unsigned long long)t->GetDeltaNS(), (unsigned long long)d);
    CHECK(near(t->GetDelta(), dms, 1e-6), "timer:delta", "delta is %.9g ms, expected %.9g", t->GetDelta(), dms);
    CHECK(t->GetTimeNS() == ns, "timer:time-ns", "time is %llu ns, expected %llu", (unsigned long long)t->GetTimeNS(), (unsigned long long)ns);
    CHECK(near(t->GetTime(), ns / 1e6, 1e-6), "timer:time", "time is %.9g ms, expected %.9g", t->GetTime(), ns / 1e6);
  }
  uint64_t b = HighPrecisionTimer::OpenProfiler();
  uint64_t k = r.below(1ull << 40);
  CLOCK += k;
  CHECK(HighPrecisionTimer::CloseProfiler(b) == k, "timer:profiler", "a profile of %llu ns reported something else", (unsigned long long)k);
  CHECK(near(HighPrecisionTimer::NanosecondDiff(b + k, b), k / 1e9, 1e-9), "timer:diff", "difference of %llu ns", (unsigned long long)k);
  delete t;
  mon::nontrivial();
}

// ---- scheduler
struct Sched;
struct Ev
{
  Sched* o; int id; Trk t;
  Ev() : o(0), id(-1), t(0) {}
  Ev(Sched* s, int i) : o(s), id(i), t(i) {}
  double operator()() const;
};
struct Sched
{
  Rng& r;
  Scheduler<Ev>* s;
  std::map<int, double> due; // pending events
  double now = 0;
  uint64_t start;
  int next = 0, running = -1, budget = 30;
  bool updating = false;
  Sched(Rng& x) : r(x), s(new Scheduler<Ev>()), start(CLOCK) {}
  ~Sched() { delete s; }
  double quantum(int n) { return r.below(n) * 0.5; }
  void add(double t)
  {
    int id = next++;
    mon::op("%sadd %d in %g", updating ? "  event " : "", id, t);
    due[id] = now + t;
    if(r.chance(1, 2)) { Ev e(this, id); s->Add(t, e); }
    else s->Add(t, Ev(this, id));
  }
  double fired(int id)
  {
    mon::op("  fired %d", id);
    CHECK(updating, "scheduler:outside", "event %d was called outside an update", id);
    CHECK(running < 0, "scheduler:nested", "event %d was called inside event %d", id, running);
    CHECK(due.count(id), "scheduler:unknown", "event %d was called and is not pending", id);
    double t = due[id];
    CHECK(t <= now, "scheduler:early", "event %d is due at %g and was called at %g", id, t, now);
    for(auto& p : due) CHECK(p.second >= t, "scheduler:order", "event %d due at %g was called before event %d due at %g", id, t, p.first, p.second);
    due.erase(id);
    running = id;
    mon::ev("events fired");
    if(budget > 0 && r.chance(1, 3)) { --budget; add(quantum(12)); mon::ev("events added by events"); }
    running = -1;
    double ret = r.chance(1, 3) ? 0.0 : r.chance(1, 4) ? -quantum(9) : budget <= 0 ? 0.0 : r.chance(1, 5) ? ldexp(1.0, -(int)r.below(30)) : 0.5 + quantum(20);
    if(ret > 0) { --budget; due[id] = now + ret; mon::ev("events rescheduled"); }
    mon::op("  returns %g", ret);
    return ret;
  }
  void update()
  {
    updating = true;
    now = (CLOCK - start) / 1e6;
    s->Update();
    updating = false;
    for(auto& p : due) CHECK(p.second > now, "scheduler:missed", "event %d due at %g was not called by the update at %g", p.first, p.second, now);
  }
};
double Ev::operator()() const { CHECK(o && t.get() == id, "scheduler:stale", "an event that is not there any more was called"); return o->fired(id); }
static void sched(Rng& r)
{
  Sched s(r);
  for(int i = (int)r.below(40); i > 0; --i)
  {
    switch(r.below(8))
    {
    case 0: case 1: case 2: s.add(s.quantum(r.chance(1, 4) ? 200 : 20)); break;
    case 3: { mon::op("moved"); Scheduler<Ev>* n = new Scheduler<Ev>(std::move(*s.s)); delete s.s; s.s = n; break; }
    case 4: { mon::op("copied"); Scheduler<Ev> c(*s.s); CHECK(c.Length() == s.due.size(), "scheduler:copy", "a copy has %zu events", (size_t)c.Length()); break; }
    default: { uint64_t k = r.chance(1, 5) ? 0 : r.below(r.chance(1, 6) ? 100 : 12); mon::op("update after %g", k * .5); CLOCK += k * 500000; s.update(); break; }
    }
    CHECK(s.s->Length() == s.due.size(), "scheduler:length", "%zu events are pending, expected %zu", (size_t)s.s->Length(), s.due.size());
  }
  mon::nontrivial();
}

// ---- alias tables
template<class U, class F> static void alias(Rng& r)
{
  size_t n = 1 + r.below(r.chance(1, 4) ? 200 : 9);
  std::vector<F> p(n);
  double sum = 0;
  for(auto& x : p) { x = r.chance(1, 5) ? 0 : r.chance(1, 5) ? (F)(r.unit() * 100) : r.chance(1, 3) ? (F)1 : (F)r.unit(); sum += x; }
  if(sum == 0) { p[0] = 1; sum = 1; }
  for(auto& x : p) x = (F)(x / sum);
  typedef AliasTable<U, F> A;
  A* a = new A(p.data(), (U)n);
  mon::op("alias table of %zu", n);
  for(int k = (int)r.below(4); k > 0; --k)
  {
    A* b = 0;
    int w = (int)r.below(7);
    mon::op("way %d", w);
    switch(w)
    {
    case 0: b = new A(*a); break;
    case 1: b = new A(std::move(*a)); break;
    case 2: b = new A(); *b = *a; break;
    case 3: b = new A(p.data(), (U)1); *b = std::move(*a); break;
    case 4: { A& c = *a; *a = c; continue; }
    case 5: case 6: // over a table of another size
    {
      size_t on = 1 + r.below(r.chance(1, 2) ? 2 * n + 2 : 4);
      std::vector<F> op(on, (F)(1.0 / on));
      b = new A(op.data(), (U)on);
      if(w == 5) *b = *a; else *b = std::move(*a);
      mon::ev("alias tables assigned over another");
      break;
    }
    }
    delete a;
    a = b;
  }
  CHECK(a->GetCount() == n, "alias:count", "the table has %zu entries, expected %zu", (size_t)a->GetCount(), n);
  // each of the n columns is hit with probability 1/n: the probabilities the table stands for must be the ones it was given
  std::vector<double> q(n, 0.0);
  const F* pr = a->GetProbabilities();
  const U* al = a->GetAliases();
  for(size_t i = 0; i < n; ++i)
  {
    CHECK(pr[i] >= 0 && pr[i] <= 1, "alias:range", "column %zu has probability %g", i, (double)pr[i]);
    q[i] += pr[i];
    if(pr[i] < 1) { CHECK(al[i] < n, "alias:alias", "column %zu has alias %zu of %zu", i, (size_t)al[i], n); q[al[i]] += 1.0 - pr[i]; }
  }
  double tol = (sizeof(F) == 4 ? 1e-5 : 1e-13) * n;
  for(size_t i = 0; i < n; ++i)
    CHECK(fabs(q[i] / n - p[i]) <= tol, "alias:probability", "entry %zu of %zu is drawn with probability %.9g instead of %.9g", i, n, q[i] / n, (double)p[i]);
  // and what is drawn must follow them
  XorshiftEngine64 e(r.next());
  const size_t N = 3000;
  std::vector<size_t> c(n, 0);
  if(r.chance(1, 2)) bssRandSeed(r.next());
  int how = (int)r.below(3);
  for(size_t i = 0; i < N; ++i)
  {
    size_t k = how == 0 ? a->Get(e) : how == 1 ? (*a)(e) : (*a)();
    CHECK(k < n, "alias:outside", "drew %zu of %zu", k, n);
    ++c[k];
  }
  for(size_t i = 0; i < n; ++i)
  {
    if(p[i] == 0) CHECK(!c[i], "alias:impossible", "entry %zu with probability 0 was drawn", i);
    double m = N * (double)p[i];
    CHECK(fabs(c[i] - m) <= 8 * sqrt(m) + 12, "alias:frequency", "entry %zu with probability %g was drawn %zu times of %zu", i, (double)p[i], c[i], N);
  }
  delete a;
  mon::ev("alias tables");
  mon::nontrivial();
}

// ---- random queue
template<class T, ARRAY_TYPE AT> static void rqueue(Rng& r)
{
  typedef RandomQueue<T, uint32_t, AT> Q;
  const int N = 3;
  Q* q[N];
  std::multiset<int> m[N];
  for(auto& x : q) x = new Q((uint32_t)r.below(5));
  int next = 1;
  XorshiftEngine64 e(r.next());
  bssRandSeed(r.next());
  for(int i = (int)r.below(60); i > 0; --i)
  {
    int a = (int)r.below(N), b = (int)r.below(N);
    switch(r.below(12))
    {
    case 0: case 1: case 2: case 3: { mon::op("%d push %d", a, next); if(r.chance(1, 2)) { T x(next); q[a]->Push(x); } else q[a]->Push(T(next)); m[a].insert(next++); break; }
    case 4: case 5:
      if(!m[a].empty())
      {
        T x = r.chance(1, 2) ? q[a]->Pop() : q[a]->Pop(e);
        int v = (int)x;
        mon::op("%d pop %d", a, v);
        auto it = m[a].find(v);
        CHECK(it != m[a].end(), "rqueue:pop", "queue %d popped %d, which is not in it", a, v);
        m[a].erase(it);
      }
      break;
    case 6:
      if(!m[a].empty())
      {
        uint32_t k = (uint32_t)r.below(m[a].size());
        int v = (int)q[a]->begin()[k];
        mon::op("%d remove %u (%d)", a, k, v);
        q[a]->Remove(k);
        auto it = m[a].find(v);
        CHECK(it != m[a].end(), "rqueue:index", "queue %d showed %d, which is not in it", a, v);
        m[a].erase(it);
      }
      break;
    case 7: mon::op("%d = %d", a, b); *q[a] = *q[b]; m[a] = m[b]; break;
    case 8: { mon::op("%d copied or moved", a); Q* n = r.chance(1, 2) ? new Q(*q[a]) : new Q(std::move(*q[a])); delete q[a]; q[a] = n; break; }
    case 9: if(a != b) { mon::op("%d = moved %d", a, b); *q[a] = std::move(*q[b]); m[a] = m[b]; delete q[b]; q[b] = new Q(); m[b].clear(); } break;
    case 10: if(a != b && m[a].size() + m[b].size() < 60) { mon::op("%d += %d", a, b); if(r.chance(1, 2)) *q[a] += *q[b]; else { Q* n = new Q(*q[a] + *q[b]); delete q[a]; q[a] = n; } m[a].insert(m[b].begin(), m[b].end()); } break;
    case 11: if(r.chance(1, 4)) { mon::op("%d clear", a); q[a]->Clear(); m[a].clear(); } break;
    }
    for(int k = 0; k < N; ++k)
    {
      CHECK(q[k]->Length() == m[k].size() && q[k]->Empty() == m[k].empty(), "rqueue:length", "queue %d has %zu items, expected %zu", k, (size_t)q[k]->Length(), m[k].size());
      std::multiset<int> x;
      for(auto& v : *q[k]) x.insert((int)v);
      CHECK(x == m[k], "rqueue:items", "queue %d does not hold the items that were pushed and not popped", k);
    }
  }
  for(auto x : q) delete x;
  mon::nontrivial();
}

// ---- Poisson disk sampling
template<class T> static void poisson(Rng& r)
{
  T x = (T)r.range(-50, 50), y = (T)r.range(-50, 50);
  T w = (T)(r.chance(1, 5) ? r.unit() * 2 : r.unit() * 30), h = (T)(r.chance(1, 5) ? r.unit() * 2 : r.unit() * 30), d = (T)(0.8 + r.unit() * 4);
  T rect[4] = { x, y, x + w, y + h };
  bssRandSeed(r.next());
  struct Pt { T x, y; };
  std::vector<Pt> pts;
  mon::op("poisson %g %g %g %g by %g", (double)rect[0], (double)rect[1], (double)rect[2], (double)rect[3], (double)d);
  PoissonDiskSample<T>(rect, d, [&](T* p) { pts.push_back(Pt{ p[0], p[1] }); return 0; }, 5 + r.below(30));
  CHECK(!pts.empty(), "poisson:none", "no point was produced");
  for(size_t i = 0; i < pts.size(); ++i)
  {
    CHECK(pts[i].x >= rect[0] && pts[i].x <= rect[2] && pts[i].y >= rect[1] && pts[i].y <= rect[3], "poisson:outside", "point %zu (%g,%g) is outside the rectangle", i, (double)pts[i].x, (double)pts[i].y);
    for(size_t j = 0; j < i; ++j)
    {
      double q = hypot((double)pts[i].x - pts[j].x, (double)pts[i].y - pts[j].y);
      CHECK(q >= d * (1 - 1e-4), "poisson:close", "points %zu and %zu are %g apart, less than %g", j, i, q, (double)d);
    }
  }
  mon::ev("poisson points", pts.size());
  mon::nontrivial();
}

// ---- generators against the published algorithms
struct Ref
{
  uint64_t s[16]; int p = 0;
  static uint64_t star64(uint64_t& x) { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; return x * 2685821657736338717ull; }
  uint64_t operator()() { uint64_t a = s[p]; uint64_t b = s[p = (p + 1) & 15]; b ^= b << 31; b ^= b >> 11; a ^= a >> 30; return (s[p] = a ^ b) * 1181783497276652981ull; }
};
static void engine(Rng& r)
{
  uint64_t seed = r.chance(1, 8) ? 0 : r.chance(1, 6) ? 1 : r.next();
  XorshiftEngine64 a(seed), b(seed);
  XorshiftEngine<uint32_t> c(seed);
  mon::op("seed %llu", (unsigned long long)seed);
  CHECK(a == b && !(a != b), "engine:equal", "two engines with the same seed differ");
  uint64_t any = 0;
  for(int i = 0; i < 40; ++i) { uint64_t v = a(), w = b(); uint32_t u = c(); CHECK(v == w && u == (uint32_t)v, "engine:same", "the same seed gave different numbers"); any |= v; }
  CHECK(any != 0, "engine:stuck", "seed %llu gives only zeros", (unsigned long long)seed);
  XorshiftEngine64 other(seed + 1 + r.below(1000));
  CHECK(other != a && !(other == a), "engine:distinct", "different seeds gave equal engines");
  // a known state gives the published sequence
  uint64_t st[16];
  Ref ref;
  for(int i = 0; i < 16; ++i) st[i] = ref.s[i] = r.next();
  uint64_t x = r.next() | 1, y = x;
  for(int i = 0; i < 20; ++i) { uint64_t g = xorshift64star(x), w = Ref::star64(y); CHECK(g == w && x == y, "engine:star64", "xorshift64* differs from the published algorithm"); }
  XorshiftEngine64 k(st);
  for(int i = 0; i < 60; ++i) { uint64_t g = k(), w = ref(); CHECK(g == w, "engine:star1024", "number %d differs from the published xorshift1024*", i); }
  // discarding is the same as drawing
  unsigned long long z = r.below(300);
  XorshiftEngine64 l(k);
  l.discard(z);
  for(unsigned long long i = 0; i < z; ++i) k();
  CHECK(k == l && k() == l(), "engine:discard", "discarding %llu numbers is not the same as drawing them", z);
  if(r.chance(1, 2)) { k.seed(seed); XorshiftEngine64 m(seed); CHECK(k == m, "engine:reseed", "an engine that was seeded again differs from a new one"); }
  else { k.seed(st); XorshiftEngine64 m(st); CHECK(k == m && k() == m(), "engine:reseed", "an engine that was seeded again differs from a new one"); }
  CHECK(XorshiftEngine64::min() == 0 && XorshiftEngine64::max() == ~0ull && XorshiftEngine<uint32_t>::max() == 0xffffffffu, "engine:limits", "wrong limits");
  uint64_t v = XorshiftRand(seed ? seed : 5), w = XorshiftRand(), v2 = XorshiftRand(seed ? seed : 5), w2 = XorshiftRand();
  CHECK(v == v2 && w == w2, "engine:rand", "the same seed gave different numbers");
  mon::nontrivial();
}

// ---- distributions: bounds far beyond what chance can produce
static void shuffles(Rng& r)
{
  int n = (int)r.range(2, 4), perms = n == 2 ? 2 : n == 3 ? 6 : 24;
  const int per = 120, N = perms * per;
  XorshiftEngine64 e(r.next());
  bssRandSeed(r.next());
  std::map<std::vector<int>, int> c;
  int how = (int)r.below(2), how2 = (int)r.below(2);
  mon::op("shuffle %d", n);
  for(int i = 0; i < N; ++i)
  {
    int p[4] = { 0, 1, 2, 3 };
    if(n == 4 && how2) { if(how) Shuffle<int, uint32_t, XorshiftEngine64, 4>(p, e); else Shuffle<int, 4>(p); }
    else if(how) Shuffle<int, uint32_t, XorshiftEngine64>(p, (uint32_t)n, e); else Shuffle<int>((int*)p, n);
    ++c[std::vector<int>(p, p + n)];
  }
  double x2 = (double)(perms - (int)c.size()) * per;
  for(auto& p : c)
  {
    std::vector<int> s = p.first;
    std::sort(s.begin(), s.end());
    for(int i = 0; i < n; ++i) CHECK(s[i] == i, "shuffle:permutation", "shuffling lost or duplicated an element");
    x2 += (p.second - per) * (double)(p.second - per) / per;
  }
  CHECK(x2 < 60 + 4 * perms, "shuffle:uniform", "%d shuffles of %d elements: chi-square %g over %d orders", N, n, x2, perms);
  // popping from a random queue
  int m = (int)r.range(2, 6);
  std::vector<int> d(m, 0);
  for(int i = 0; i < m * per; ++i)
  {
    RandomQueue<int> q;
    for(int k = 0; k < m; ++k) q.Push(k);
    int v = how ? q.Pop(e) : q.Pop();
    CHECK(v >= 0 && v < m, "rqueue:pop", "popped %d", v);
    ++d[v];
  }
  double y2 = 0;
  for(int v : d) y2 += (v - per) * (double)(v - per) / per;
  CHECK(y2 < 80, "rqueue:uniform", "%d pops from %d items: chi-square %g", m * per, m, y2);
  // integers over a small range
  int64_t lo = r.range(-20, 20), k = r.range(1, 12);
  std::vector<int> f(k, 0);
  for(int i = 0; i < k * per; ++i) { int64_t v = bssRandInt(lo, lo + k); CHECK(v >= lo && v < lo + k, "rand:range", "%lld is outside [%lld,%lld)", (long long)v, (long long)lo, (long long)(lo + k)); ++f[v - lo]; }
  double z2 = 0;
  for(int v : f) z2 += (v - per) * (double)(v - per) / per;
  CHECK(z2 < 100, "rand:uniform", "%d numbers from %lld values: chi-square %g", (int)k * per, (long long)k, z2);
  mon::ev("distributions judged", 3);
  mon::nontrivial();
}
static void normal(Rng& r)
{
  bssRandSeed(r.next());
  NormalZig<128> z;
  const int N = 4000;
  std::vector<double> v(N);
  for(auto& x : v) x = z();
  std::sort(v.begin(), v.end());
  double D = 0;
  for(int i = 0; i < N; ++i)
  {
    double f = 0.5 * erfc(-v[i] / sqrt(2.0));
    D = std::max(D, std::max(fabs(f - (double)i / N), fabs(f - (i + 1.0) / N)));
  }
  mon::op("normal %.4f", D);
  CHECK(D * sqrt((double)N) < 3.2, "normal:distribution", "%d samples differ from the normal distribution by %g", N, D);
  CHECK(v[0] > -8 && v[N - 1] < 8, "normal:tail", "samples reach %g and %g", v[0], v[N - 1]);
  mon::ev("distributions judged");
  mon::nontrivial();
}
static void subdivide(Rng& r)
{
  double rect[4] = { (double)r.range(-20, 20), (double)r.range(-20, 20), 0, 0 };
  rect[2] = rect[0] + 1 + r.below(50);
  rect[3] = rect[1] + 1 + r.below(50);
  bssRandSeed(r.next());
  Rng q(r.next());
  struct R4 { double r[4]; };
  std::vector<R4> leaf;
  size_t lim = 2 + r.below(6);
  mon::op("subdivide to %zu", lim);
  StochasticSubdivider<double>(rect,
    [&](size_t depth, const double(&)[4]) { return depth >= lim ? 2.0 : depth * 0.1; },
    [&](const double(&x)[4]) { R4 l; memcpy(l.r, x, sizeof l.r); leaf.push_back(l); },
    [&](size_t, const double(&)[4]) { return q.unit(); });
  double area = 0;
  for(auto& l : leaf)
  {
    CHECK(l.r[0] >= rect[0] && l.r[1] >= rect[1] && l.r[2] <= rect[2] && l.r[3] <= rect[3] && l.r[0] <= l.r[2] && l.r[1] <= l.r[3], "subdivide:inside", "a piece lies outside the rectangle");
    area += (l.r[2] - l.r[0]) * (l.r[3] - l.r[1]);
  }
  CHECK(near(area, (rect[2] - rect[0]) * (rect[3] - rect[1]), 1e-6), "subdivide:area", "the pieces cover %g of %g", area, (rect[2] - rect[0]) * (rect[3] - rect[1]));
  for(int i = 0; i < 30; ++i)
  {
    double x = rect[0] + r.unit() * (rect[2] - rect[0]), y = rect[1] + r.unit() * (rect[3] - rect[1]);
    int in = 0, edge = 0;
    for(auto& l : leaf)
    {
      if(x > l.r[0] && x < l.r[2] && y > l.r[1] && y < l.r[3]) ++in;
      else if(x >= l.r[0] && x <= l.r[2] && y >= l.r[1] && y <= l.r[3]) ++edge;
    }
    CHECK(in == 1 || edge, "subdivide:cover", "a point lies in %d pieces", in);
  }
  mon::ev("subdivisions");
  mon::nontrivial();
}

void mon_case(Rng& r, uint64_t)
{
  switch(r.below(22))
  {
  case 0: case 1: case 2: timer(r); break;
  case 3: case 4: case 5: case 6: sched(r); break;
  case 7: alias<size_t, double>(r); break;
  case 8: r.chance(1, 2) ? alias<uint32_t, float>(r) : r.chance(1, 2) ? alias<uint32_t, double>(r) : alias<size_t, float>(r); break;
  case 9: case 10: rqueue<int, ARRAY_SIMPLE>(r); break;
  case 11: case 12: rqueue<Trk, ARRAY_SAFE>(r); break;
  case 13: case 14: rqueue<TrkR, ARRAY_CONSTRUCT>(r); break;
  case 15: poisson<float>(r); break;
  case 16: poisson<double>(r); break;
  case 17: case 18: engine(r); break;
  case 19: shuffles(r); break;
  case 20: if(r.chance(1, 3)) normal(r); else shuffles(r); break;
  case 21: subdivide(r); break;
  }
}
