// ThreadPool, Semaphore and Thread: every task exactly once, Wait really waits, notifications are conserved, timed join.
#define MON_BALANCE 0
#include "mon.h"
#include "perturb.h"
#include "bss-util/ThreadPool.h"
using namespace bss;
using mon::Rng;

struct Slot { std::atomic<uint32_t> runs{ 0 }; uint64_t result = 0; uint64_t want = 0; };
struct World
{
  std::vector<Slot> slots;
  std::atomic<uint32_t> nextslot{ 0 };
  ThreadPool* pool = nullptr;
  std::atomic<uint64_t> started{ 0 };
  World(size_t n) : slots(n) {}
};
static World* W = nullptr;
struct Task { uint32_t slot; uint32_t spin; uint32_t children; uint32_t depth; };

static uint64_t work(uint64_t a, uint32_t spin) { for(uint32_t i = 0; i < spin; ++i) a = mon::mix(a); return a; }
static void spawn(Task t);
static std::thread::id main_id = std::this_thread::get_id();
static std::atomic<uint64_t> worker_seed{ 1 };
static long worker_period = 0;
static void perturb_worker()
{ // pool threads are created by the pool: each arms its own timer in its first task
  if(std::this_thread::get_id() == main_id || !worker_period) return;
  static thread_local sch::Perturb pt(worker_seed.fetch_add(1), worker_period);
  (void)pt;
}
static void finish(const Task& t)
{
  perturb_worker();
  Slot& s = W->slots[t.slot];
  uint64_t v = work(t.slot + 1, t.spin);
  if(t.depth)
    for(uint32_t i = 0; i < t.children; ++i)
    {
      uint32_t k = W->nextslot.fetch_add(1);
      if(k >= W->slots.size()) break;
      Task c = { k, t.spin / 2, t.children > 1 ? t.children - 1 : 1, t.depth - 1 };
      spawn(c);
    }
  if(!W->pool->Busy()) mon::fail("pool:busy", "nothing is being processed, says Busy in a task");
  s.result = v; // plain write: Wait has to make it visible
  s.want = t.slot + 1;
  if(s.runs.fetch_add(1) != 0) mon::fail("pool:twice", "task %u ran twice", t.slot);
}
static void run_task(void* p) { Task* t = (Task*)p; Task c = *t; delete t; finish(c); }
// by-value arguments of several kinds, one of them tracked
static void fn_a(uint32_t slot, uint32_t spin, uint32_t children, uint32_t depth) { finish(Task{ slot, spin, children, depth }); }
static void fn_b(mon::Trk t, Task k) { if(t.get() != (int)k.slot) mon::fail("pool:args", "the task was called with arguments of another task"); finish(k); }
static uint64_t fn_c(uint8_t a, double d, Task* k)
{
  Task c = *k;
  delete k;
  if(a != (uint8_t)c.slot || d != c.slot * 0.5) mon::fail("pool:args", "the task was called with arguments of another task");
  finish(c);
  return 1;
}
static void spawn(Task t)
{
  switch(t.slot % 4)
  {
  case 0: W->pool->AddTask(&run_task, new Task(t)); break;
  case 1: W->pool->AddFunc(&fn_a, t.slot, t.spin, t.children, t.depth); break;
  case 2: W->pool->AddFunc(&fn_b, mon::Trk((int)t.slot), Task(t)); break;
  case 3: W->pool->AddFunc(&fn_c, (uint8_t)t.slot, t.slot * 0.5, new Task(t)); break;
  }
}
static void check_all(uint32_t upto, const char* when)
{
  for(uint32_t i = 0; i < upto; ++i)
  {
    Slot& s = W->slots[i];
    CHECK(s.runs.load(std::memory_order_relaxed) == 1, "pool:not-run", "%s: task %u of %u ran %u times", when, i, upto, s.runs.load());
    CHECK(s.want == i + 1, "pool:visible", "%s: the effect of task %u is not visible", when, i);
  }
  mon::ev("tasks_judged", upto);
}
struct Multi { std::atomic<uint64_t> n{ 0 }; };
static void run_multi(void* p) { ((Multi*)p)->n.fetch_add(1); }

static void pool(Rng& r)
{
  int nthreads = (int)r.range(1, 5), rounds = (int)r.range(1, 4), producers = r.chance(1, 3) ? (int)r.range(2, 3) : 1;
  size_t cap = 20000;
  World w(cap);
  W = &w;
  uint64_t seed = r.next();
  mon::op("pool threads=%d rounds=%d producers=%d", nthreads, rounds, producers);
  bool dtor = r.chance(1, 2);
  worker_period = r.chance(1, 3) ? 0 : (long)r.range(20000, 90000);
  uint64_t p0 = sch::preempts;
  uint32_t total = 0;
  Multi m;
  uint64_t mwant = 0;
  {
    ThreadPool p(nthreads);
    w.pool = &p;
    for(int rd = 0; rd < rounds; ++rd)
    {
      int n = (int)r.range(1, 300);
      uint32_t spin = (uint32_t)r.range(0, 300), children = r.chance(1, 2) ? (uint32_t)r.range(1, 3) : 0, depth = children ? (uint32_t)r.range(1, 3) : 0;
      long period = r.chance(1, 3) ? 0 : (long)r.range(20000, 90000);
      mon::op("round n=%d spin=%u children=%u depth=%u", n, spin, children, depth);
      auto prod = [&](int t) {
        for(int i = 0; i < n; ++i)
        {
          uint32_t k = w.nextslot.fetch_add(1);
          if(k >= cap) break;
          spawn(Task{ k, spin, children, depth });
        }
      };
      if(producers == 1) { sch::Perturb pt(seed + rd, period); prod(0); }
      else sch::run(producers, seed + rd, period, prod);
      if(r.chance(1, 3))
      {
        size_t inst = r.below(6);
        p.AddTask(&run_multi, &m, inst);
        mwant += inst ? inst : (size_t)nthreads;
        mon::op("AddTask x%zu", inst);
      }
      if(r.chance(1, 8)) { p.AddThreads(1); ++nthreads; mon::op("AddThreads"); }
      if(rd + 1 == rounds && dtor) break;
      if(r.chance(1, 3))
      { // several threads wait for the same tasks: each of them only returns when all are done
        uint32_t due = std::min<uint32_t>(w.nextslot.load(), cap);
        sch::run((int)r.range(2, 4), seed + 100 + rd, period, [&](int) { p.Wait(); check_all(due, "after Wait in one of several threads"); });
        mon::ev("waits_together");
      }
      else p.Wait();
      CHECK(p.Busy() == 0, "pool:busy", "Busy is %zu after Wait", p.Busy());
      total = std::min<uint32_t>(w.nextslot.load(), cap);
      check_all(total, "after Wait");
      CHECK(m.n.load() == mwant, "pool:instances", "a task added for %llu instances ran %llu times", (unsigned long long)mwant, (unsigned long long)m.n.load());
    }
  }
  total = std::min<uint32_t>(w.nextslot.load(), cap);
  check_all(total, "after the pool was destroyed");
  CHECK(m.n.load() == mwant, "pool:instances", "a task added for %llu instances ran %llu times", (unsigned long long)mwant, (unsigned long long)m.n.load());
  mon::ev("forced_preemptions_in_workers", sch::preempts - p0);
  mon::note(sch::preempts);
  W = nullptr;
}
static void semaphore(Rng& r)
{
  Semaphore s;
  int waiters = (int)r.range(1, 4), per = (int)r.range(1, 200), notifiers = (int)r.range(1, 3);
  mon::op("semaphore waiters=%d per=%d notifiers=%d", waiters, per, notifiers);
  int total = waiters * per;
  std::atomic<int> notified{ 0 }, passed{ 0 };
  std::atomic<int> budget{ total };
  uint64_t seed = r.next();
  sch::run(waiters + notifiers, seed, r.chance(1, 2) ? 0 : 40000, [&](int t) {
    Rng q(seed ^ mon::mix(t + 3));
    if(t < waiters)
      for(int i = 0; i < per; ++i)
      {
        if(!s.Wait()) mon::fail("sem:wait", "Wait failed");
        int n = passed.fetch_add(1) + 1;
        if(n > notified.load()) mon::fail("sem:conservation", "%d waits returned after only %d notifications", n, notified.load());
      }
    else
      for(;;)
      {
        int k = (int)q.range(1, 9);
        int have = budget.load();
        do { if(have <= 0) return; k = std::min(k, have); } while(!budget.compare_exchange_weak(have, have - k));
        notified.fetch_add(k);
        if(!s.Notify(k)) mon::fail("sem:notify", "Notify failed");
        if(q.chance(1, 4)) sched_yield();
      }
  });
  CHECK(passed == total, "sem:conservation", "%d notifications released %d waits", total, passed.load());
  mon::ev("semaphore_handoffs", total);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void thread_join(Rng& r)
{
  std::atomic<bool> go{ false }, fin{ false };
  size_t ms = r.range(1, 60);
  mon::op("join %zu", ms);
  Thread t([&](int x) { while(!go) usleep(200); fin = x == 7; }, 7);
  CHECK(t.joinable(), "thread:joinable", "a running thread is not joinable");
  if(r.chance(1, 4))
  { // a deadline in the next second of the clock
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    long left = 1000000000L - ts.tv_nsec, want = (long)(ms * 500000);
    if(left > want) usleep((left - want) / 1000);
    mon::ev("joins_across_a_second");
  }
  double a = now();
  size_t res = t.join(ms);
  double d = now() - a;
  CHECK(res == (size_t)~0, "thread:timeout", "join(%zu) reported that a running thread ended", ms);
  CHECK(d >= ms * 0.001 * 0.9 - 0.001, "thread:timeout", "join(%zu) gave up after %.1f ms", ms, d * 1000);
  CHECK(t.joinable(), "thread:joinable", "a thread is not joinable after join timed out");
  CHECK(t.join(0) == (size_t)~0, "thread:timeout", "join(0) reported that a running thread ended");
  go = true;
  switch(r.below(4))
  {
  case 0:
    CHECK(t.join(60000) != (size_t)~0, "thread:join", "join did not see the thread end");
    CHECK(fin, "thread:join", "join returned before the thread ended");
    CHECK(!t.joinable(), "thread:joinable", "a joined thread is joinable");
    break;
  case 1:
    t.join();
    CHECK(fin, "thread:join", "join returned before the thread ended");
    CHECK(!t.joinable(), "thread:joinable", "a joined thread is joinable");
    break;
  case 2: { { Thread u(std::move(t)); CHECK(!t.joinable() && u.joinable(), "thread:joinable", "moving a thread did not move it"); } CHECK(fin, "thread:join", "destroying a thread did not wait for it"); break; }
  case 3:
  {
    { Thread u; u = std::move(t); CHECK(!t.joinable() && u.joinable(), "thread:joinable", "moving a thread did not move it"); }
    CHECK(fin, "thread:join", "destroying a thread did not wait for it");
    break;
  }
  }
  mon::ev("timed_joins");
}
void mon_case(Rng& r, uint64_t c)
{
  mon::nontrivial();
  if(c % 8 == 7) { semaphore(r); thread_join(r); }
  else pool(r);
}
