// Schedule perturbation for the concurrent monitors: every worker thread owns a timer whose signal lands at an arbitrary
// instruction, where the handler yields, spins or sleeps. This stretches the windows inside lock-free code without
// touching it, so that interleavings that need a preemption at one particular instruction are actually visited.
#pragma once
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sched.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <thread>
#include <vector>
#include <atomic>
#include <functional>
#include "mon.h"
#ifndef sigev_notify_thread_id
#define sigev_notify_thread_id _sigev_un._tid
#endif

namespace sch {
  extern std::atomic<uint64_t> preempts;
  std::atomic<uint64_t> preempts{ 0 };
  thread_local uint64_t tl_rng = 88172645463325252ull;
  inline uint64_t tl_next() { uint64_t x = tl_rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return tl_rng = x; }
  inline void nap(uint64_t r)
  {
    unsigned k = r % 16;
    if(k < 9) for(unsigned i = 0; i <= (r >> 8) % 4; ++i) sched_yield();
    else if(k < 15) for(volatile unsigned i = 0; i < (r >> 8) % 6000; ++i) ;
    else { struct timespec ts = { 0, (long)((r >> 8) % 200000) }; nanosleep(&ts, nullptr); }
  }
  inline void handler(int)
  {
    int e = errno;
    preempts.fetch_add(1, std::memory_order_relaxed);
    nap(tl_next());
    errno = e;
  }
  // installed before main: a thread whose timer fires must never find the default action
  struct Install
  {
    Install()
    {
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = handler;
      sa.sa_flags = SA_RESTART;
      sigaction(SIGRTMIN + 3, &sa, nullptr);
    }
  };
  static Install installed;
  struct Perturb // one per worker thread, on its stack
  {
    timer_t t;
    bool on;
    Perturb(uint64_t seed, long period_ns) : on(false)
    {
      tl_rng = mon::mix(seed) | 1;
      if(!period_ns) return;
      struct sigevent se;
      memset(&se, 0, sizeof se);
      se.sigev_notify = SIGEV_THREAD_ID;
      se.sigev_signo = SIGRTMIN + 3;
      se.sigev_notify_thread_id = (int)syscall(SYS_gettid);
      if(timer_create(CLOCK_MONOTONIC, &se, &t)) return;
      on = true;
      struct itimerspec it;
      it.it_value.tv_sec = 0;
      it.it_value.tv_nsec = 1000 + tl_next() % period_ns;
      it.it_interval.tv_sec = 0;
      it.it_interval.tv_nsec = period_ns + tl_next() % (period_ns / 3 + 1);
      timer_settime(t, 0, &it, nullptr);
    }
    ~Perturb() { if(on) timer_delete(t); }
  };
  struct Barrier // sense-reversing, yields
  {
    std::atomic<int> n, gen;
    int total;
    explicit Barrier(int t) : n(0), gen(0), total(t) {}
    void wait()
    {
      int g = gen.load();
      if(n.fetch_add(1) + 1 == total) { n.store(0); gen.fetch_add(1); }
      else while(gen.load() == g) sched_yield();
    }
  };
  // runs f(thread index) on n threads under perturbation, started together
  inline void run(int n, uint64_t seed, long period_ns, const std::function<void(int)>& f)
  {
#if defined(__SANITIZE_THREAD__)
    period_ns = 0; // signals are only delivered at interceptors there
#endif
    Barrier b(n);
    std::vector<std::thread> v;
    uint64_t p0 = preempts.load();
    for(int i = 0; i < n; ++i)
      v.emplace_back([&, i]() {
        b.wait();
        Perturb p(seed * 977 + i, period_ns);
        f(i);
      });
    for(auto& t : v) t.join();
    mon::ev("threads_run", n);
    mon::ev("forced_preemptions", preempts.load() - p0);
  }
}
