// RWLock: exclusion, sharing, upgrade and downgrade observed under several threads and forced preemption.
#define MON_BALANCE 0
#include "mon.h"
#include "perturb.h"
#include "bss-util/RWLock.h"
using namespace bss;
using mon::Rng;

struct World
{
  RWLock l;
  alignas(64) std::atomic<int> readers{ 0 }, writers{ 0 };
  alignas(64) uint64_t data[6]; // plain memory: only the lock protects it
  uint64_t version;
  uint64_t bumps = 0;           // plain counter
  std::atomic<uint64_t> expect{ 0 };
  World() : version(0) { for(auto& d : data) d = 0; }
  void enter_w(const char* how)
  {
    if(writers.fetch_add(1) != 0) mon::fail("rw:two-writers", "%s returned while another thread holds the write lock", how);
    int n = readers.load();
    if(n != 0) mon::fail("rw:reader-in-write", "%s returned while %d reader(s) hold the lock", how, n);
  }
  void leave_w() { if(writers.fetch_sub(1) != 1) mon::fail("rw:two-writers", "two writers at once"); }
  void enter_r(const char* how)
  {
    readers.fetch_add(1);
    if(writers.load() != 0) mon::fail("rw:writer-in-read", "%s returned while another thread holds the write lock", how);
  }
  void leave_r()
  {
    if(writers.load() != 0) mon::fail("rw:writer-in-read", "a writer entered while the read lock was held");
    readers.fetch_sub(1);
  }
  void write(Rng& q)
  {
    uint64_t v = version + 1;
    for(int i = 0; i < 6; ++i) { ((volatile uint64_t*)data)[i] = mon::mix(v) + i; if(q.chance(1, 40)) sched_yield(); }
    version = v;
    ++bumps;
    expect.fetch_add(1, std::memory_order_relaxed);
  }
  uint64_t read(Rng& q, const char* how)
  {
    uint64_t v = *(volatile uint64_t*)&version;
    for(int i = 0; i < 6; ++i)
    {
      uint64_t d = ((volatile uint64_t*)data)[i];
      if(v && d != mon::mix(v) + i) mon::fail("rw:torn", "data read under %s is not what the last writer left", how);
      if(q.chance(1, 60)) sched_yield();
    }
    return v;
  }
};
static void conc(Rng& r)
{
  World* w = new World();
  int nt = (int)r.range(2, 7), ops = (int)r.range(100, 1500);
  uint64_t seed = r.next();
  long period = r.chance(1, 5) ? 0 : (long)r.range(15000, 100000);
  int mix[7];
  for(auto& m : mix) m = (int)r.range(0, 6);
  mix[r.below(7)] += 4;
  int tot = 0;
  for(int m : mix) tot += m;
  mon::op("%d threads, %d ops, mix %d %d %d %d %d %d %d period %ld", nt, ops, mix[0], mix[1], mix[2], mix[3], mix[4], mix[5], mix[6], period);
  std::atomic<uint64_t> cnt[8];
  for(auto& c : cnt) c = 0;
  sch::run(nt, seed, period, [&](int t) {
    Rng q(seed ^ mon::mix(t + 77));
    for(int k = 0; k < ops; ++k)
    {
      int x = (int)q.below(tot), o = 0;
      while(x >= mix[o]) x -= mix[o++];
      switch(o)
      {
      case 0: // plain writer
        w->l.Lock(); w->enter_w("Lock"); w->write(q); w->leave_w(); w->l.Unlock(); cnt[0]++; break;
      case 1:
        if(w->l.AttemptLock()) { w->enter_w("AttemptLock"); w->write(q); w->leave_w(); w->l.Unlock(); cnt[1]++; }
        break;
      case 2:
        if(w->l.AttemptStrictLock()) { w->enter_w("AttemptStrictLock"); w->write(q); w->leave_w(); w->l.Unlock(); cnt[2]++; }
        break;
      case 3: case 4:
      {
        if(o == 3) w->l.RLock();
        else if(!w->l.AttemptRLock()) break;
        w->enter_r(o == 3 ? "RLock" : "AttemptRLock");
        uint64_t a = w->read(q, "a read lock"), b = w->read(q, "a read lock");
        if(a != b) mon::fail("rw:unstable", "data changed while a read lock was held");
        w->leave_r();
        w->l.RUnlock();
        cnt[o]++;
        break;
      }
      case 5: // upgrade: may let other writers in first
      {
        w->l.RLock();
        w->enter_r("RLock");
        w->read(q, "a read lock");
        w->leave_r();
        w->l.Upgrade();
        w->enter_w("Upgrade");
        w->write(q);
        uint64_t v = w->version;
        w->readers.fetch_add(1); // from here on we are a reader again, before the write lock is dropped
        w->leave_w();
        w->l.Downgrade();
        uint64_t a = w->read(q, "a downgraded lock");
        if(a != v) mon::fail("rw:unstable", "another writer got in between Downgrade and the release of the read lock");
        w->leave_r();
        w->l.RUnlock();
        cnt[5]++;
        break;
      }
      case 6: // attempted upgrade: never releases the read lock
      {
        w->l.RLock();
        w->enter_r("RLock");
        uint64_t before = w->read(q, "a read lock");
        w->readers.fetch_sub(1);
        if(w->l.AttemptUpgrade())
        {
          w->enter_w("AttemptUpgrade");
          if(w->version != before) mon::fail("rw:unstable", "another writer got in during AttemptUpgrade");
          w->write(q);
          uint64_t v = w->version;
          w->readers.fetch_add(1);
          w->leave_w();
          w->l.Downgrade();
          if(w->read(q, "a downgraded lock") != v) mon::fail("rw:unstable", "another writer got in between Downgrade and the release of the read lock");
          cnt[6]++;
        }
        else
        { // the read lock is still ours
          w->readers.fetch_add(1);
          if(w->read(q, "a read lock kept after a failed upgrade") != before) mon::fail("rw:unstable", "a failed AttemptUpgrade lost the read lock");
          cnt[7]++;
        }
        w->leave_r();
        w->l.RUnlock();
        break;
      }
      }
    }
  });
  CHECK(w->bumps == w->expect.load(), "rw:lost-update", "%llu writes were made under the lock, %llu survived", (unsigned long long)w->expect.load(), (unsigned long long)w->bumps);
  CHECK(w->l.IsFree(), "rw:not-free", "the lock is not free after every thread released it");
  CHECK(w->l.ReaderCount() == 0, "rw:not-free", "readers left over");
  const char* nm[8] = { "Lock", "AttemptLock", "AttemptStrictLock", "RLock", "AttemptRLock", "Upgrade", "AttemptUpgrade", "AttemptUpgrade_refused" };
  for(int i = 0; i < 8; ++i) mon::ev(nm[i], cnt[i]);
  mon::note(sch::preempts);
  delete w;
}
// sharing: N readers hold the lock at the same time (would deadlock if readers excluded each other), writers wait for all of them
static void sharing(Rng& r)
{
  RWLock l;
  int n = (int)r.range(2, 6);
  mon::op("sharing %d", n);
  std::atomic<int> in{ 0 }, released{ 0 }, wrote{ 0 };
  std::atomic<bool> writer_waiting{ false };
  bool att = r.chance(1, 2);
  std::vector<std::thread> v;
  for(int i = 0; i < n; ++i)
    v.emplace_back([&]() {
      if(att) { while(!l.AttemptRLock()) sched_yield(); }
      else l.RLock();
      in++;
      while(in < n) sched_yield(); // everyone is inside at once
      while(!writer_waiting) sched_yield();
      for(int k = 0; k < 50; ++k) sched_yield();
      if(wrote) mon::fail("rw:writer-in-read", "a writer got the lock while %d readers held it", n);
      released++;
      l.RUnlock();
    });
  while(in < n) sched_yield();
  CHECK(l.ReaderCount() == (size_t)n, "rw:count", "%zu readers counted, %d hold the lock", l.ReaderCount(), n);
  CHECK(!l.AttemptStrictLock(), "rw:strict", "AttemptStrictLock succeeded although %d readers hold the lock", n);
  std::thread wt([&]() {
    writer_waiting = true;
    l.Lock();
    wrote = 1;
    if(released != n) mon::fail("rw:reader-in-write", "the writer got the lock when only %d of %d readers had released it", released.load(), n);
    if(l.AttemptRLock()) mon::fail("rw:attempt", "AttemptRLock succeeded while the write lock is held");
    if(l.AttemptLock()) mon::fail("rw:attempt", "AttemptLock succeeded while the write lock is held");
    if(l.AttemptStrictLock()) mon::fail("rw:attempt", "AttemptStrictLock succeeded while the write lock is held");
    if(l.IsFree()) mon::fail("rw:free", "IsFree while the write lock is held");
    l.Unlock();
  });
  for(auto& t : v) t.join();
  wt.join();
  CHECK(l.IsFree(), "rw:not-free", "the lock is not free after every thread released it");
  mon::ev("shared_groups");
}
// one thread, the calls that cannot block, against the obvious state machine
static void model(Rng& r)
{
  RWLock l;
  int readers = 0;
  bool w = false, up = false;
  for(int k = 0; k < 200; ++k)
  {
    switch(r.below(9))
    {
    case 0: { bool g = l.AttemptRLock(); mon::op("AttemptRLock %d", g); CHECK(g == !w, "rw:attempt", "AttemptRLock returned %d with writer=%d readers=%d", g, w, readers); if(g) ++readers; break; }
    case 1: if(readers > (up ? 1 : 0)) { mon::op("RUnlock"); l.RUnlock(); --readers; } break;
    case 2: { bool g = l.AttemptStrictLock(); mon::op("AttemptStrictLock %d", g); CHECK(g == (!w && !readers), "rw:attempt", "AttemptStrictLock returned %d with writer=%d readers=%d", g, w, readers); if(g) w = true; break; }
    case 3: if(!readers || w) { bool g = l.AttemptLock(); mon::op("AttemptLock %d", g); CHECK(g == !w, "rw:attempt", "AttemptLock returned %d with writer=%d readers=%d", g, w, readers); if(g) w = true; } break;
    case 4: if(w && !up) { mon::op("Unlock"); l.Unlock(); w = false; } break;
    case 5: if(readers == 1 && !w) { mon::op("Upgrade"); l.Upgrade(); w = up = true; } break;
    case 6: if(readers == 1) { bool g = l.AttemptUpgrade(); mon::op("AttemptUpgrade %d", g); CHECK(g == !w, "rw:attempt", "AttemptUpgrade returned %d with writer=%d", g, w); if(g) w = up = true; } break;
    case 7: if(up) { mon::op("Downgrade"); l.Downgrade(); w = up = false; } break;
    case 8: if(!w && !readers) { mon::op("Lock"); l.Lock(); w = true; } else if(!w) { mon::op("RLock"); l.RLock(); ++readers; } break;
    }
    CHECK(l.ReaderCount() == (size_t)readers, "rw:count", "ReaderCount %zu expected %d", l.ReaderCount(), readers);
    CHECK(l.IsFree() == (!w && !readers), "rw:free", "IsFree %d with writer=%d readers=%d", (int)l.IsFree(), w, readers);
  }
}
void mon_case(Rng& r, uint64_t c)
{
  mon::nontrivial();
  if(c % 4 == 3) { sharing(r); model(r); }
  else conc(r);
}
