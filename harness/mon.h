// Shared runtime-monitor support for every harness.
//
// A harness defines   void mon_case(mon::Rng& r, uint64_t caseno)   and includes this header once.
// The monitor records every operation applied to the code under test (mon::op), evaluates oracles (CHECK),
// counts what it observed (mon::ev), hashes the observed history (distinct histories), and, at the end of each
// case, can compare the bytes that are still allocated with the bytes allocated when the case began.
// Everything the monitor stores lives in static storage so that it never disturbs that balance.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <sys/time.h>
#include <new>
#include <tuple>
#include <algorithm>
#include <utility>
#include <atomic>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define MON_ASAN 1
#else
#define MON_ASAN 0
#endif

namespace mon {
  inline uint64_t mix(uint64_t x)
  {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
  }
  struct Rng
  {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    uint64_t operator()() { return next(); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); } // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  };
  // Now and then a document has a very long text, very many members or very many levels.
  struct Scale
  {
    int longs = 0, wide = 0, deep = 0;
    const char* roll(Rng& r, unsigned den)
    {
      longs = wide = deep = 0;
      switch(r.below(den))
      {
      case 0: longs = 1 + (int)r.below(3); return "long texts";
      case 1: wide = 1 + (int)r.below(2); return "many members";
      case 2: deep = 15 + (int)r.below(40); return "many levels";
      }
      return 0;
    }
    size_t len(Rng& r, size_t n) { if(longs <= 0 || r.chance(1, 2)) return n; --longs; return r.chance(1, 8) ? 30000 + r.below(50000) : 200 + r.below(4000); }
    size_t count(Rng& r, size_t n, size_t max = 700) { if(wide <= 0 || r.chance(1, 3)) return n; --wide; return 100 + r.below(max); }
  };
  static Scale scale;

  struct Counter { char name[64]; std::atomic<uint64_t> n; };
  struct State
  {
    uint64_t seed, caseno, from, count;
    char trace[1 << 17];
    size_t tlen;
    uint64_t thash;      // hash of the whole history of this case
    uint64_t ops;        // operations in this case
    uint64_t totalops;
    uint64_t checks;
    uint64_t nontrivial; // cases flagged non-trivial
    bool nt;
    Counter counters[256];
    std::atomic<int> ncounters;
    uint64_t table[1 << 20];
    uint64_t distinct;
    char sample[3][2048];
    int nsamples;
    const char* out;
    bool balance;
    bool verbose;
  };
  extern State g;
  State g;

  [[noreturn]] inline void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  inline void write_out(bool complete);

  inline void fail(const char* key, const char* fmt, ...)
  {
    static std::atomic<int> once{ 0 };
    if(once.fetch_add(1)) for(;;) usleep(1000000);
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    fflush(stdout);
    fprintf(stderr, "\nMONITOR-FAIL key=%s seed=%llu case=%llu :: %s\n", key, (unsigned long long)g.seed, (unsigned long long)g.caseno, buf);
    size_t from = g.tlen > 6000 ? g.tlen - 6000 : 0;
    fprintf(stderr, "--- last operations observed (%llu in this case)\n%.*s\n--- end\n", (unsigned long long)g.ops, (int)(g.tlen - from), g.trace + from);
    fflush(stderr);
    write_out(false);
    _exit(77);
  }

  inline void hash_bytes(const char* p, size_t n)
  {
    uint64_t h = g.thash;
    for(size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 0x100000001B3ull;
    g.thash = h;
  }
  // records an operation of the (single-threaded) driver in the trace
  inline void op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
  inline void op(const char* fmt, ...)
  {
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    if(n < 0) n = 0;
    if(n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    hash_bytes(buf, n);
    if(g.tlen + n > sizeof g.trace)
    { // keep the last half
      size_t half = sizeof(g.trace) / 2;
      memmove(g.trace, g.trace + g.tlen - half, half);
      g.tlen = half;
    }
    memcpy(g.trace + g.tlen, buf, n);
    g.tlen += n;
    ++g.ops;
    ++g.totalops;
    if(g.verbose) fwrite(buf, 1, n, stderr);
  }
  // cheap variant: no text, only mixes values in the history hash
  inline void note(uint64_t v) { g.thash = mix(g.thash ^ v); ++g.ops; ++g.totalops; }

  inline Counter& counter(const char* name)
  {
    static std::atomic_flag lk = ATOMIC_FLAG_INIT;
    int n = g.ncounters.load(std::memory_order_acquire);
    for(int i = 0; i < n; ++i)
      if(!strcmp(g.counters[i].name, name)) return g.counters[i];
    while(lk.test_and_set()) ;
    n = g.ncounters.load();
    int i = 0;
    for(; i < n; ++i)
      if(!strcmp(g.counters[i].name, name)) break;
    if(i == n)
    {
      if(n == 256) abort();
      strncpy(g.counters[n].name, name, 63);
      g.ncounters.store(n + 1, std::memory_order_release);
    }
    lk.clear();
    return g.counters[i];
  }
  inline void ev(const char* name, uint64_t n = 1) { counter(name).n.fetch_add(n, std::memory_order_relaxed); }
  inline void nontrivial() { g.nt = true; }
  inline bool seen(uint64_t h) // inserts; returns true if new
  {
    if(!h) h = 1;
    size_t mask = (1 << 20) - 1;
    for(size_t i = mix(h) & mask, k = 0; k < 64; ++k, i = (i + 1) & mask)
    {
      if(g.table[i] == h) return false;
      if(!g.table[i]) { g.table[i] = h; ++g.distinct; return true; }
    }
    return false;
  }
  inline void json_str(FILE* f, const char* s)
  {
    fputc('"', f);
    for(; *s; ++s)
    {
      unsigned char c = *s;
      if(c == '"' || c == '\\') fprintf(f, "\\%c", c);
      else if(c == '\n') fputs("\\n", f);
      else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c);
      else fputc(c, f);
    }
    fputc('"', f);
  }
  inline void write_out(bool complete)
  {
    if(!g.out) return;
    FILE* f = fopen(g.out, "w");
    if(!f) return;
    fprintf(f, "{\"complete\":%s,\"lastcase\":%llu,\"ops\":%llu,\"checks\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"events\":{", complete ? "true" : "false",
      (unsigned long long)g.caseno, (unsigned long long)g.totalops, (unsigned long long)g.checks, (unsigned long long)g.nontrivial, (unsigned long long)g.distinct);
    for(int i = 0; i < g.ncounters; ++i)
    {
      if(i) fputc(',', f);
      json_str(f, g.counters[i].name);
      fprintf(f, ":%llu", (unsigned long long)g.counters[i].n.load());
    }
    fprintf(f, "},\"samples\":[");
    for(int i = 0; i < g.nsamples; ++i)
    {
      if(i) fputc(',', f);
      json_str(f, g.sample[i]);
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
  inline size_t heap_bytes()
  {
#if MON_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
  }
  // distinct-state feature: e.g. a (size, capacity-class, op) tuple
  inline void feature(uint64_t h) { seen(mix(h ^ 0xfeedull)); }

  // ---- tracked element types -------------------------------------------------------------
  extern std::atomic<int64_t> live;
  std::atomic<int64_t> live{ 0 };

  // Element whose address is part of its identity: detects use of unconstructed storage, double destruction,
  // missing destruction and bytewise relocation. The value lives in its own heap block, so that a stale copy
  // is also an ASan report.
  struct Trk
  {
    static constexpr uint32_t ALIVE = 0xA11FE0A5u, DEAD = 0xDEADDEADu;
    Trk* self;
    int* val;
    uint32_t magic;
    void init(int v) { self = this; val = (int*)malloc(sizeof(int)); *val = v; magic = ALIVE; live.fetch_add(1, std::memory_order_relaxed); }
    void chk(const char* what) const
    {
      if(magic != ALIVE) fail("lifetime:not-alive", "%s on an element that is not constructed (magic %x)", what, magic);
      if(self != this) fail("lifetime:relocated", "%s on an element that was moved bytewise", what);
    }
    Trk() { init(0); }
    Trk(int v) { init(v); }
    Trk(const Trk& o) { o.chk("copy from"); init(o.val ? *o.val : -999999); }
    Trk(Trk&& o) { o.chk("move from"); self = this; val = o.val; o.val = nullptr; magic = ALIVE; live.fetch_add(1, std::memory_order_relaxed); }
    ~Trk()
    {
      chk("destroy");
      free(val);
      val = nullptr;
      magic = DEAD;
      live.fetch_sub(1, std::memory_order_relaxed);
    }
    Trk& operator=(const Trk& o)
    {
      chk("assign to");
      o.chk("assign from");
      if(this == &o) return *this;
      if(!o.val) { free(val); val = nullptr; return *this; }
      if(!val) val = (int*)malloc(sizeof(int));
      *val = *o.val;
      return *this;
    }
    Trk& operator=(Trk&& o)
    {
      chk("move-assign to");
      o.chk("move-assign from");
      if(this == &o) return *this;
      free(val);
      val = o.val;
      o.val = nullptr;
      return *this;
    }
    int get() const { chk("read"); return val ? *val : -999999; }
    operator int() const { return get(); }
    bool operator==(const Trk& o) const { return get() == o.get(); }
    bool operator!=(const Trk& o) const { return get() != o.get(); }
    bool operator<(const Trk& o) const { return get() < o.get(); }
    bool operator>(const Trk& o) const { return get() > o.get(); }
    bool operator<=(const Trk& o) const { return get() <= o.get(); }
    bool operator>=(const Trk& o) const { return get() >= o.get(); }
  };
  // Element that may be relocated bytewise (containers configured for that), but must be constructed and destroyed once.
  struct TrkR
  {
    int* val;
    uint32_t magic;
    void init(int v) { val = (int*)malloc(sizeof(int)); *val = v; magic = Trk::ALIVE; live.fetch_add(1, std::memory_order_relaxed); }
    void chk(const char* what) const
    {
      if(magic != Trk::ALIVE) fail("lifetime:not-alive", "%s on an element that is not constructed (magic %x)", what, magic);
    }
    TrkR() { init(0); }
    TrkR(int v) { init(v); }
    TrkR(const TrkR& o) { o.chk("copy from"); init(o.val ? *o.val : -999999); }
    TrkR(TrkR&& o) { o.chk("move from"); val = o.val; o.val = nullptr; magic = Trk::ALIVE; live.fetch_add(1, std::memory_order_relaxed); }
    ~TrkR() { chk("destroy"); free(val); val = nullptr; magic = Trk::DEAD; live.fetch_sub(1, std::memory_order_relaxed); }
    TrkR& operator=(const TrkR& o)
    {
      chk("assign to");
      o.chk("assign from");
      if(this == &o) return *this;
      if(!o.val) { free(val); val = nullptr; return *this; }
      if(!val) val = (int*)malloc(sizeof(int));
      *val = *o.val;
      return *this;
    }
    TrkR& operator=(TrkR&& o)
    {
      chk("move-assign to");
      o.chk("move-assign from");
      if(this == &o) return *this;
      free(val);
      val = o.val;
      o.val = nullptr;
      return *this;
    }
    int get() const { chk("read"); return val ? *val : -999999; }
    operator int() const { return get(); }
    bool operator==(const TrkR& o) const { return get() == o.get(); }
    bool operator!=(const TrkR& o) const { return get() != o.get(); }
    bool operator<(const TrkR& o) const { return get() < o.get(); }
    bool operator>(const TrkR& o) const { return get() > o.get(); }
  };
}

#define CHECK(cond, key, ...) do { ++mon::g.checks; if(!(cond)) mon::fail(key, __VA_ARGS__); } while(0)

void mon_case(mon::Rng& r, uint64_t caseno);
#ifndef MON_BALANCE
#define MON_BALANCE 1
#endif

#ifndef MON_NO_MAIN
static void mon_run_one(uint64_t c)
{
  using namespace mon;
  g.caseno = c;
  g.tlen = 0;
  g.ops = 0;
  g.nt = false;
  g.thash = 0xcbf29ce484222325ull;
  Rng r(mix(g.seed) ^ mix(c * 2654435761ull + 17));
  mon_case(r, c);
}
int main(int argc, char** argv)
{
  using namespace mon;
  g.seed = 1; g.from = 0; g.count = 1;
  for(int i = 1; i + 1 < argc; i += 2)
  {
    if(!strcmp(argv[i], "--seed")) g.seed = strtoull(argv[i + 1], 0, 10);
    else if(!strcmp(argv[i], "--from")) g.from = strtoull(argv[i + 1], 0, 10);
    else if(!strcmp(argv[i], "--count")) g.count = strtoull(argv[i + 1], 0, 10);
    else if(!strcmp(argv[i], "--out")) g.out = argv[i + 1];
    else if(!strcmp(argv[i], "--verbose")) g.verbose = atoi(argv[i + 1]) != 0;
  }
  for(uint64_t c = g.from; c < g.from + g.count; ++c)
  {
    if(g.out && g.count > 1 && ((c - g.from) % 16) == 0) { /* cheap progress marker for crash attribution */ }
    // The progress marker goes to a file next to the output, so that an abort inside the code under test is attributed to its case.
    static FILE* prog = nullptr;
    if(g.out && !prog)
    {
      char p[4096];
      snprintf(p, sizeof p, "%s.case", g.out);
      prog = fopen(p, "w");
      if(prog) setvbuf(prog, nullptr, _IONBF, 0);
    }
    if(prog) { fseek(prog, 0, SEEK_SET); fprintf(prog, "%020llu\n", (unsigned long long)c); }
    int64_t l0 = live;
    size_t h0 = heap_bytes();
    mon_run_one(c);
    if(live != l0) fail("lifetime:live-count", "%lld elements were constructed and never destroyed (or destroyed twice)", (long long)(live - l0));
    size_t h1 = heap_bytes();
#if MON_BALANCE
    if(h1 != h0)
    { // one-off caches inside libc/libstdc++ settle on the first execution: a leak repeats
      uint64_t d = g.distinct, t = g.totalops, k = g.checks;
      (void)d; (void)t; (void)k;
      bool always = true;
      for(int rep = 0; rep < 3 && always; ++rep)
      {
        h0 = heap_bytes();
        mon_run_one(c);
        h1 = heap_bytes();
        if(h1 <= h0) always = false;
      }
      if(always) fail("leak:case", "the case leaves %lld more bytes allocated than it found, every time it is run", (long long)(h1 - h0));
    }
#else
    (void)h0; (void)h1;
#endif
    if(g.nt) { if(seen(g.thash)) ++g.nontrivial; }
    if(g.nsamples < 3 && g.nt && g.tlen > 0 && (c - g.from) % 7 == 3)
    {
      size_t n = g.tlen < 700 ? g.tlen : 700;
      memcpy(g.sample[g.nsamples], g.trace, n);
      g.sample[g.nsamples][n] = 0;
      ++g.nsamples;
    }
  }
  write_out(true);
  return 0;
}
#endif
