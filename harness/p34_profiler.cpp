// Monitor for the profiler. The clock is the harness's own, so that every duration is known; zones are entered and left
// in random nesting, and the three reports are compared with the calls and durations that were observed.
// The profiler is one object for the whole process, so every case runs in a process of its own.
#define BSS_ENABLE_PROFILER
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/Profiler.h"
#include <vector>
#include <map>
#include <set>
#include <string>
#include <sstream>
#include <fstream>
#include <memory>
#include <math.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <signal.h>
using namespace bss;
using mon::Rng;
typedef std::string S;

static uint64_t NOW = 1000000007ull;
static bool FAKE = false;
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
  if(!FAKE) return (int)syscall(SYS_clock_gettime, c, t);
  t->tv_sec = (time_t)(NOW / 1000000000ull);
  t->tv_nsec = (long)(NOW % 1000000000ull);
  return 0;
}

struct Zone { S name, file; size_t line; int id; };                 // id: what the profiler calls it
struct Node { uint64_t n = 0, time = 0, own = 0; };                 // completed calls, total time in the zone, total time not spent in zones inside it
typedef std::vector<int> Path;                                      // of indices in zones
static std::vector<Zone> zones;
static std::map<Path, Node> tree;
static std::map<S, int> label;
static S trim(const S& p) { size_t a = p.find_last_of("/\\"); return a == S::npos ? p : p.substr(a + 1); }
static S lab(const Zone& z) { return "[" + trim(z.file) + ":" + std::to_string(z.line) + "] " + z.name; }

struct Open { Path p; uint64_t start, inner; int how; std::unique_ptr<ProfilerBlock> block; Profiler::PROF_TRIENODE* cache; uint64_t time; };
static std::vector<Open> stack;
static void pushed(int z, int how)
{
  Open o;
  if(!stack.empty()) o.p = stack.back().p;
  o.p.push_back(z);
  o.start = NOW; o.inner = 0; o.how = how; o.cache = 0; o.time = 0;
  tree[o.p];
  stack.push_back(std::move(o));
}
static void popped()
{
  Open& o = stack.back();
  uint64_t d = NOW - o.start;
  Node& n = tree[o.p];
  ++n.n; n.time += d; n.own += d - o.inner;
  stack.pop_back();
  if(!stack.empty()) stack.back().inner += d;
}
static int addzone(const char* name, const char* file, size_t line)
{
  Zone z{ name, file, line, (int)zones.size() + 1 };
  label[lab(z)] = (int)zones.size();
  zones.push_back(z);
  return (int)zones.size() - 1;
}
static void tick(Rng& r) { uint64_t k = r.below(8); NOW += k < 2 ? 0 : k < 5 ? r.below(1000) : k < 6 ? r.below(5000000) : k < 7 ? r.below(5000000000ull) : r.below(4000000000000ull); }

// zones that are made by the macros: registered the first time they are reached
static int Zf = -1, Zb = -1, Ze = -1;
static void viamacro(Rng& r, int depth);
static void mfunc(Rng& r, int depth)
{
  PROFILE_FUNC(); if(Zf < 0) Zf = addzone("mfunc", __FILE__, __LINE__);
  pushed(Zf, 9);
  tick(r);
  if(depth > 0) viamacro(r, depth - 1);
  tick(r);
  popped();
}
static void mblock(Rng& r, int depth)
{
  tick(r);
  {
    PROFILE_BLOCK(blk); if(Zb < 0) Zb = addzone("blk", __FILE__, __LINE__);
    pushed(Zb, 9);
    tick(r);
    if(depth > 0) viamacro(r, depth - 1);
    popped();
  }
  tick(r);
}
static void mpair(Rng& r, int depth)
{
  PROFILE_BEGIN(part); if(Ze < 0) Ze = addzone("part", __FILE__, __LINE__);
  pushed(Ze, 9);
  if(depth > 0) viamacro(r, depth - 1);
  tick(r);
  popped();
  PROFILE_END(part);
}
static void viamacro(Rng& r, int depth)
{
  mon::op("macro depth %d", depth);
  switch(r.below(3)) { case 0: mfunc(r, depth); break; case 1: mblock(r, depth); break; default: mpair(r, depth); break; }
}

static double avg(const Node& n) { return n.n ? (double)n.time / (double)n.n : 0.0; }
static double own(const Node& n) { return n.n ? (double)n.own / (double)n.n : 0.0; }
static bool near(double a, double b) { return fabs(a - b) <= 2e-5 * std::max(fabs(a), fabs(b)) + 1e-9; }
// "12.5 ms" in nanoseconds; the unit has to be the one that the size calls for
static double duration(const S& t, const S& line)
{
  char* e = 0;
  double v = strtod(t.c_str(), &e);
  S u = e;
  double k = u == " s" ? 1e9 : u == " ms" ? 1e6 : u == " \xce\x9cs" || u == " \xce\xbcs" || u == " \xc2\xb5s" || u == " us" ? 1e3 : u == " ns" ? 1.0 : 0.0;
  CHECK(k > 0 && e != t.c_str() && isfinite(v) && v >= 0, "profiler:time-format", "not a duration: %s", line.c_str());
  CHECK(v <= 1e6 * (1 + 1e-9) || k == 1e9, "profiler:time-unit", "a larger unit is called for: %s", line.c_str());
  CHECK(k == 1.0 || v >= 1000 * (1 - 2e-5), "profiler:time-unit", "a smaller unit is called for: %s", line.c_str());
  return v * k;
}
static std::vector<S> lines(const S& t) { std::vector<S> l; std::istringstream s(t); S x; while(std::getline(s, x)) l.push_back(x); return l; }
struct Row { size_t depth; S what, bar; double t; S line; };
static Row row(const S& l, bool bar)
{
  Row w;
  w.line = l;
  size_t a = l.find_first_not_of(' ');
  CHECK(a != S::npos && a % 2 == 0, "profiler:line", "strange line: %s", l.c_str());
  w.depth = a / 2;
  S x = l.substr(a);
  if(bar)
  {
    size_t b = x.rfind("   [");
    CHECK(b != S::npos && x.size() - b - 4 == 10 && x.find_first_not_of(" .-#", b + 4) == S::npos, "profiler:bar", "no bar: %s", l.c_str());
    w.bar = x.substr(b + 4);
    x.resize(b);
  }
  size_t c = x.rfind(": ");
  CHECK(c != S::npos, "profiler:line", "strange line: %s", l.c_str());
  w.what = x.substr(0, c);
  w.t = duration(x.substr(c + 2), l);
  return w;
}
static S show(const Path& p) { S s; for(int z : p) s += (s.empty() ? "" : " > ") + zones[z].name + "#" + std::to_string(zones[z].id); return s; }
static int barlen(const S& b)
{
  int h = 0, d = 0, p = 0;
  for(char c : b) { h += c == '#'; d += c == '-'; p += c == '.'; }
  return h ? 20 + h : d ? 10 + d : p;
}
static void paths(const std::vector<S>& l, bool heat)
{
  Path cur;
  std::map<Path, int> seen, code;
  std::vector<double> last; // duration of the last line at each depth: siblings come longest first in the heat map
  std::vector<std::pair<double, int>> bars;
  for(auto& x : l)
  {
    Row w = row(x, heat);
    CHECK(w.depth <= cur.size(), "profiler:depth", "a line is nested deeper than what it could be inside: %s", x.c_str());
    cur.resize(w.depth);
    if(heat)
    {
      last.resize(std::min(last.size(), w.depth + 1));
      if(last.size() == w.depth + 1) { CHECK(w.t <= last[w.depth] * (1 + 2e-5), "profiler:heat-order", "not sorted by time: %s", x.c_str()); last[w.depth] = w.t; }
      else last.push_back(w.t);
      bars.push_back({ w.t, barlen(w.bar) });
      if(w.what == "[code]")
      {
        CHECK(!cur.empty() && tree.count(cur), "profiler:code", "[code] of no zone");
        CHECK(!code[cur]++, "profiler:code", "[code] of %s is there twice", show(cur).c_str());
        CHECK(near(w.t, own(tree[cur])), "profiler:code-time", "[code] of %s: %s, but its own time is %.6g ns", show(cur).c_str(), x.c_str(), own(tree[cur]));
        continue;
      }
    }
    auto z = label.find(w.what);
    CHECK(z != label.end(), "profiler:zone", "no such zone: %s", x.c_str());
    cur.push_back(z->second);
    auto n = tree.find(cur);
    CHECK(n != tree.end(), "profiler:path", "%s was never entered that way: %s", show(cur).c_str(), x.c_str());
    CHECK(!seen[cur]++, "profiler:path", "%s is there twice", show(cur).c_str());
    CHECK(near(w.t, avg(n->second)), "profiler:time", "%s: reported as %s, but it took %.7g ns on average (%llu calls)", show(cur).c_str(), x.c_str(), avg(n->second), (unsigned long long)n->second.n);
  }
  for(auto& n : tree)
  {
    CHECK(seen.count(n.first), "profiler:missing", "%s is not in the %s", show(n.first).c_str(), heat ? "heat map" : "tree");
    if(heat)
    {
      auto m = tree.upper_bound(n.first);
      bool inside = m != tree.end() && m->first.size() > n.first.size() && std::equal(n.first.begin(), n.first.end(), m->first.begin());
      CHECK((code[n.first] > 0) == inside, "profiler:code", "%s has %s zones inside, and %s [code] line", show(n.first).c_str(), inside ? "" : "no", code[n.first] ? "a" : "no");
    }
  }
  std::sort(bars.begin(), bars.end());
  if(!bars.empty() && bars.back().first > 1000) CHECK(bars.back().second >= 10, "profiler:bar-length", "the longest time, %g ns, has a bar of %d", bars.back().first, bars.back().second);
  for(size_t i = 1; i < bars.size(); ++i)
    if(bars[i].first > bars[i - 1].first * (1 + 2e-5)) CHECK(bars[i].second >= bars[i - 1].second, "profiler:bar-length", "%g ns has a shorter bar than %g ns", bars[i].first, bars[i - 1].first);
  mon::ev(heat ? "heat lines" : "tree lines", l.size());
}
static void flat(const std::vector<S>& l)
{
  std::vector<Node> all(zones.size());
  for(auto& n : tree) { all[n.first.back()].n += n.second.n; all[n.first.back()].time += n.second.time; }
  std::set<int> seen;
  double last = INFINITY;
  for(auto& x : l)
  {
    Row w = row(x, false);
    CHECK(!w.depth, "profiler:line", "an indented line in the flat list: %s", x.c_str());
    auto z = label.find(w.what);
    CHECK(z != label.end() && seen.insert(z->second).second, "profiler:flat-zone", "no such zone, or twice: %s", x.c_str());
    CHECK(near(w.t, avg(all[z->second])), "profiler:flat-time", "%s, but it took %.7g ns on average (%llu calls)", x.c_str(), avg(all[z->second]), (unsigned long long)all[z->second].n);
    CHECK(w.t <= last * (1 + 2e-5), "profiler:flat-order", "not sorted by time: %s", x.c_str());
    last = w.t;
  }
  for(size_t i = 0; i < zones.size(); ++i)
    if(all[i].n) CHECK(seen.count((int)i), "profiler:flat-missing", "zone %s is not in the flat list", lab(zones[i]).c_str());
  mon::ev("flat lines", l.size());
}
static void judge(Rng& r)
{
  uint8_t what = (uint8_t)(1 + r.below(7));
  S t;
  mon::op("output %d with %zu open", what, stack.size());
  if(r.chance(1, 6))
  {
    char f[64];
    snprintf(f, sizeof f, "/tmp/p34_%d.txt", (int)getpid());
    PROFILE_OUTPUT(f, what);
    std::ifstream i(f, std::ios::binary);
    t.assign(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
    unlink(f);
  }
  else { std::ostringstream o; Profiler::profiler.WriteToStream(o, what); t = o.str(); }
  std::vector<S> l = lines(t), sec[3];
  int cur = -1;
  uint8_t had = 0;
  for(auto& x : l)
  {
    int k = x == "BSS Profiler Tree Output: " ? 0 : x == "BSS Profiler Flat Output: " ? 1 : x == "BSS Profiler Heat Output: " ? 2 : -1;
    if(k >= 0) { CHECK(!(had & (1 << k)), "profiler:sections", "a report is there twice"); cur = k; had |= (uint8_t)(1 << k); }
    else if(!x.empty()) { CHECK(cur >= 0, "profiler:sections", "a line before the first report: %s", x.c_str()); sec[cur].push_back(x); }
  }
  CHECK(had == (((what & Profiler::OUTPUT_TREE) ? 1 : 0) | ((what & Profiler::OUTPUT_FLAT) ? 2 : 0) | ((what & Profiler::OUTPUT_HEATMAP) ? 4 : 0)), "profiler:sections", "asked for %d, got reports %d", what, had);
  if(had & 1) paths(sec[0], false);
  if(had & 2) flat(sec[1]);
  if(had & 4) paths(sec[2], true);
}
static void scenario(Rng& r)
{
  FAKE = true;
  static const char* names[] = { "update", "render", "f", "a rather long zone name", "x: y", "draw", "io" };
  static const char* files[] = { "main.cpp", "/src/dir/main.cpp", "C:\\src\\a.cpp", "dir/b.cpp", "/x\\y/z.cpp", "/x/y\\w.cpp" };
  size_t n;
  switch(r.below(12)) { case 0: n = 1; break; case 1: case 2: n = 2 + r.below(6); break; case 3: case 4: case 5: n = 10 + r.below(12); break; case 6: case 7: case 8: n = 20 + r.below(60); break; case 9: case 10: n = 60 + r.below(500); break; default: n = r.chance(1, 4) ? 4000 + r.below(1500) : 500 + r.below(300); break; }
  auto make = [&] {
    const char* nm = names[r.below(7)]; const char* fl = files[r.below(6)];
    size_t line = zones.size() + 1 + 10000 * r.below(5);
    Profiler::ProfilerData* d = new Profiler::ProfilerData(nm, fl, line);
    int z = addzone(nm, fl, line);
    CHECK(d->id == zones[z].id, "profiler:id", "zone number %d has id %d", zones[z].id, d->id);
  };
  mon::op("%zu zones", n);
  if(r.chance(1, 3)) viamacro(r, 1 + (int)r.below(3));
  for(size_t i = 0; i < n; ++i) make();
  // a few zones are used a lot; their ids are the first ones, the last ones, and those around powers of the digits
  std::vector<int> use;
  size_t total = zones.size();
  for(size_t i = 1 + r.below(10); i > 0; --i)
  {
    size_t k;
    switch(r.below(5)) { case 0: k = r.below(total); break; case 1: k = r.below(std::min<size_t>(total, 3)); break; case 2: k = total - 1 - r.below(std::min<size_t>(total, 3)); break; default: k = (1ull << r.below(13)) * (1 + r.below(3)) + r.below(3); if(k) --k; k %= total; break; }
    use.push_back((int)k);
  }
  int steps = (int)r.below(r.chance(1, 4) ? 400 : 60);
  if(r.chance(1, 10)) judge(r);
  for(int i = 0; i < steps; ++i)
  {
    uint64_t k = r.below(20);
    if(k < 8 && stack.size() < 12)
    {
      int z = use[r.below(use.size())];
      mon::op("enter %d", zones[z].id);
      Profiler::PROF_TRIENODE* cache = Profiler::profiler.GetCur();
      if(r.chance(1, 2)) { auto* b = new ProfilerBlock((Profiler::ProfilerInt)zones[z].id, cache); pushed(z, 0); stack.back().block.reset(b); }
      else { uint64_t t = Profiler::profiler.StartProfile((Profiler::ProfilerInt)zones[z].id); pushed(z, 1); stack.back().cache = cache; stack.back().time = t; }
    }
    else if(k < 15)
    {
      if(stack.empty()) continue;
      mon::op("leave");
      if(stack.back().how == 0) stack.back().block.reset();
      else Profiler::profiler.EndProfile(stack.back().time, stack.back().cache);
      popped();
    }
    else if(k == 15) { if(r.chance(1, 3)) viamacro(r, (int)r.below(4)); }
    else if(k == 16) { if(r.chance(1, 8)) judge(r); }
    else tick(r);
  }
  if(r.chance(2, 3))
    while(!stack.empty())
    {
      tick(r);
      mon::op("leave");
      if(stack.back().how == 0) stack.back().block.reset();
      else Profiler::profiler.EndProfile(stack.back().time, stack.back().cache);
      popped();
    }
  judge(r);
  CHECK(Profiler::profiler.GetCur() == Profiler::profiler.GetRoot() || !stack.empty(), "profiler:current", "no zone is open, but the current zone is not the root");
  if(tree.size() > 1) mon::nontrivial();
  for(auto& o : stack) o.block.release(); // still open: the process ends here
  mon::ev("paths", tree.size());
  mon::ev("zones", zones.size());
}
struct Back { uint64_t ops, totalops, checks, thash, ev[5]; bool nt; };
static const char* EVS[] = { "tree lines", "flat lines", "heat lines", "paths", "zones" };
void mon_case(Rng& r, uint64_t)
{
  int p[2];
  if(pipe(p)) abort();
  fflush(0);
  for(auto e : EVS) mon::counter(e);
  pid_t c = fork();
  if(c < 0) abort();
  if(!c)
  {
    close(p[0]);
    uint64_t ops = mon::g.totalops, checks = mon::g.checks, ev[5];
    for(int i = 0; i < 5; ++i) ev[i] = mon::counter(EVS[i]).n;
    scenario(r);
    Back b;
    memset((void*)&b, 0, sizeof b);
    b.ops = mon::g.ops; b.totalops = mon::g.totalops - ops; b.checks = mon::g.checks - checks; b.thash = mon::g.thash; b.nt = mon::g.nt;
    for(int i = 0; i < 5; ++i) b.ev[i] = mon::counter(EVS[i]).n - ev[i];
    if(write(p[1], &b, sizeof b) != (ssize_t)sizeof b) abort();
    _exit(0);
  }
  close(p[1]);
  Back b;
  ssize_t n = read(p[0], &b, sizeof b);
  close(p[0]);
  int st = 0;
  while(waitpid(c, &st, 0) < 0) ;
  if(WIFSIGNALED(st)) { fprintf(stderr, "the case was ended by signal %d\n", WTERMSIG(st)); fflush(stderr); signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(96); }
  if(WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
  if(n != (ssize_t)sizeof b) abort();
  mon::g.ops = b.ops; mon::g.totalops += b.totalops; mon::g.checks += b.checks; mon::g.thash = b.thash; mon::g.nt = b.nt;
  for(int i = 0; i < 5; ++i) mon::ev(EVS[i], b.ev[i]);
}
