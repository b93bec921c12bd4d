// Monitor for animations: keyframe tracks, their lengths, and the states that play them. The object that is animated
// records every call it receives; the calls are compared with those that the keyframes and the clock call for.
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/algo.h"
#include "bss-util/Serializer.h"
#include "bss-util/Animation.h"
#include <vector>
#include <map>
#include <memory>
#include <math.h>
using namespace bss;
using mon::Rng;
using mon::Trk;

static const double FEPS = 2.5e-7; // the root finder stops within FLT_EPS of the time it looks for

struct Ev
{
  int kind; // 0 discrete, 1 interval begins, 2 interval ends, 3.. smooth values
  double lo, hi;
  int id;
};

struct Obj
{
  std::vector<Ev> log;
  std::map<int, int> open; // handle -> value
  int next = 1;
  void disc(const Trk& v) { log.push_back(Ev{ 0, 0, 0, v.get() }); }
  int add(int v) { int h = next++; open[h] = v; log.push_back(Ev{ 1, 0, 0, v }); return h; }
  void rem(int h)
  {
    auto it = open.find(h);
    if(it == open.end()) mon::fail("ani:handle", "handle %d was removed although it is not in use", h);
    log.push_back(Ev{ 2, 0, 0, it->second });
    open.erase(it);
  }
  void sm0(double v) { log.push_back(Ev{ 3, v, v, 0 }); }
  void sm1(float v) { log.push_back(Ev{ 4, v, v, 0 }); }
  void sm2(int v) { log.push_back(Ev{ 5, (double)v, (double)v, 0 }); }
};
struct Derived : Obj { int extra[3] = { 7, 8, 9 }; };

typedef AniData<Trk, void, ARRAY_SAFE> DD;
typedef AniDataInterval<int> DI;
typedef AniDataSmooth<double> DS;
typedef AniLinearData<float> LIN;
typedef AniDataSmooth<float, LIN> DE;
typedef AniDataSmooth<int, void, ARRAY_SIMPLE, 1> DN;
typedef Animation<DD, DI, DS, DE, DN> ANI;
typedef AniStateDiscrete<Obj, DD, const Trk&, &Obj::disc> SD;
typedef AniStateInterval<Obj, DI, int, int, &Obj::add, &Obj::rem> SI;
typedef AniStateSmooth<Obj, DS, double, &Obj::sm0> SS;
typedef AniStateSmooth<Obj, DE, float, &Obj::sm1> SE;
typedef AniStateSmooth<Obj, DN, int, &Obj::sm2> SN;
typedef AniState<Derived, ANI, SD, SI, SS, SE, SN> STATE;

// ---- the model of the keyframes
struct FD { double t; int v; };
struct FI { double t; int v; double len; };
struct FS { double t; double v; };
struct FE { double t; double v; double t1, s1, t2, s2; };
struct MAni
{
  std::vector<FD> d;
  std::vector<FI> i;
  std::vector<FS> s;
  std::vector<FE> e;
  std::vector<FS> n;
  double length = -1, loop = -1, calc = 0;
  int fs = 0, fe = 0, fn = 0; // interpolation functions
  double len() const { return length < 0 ? calc : length; }
  double end(int k) const
  {
    double x = 0;
    switch(k)
    {
    case 0: return d.empty() ? 0 : d.back().t;
    case 1: for(auto& f : i) x = std::max(x, f.t + f.len); return x;
    case 2: return s.empty() ? 0 : s.back().t;
    case 3: return e.empty() ? 0 : e.back().t;
    default: return n.empty() ? 0 : n.back().t;
    }
  }
  void recalc() { calc = 0; for(int k = 0; k < 5; ++k) calc = std::max(calc, end(k)); }
};

static double bez(double s, double a, double b) { double i = 1 - s; return 3 * i * i * s * a + 3 * i * s * s * b + s * s * s; }
static double inverse(double t, double a, double b)
{
  double lo = 0, hi = 1;
  if(t <= 0) return 0;
  if(t >= 1) return 1;
  for(int k = 0; k < 60; ++k) { double m = (lo + hi) / 2; if(bez(m, a, b) < t) lo = m; else hi = m; }
  return (lo + hi) / 2;
}

struct MState
{
  double time = 0;
  size_t cd = 0, ci = 0;
  std::vector<std::pair<double, int>> open; // end, value
  double is = 0, ie = 0, in = 0;
};

static void smooth_range(const MAni& a, const MState& m, double t, std::vector<Ev>& out, int which)
{
  auto emit = [&](double x) { double tol = 4e-6 * (fabs(x) + 64); out.push_back(Ev{ 3 + which, x - tol, x + tol, 0 }); };
  size_t len = which == 0 ? a.s.size() : which == 1 ? a.e.size() : a.n.size();
  auto T = [&](size_t i) { return which == 0 ? a.s[i].t : which == 1 ? a.e[i].t : a.n[i].t; };
  auto V = [&](size_t i) { return which == 0 ? a.s[i].v : which == 1 ? a.e[i].v : a.n[i].v; };
  double init = which == 0 ? m.is : which == 1 ? m.ie : m.in;
  size_t cur = 0;
  while(cur < len && T(cur) <= t) ++cur;
  double f = 1;
  if(cur >= len)
  {
    if(len < 2) return;
    cur = len - 1;
  }
  else
  {
    double hold = cur ? T(cur - 1) : 0;
    f = (t - hold) / (T(cur) - hold);
  }
  double from = cur ? V(cur - 1) : init, to = V(cur);
  if(which == 1)
  {
    const FE& e = a.e[cur];
    double lo = inverse(f - FEPS, e.t1, e.t2), hi = inverse(f + FEPS, e.t1, e.t2);
    double slo = 1e30, shi = -1e30;
    for(int k = 0; k <= 16; ++k)
    {
      double s = bez(lo + (hi - lo) * k / 16, e.s1, e.s2);
      slo = std::min(slo, s);
      shi = std::max(shi, s);
    }
    double slack = (hi - lo) * (hi - lo) * 20 + 1e-6;
    slo -= slack; shi += slack;
    double x = from + (to - from) * slo, y = from + (to - from) * shi;
    if(a.fe) { x += init; y += init; } // relative
    double tol = 4e-6 * (fabs(from) + fabs(to) + fabs(init) + 1) * (1 + fabs(slo) + fabs(shi));
    out.push_back(Ev{ 4, std::min(x, y) - tol, std::max(x, y) + tol, 0 });
    return;
  }
  int fn = which == 0 ? a.fs : a.fn;
  switch(fn)
  {
  case 0: { double x = f == 1.0 ? to : from; out.push_back(Ev{ 3 + which, x, x, 0 }); break; }                 // holds the last keyframe
  case 1: { double x = init + (f == 1.0 ? to : V(cur - 1)); out.push_back(Ev{ 3 + which, x, x, 0 }); break; } // the same, relative
  case 2:
  case 3:
  {
    double x = from + (to - from) * f + (fn == 3 ? init : 0);
    if(which == 2) out.push_back(Ev{ 5, x - 2.001, x + 2.001, 0 }); // both terms are truncated to integers
    else emit(x);
    break;
  }
  }
}

static void fire(const MAni& a, MState& m, std::vector<Ev>& out)
{
  double t = m.time;
  while(m.cd < a.d.size() && a.d[m.cd].t <= t) out.push_back(Ev{ 0, 0, 0, a.d[m.cd++].v });
  while(m.ci < a.i.size() && a.i[m.ci].t <= t)
  {
    out.push_back(Ev{ 1, 0, 0, a.i[m.ci].v });
    m.open.push_back({ a.i[m.ci].t + a.i[m.ci].len, a.i[m.ci].v });
    ++m.ci;
  }
  // what has ended is removed, the earliest end first
  for(;;)
  {
    size_t best = (size_t)-1;
    for(size_t k = 0; k < m.open.size(); ++k)
      if(m.open[k].first <= t && (best == (size_t)-1 || m.open[k].first < m.open[best].first)) best = k;
    if(best == (size_t)-1) break;
    out.push_back(Ev{ 2, m.open[best].first, 0, m.open[best].second });
    m.open.erase(m.open.begin() + best);
  }
  for(int k = 0; k < 3; ++k) smooth_range(a, m, t, out, k);
}
static void mreset(MState& m, std::vector<Ev>& out)
{
  for(auto& o : m.open) out.push_back(Ev{ 2, -1, 0, o.second }); // in any order
  m.open.clear();
  m.cd = m.ci = 0;
}
static bool mstep(const MAni& a, MState& m, double delta, std::vector<Ev>& out)
{
  double len = a.len();
  if(m.time >= len && a.loop < 0) return false;
  m.time += delta;
  fire(a, m, out);
  if(m.time >= len && a.loop >= 0)
  {
    mreset(m, out);
    m.time = fmod(m.time - len, len - a.loop) + a.loop;
    fire(a, m, out);
    mon::ev("ani_looped");
  }
  return m.time < len;
}

// removals that are due at the same moment may come in any order: sort each run of them before comparing
static void compare(std::vector<Ev>& want, const std::vector<Ev>& got0, const char* what)
{
  std::vector<Ev> got(got0);
  CHECK(want.size() == got.size(), "ani:calls", "%s: %zu calls were made, expected %zu (first kinds %d / %d)", what, got.size(), want.size(), got.empty() ? -1 : got[0].kind, want.empty() ? -1 : want[0].kind);
  auto by = [](const Ev& x, const Ev& y) { return x.id < y.id; };
  for(size_t i = 0; i < want.size();)
  {
    size_t j = i + 1;
    if(want[i].kind == 2)
    {
      while(j < want.size() && want[j].kind == 2 && want[j].lo == want[i].lo) ++j;
      for(size_t k = i; k < j; ++k) CHECK(got[k].kind == 2, "ani:order", "%s: call %zu is of kind %d, expected a removal", what, k, got[k].kind);
      std::sort(want.begin() + i, want.begin() + j, by);
      std::sort(got.begin() + i, got.begin() + j, by);
    }
    for(size_t k = i; k < j; ++k)
    {
      CHECK(got[k].kind == want[k].kind, "ani:order", "%s: call %zu is of kind %d, expected %d", what, k, got[k].kind, want[k].kind);
      if(want[k].kind <= 2) CHECK(got[k].id == want[k].id, want[k].kind == 0 ? "ani:discrete" : "ani:interval", "%s: call %zu of kind %d has value %d, expected %d", what, k, got[k].kind, got[k].id, want[k].id);
      else CHECK(got[k].lo >= want[k].lo && got[k].lo <= want[k].hi, "ani:smooth", "%s: call %zu of kind %d has value %.9g, expected %.9g to %.9g", what, k, got[k].kind, got[k].lo, want[k].lo, want[k].hi);
    }
    i = j;
  }
}

static double tick(Rng& r, int max) { return r.below(max * 8 + 1) / 8.0; }

template<class M, class F> static void refresh(M& m, Slice<const F> f, size_t at, const M& before)
{ // equal times: the order is the container's choice, but nothing else may change
  CHECK(f.length == m.size(), "ani:frames", "the track has %zu keyframes, expected %zu", f.length, m.size());
  (void)at; (void)before;
}

static void check_tracks(const ANI& a, const MAni& m)
{
  auto fd = a.Get<DD>().Frames();
  auto fi = a.Get<DI>().Frames();
  auto fs = a.Get<DS>().Frames();
  auto fe = a.Get<DE>().Frames();
  auto fn = a.Get<DN>().Frames();
  CHECK(fd.length == m.d.size() && fi.length == m.i.size() && fs.length == m.s.size() && fe.length == m.e.size() && fn.length == m.n.size(), "ani:frames", "wrong number of keyframes");
  for(size_t k = 0; k < m.d.size(); ++k) CHECK(fd[k].time == m.d[k].t && fd[k].value.get() == m.d[k].v, "ani:frames", "discrete keyframe %zu is %g/%d, expected %g/%d", k, fd[k].time, fd[k].value.get(), m.d[k].t, m.d[k].v);
  for(size_t k = 0; k < m.i.size(); ++k) CHECK(fi[k].time == m.i[k].t && fi[k].value == m.i[k].v && fi[k].data == m.i[k].len, "ani:frames", "interval keyframe %zu is %g/%d, expected %g/%d", k, fi[k].time, fi[k].value, m.i[k].t, m.i[k].v);
  for(size_t k = 0; k < m.s.size(); ++k) CHECK(fs[k].time == m.s[k].t && fs[k].value == m.s[k].v, "ani:frames", "smooth keyframe %zu", k);
  for(size_t k = 0; k < m.n.size(); ++k) CHECK(fn[k].time == m.n[k].t && fn[k].value == (int)m.n[k].v, "ani:frames", "smooth integer keyframe %zu", k);
  for(size_t k = 0; k < m.e.size(); ++k) CHECK(fe[k].time == m.e[k].t && fe[k].value == (float)m.e[k].v && fe[k].data.t1 == m.e[k].t1 && fe[k].data.s1 == m.e[k].s1 && fe[k].data.t2 == m.e[k].t2 && fe[k].data.s2 == m.e[k].s2, "ani:frames", "eased keyframe %zu", k);
  CHECK(a.Get<DD>().Begin() == (m.d.empty() ? 0 : m.d[0].t) && a.Get<DI>().Begin() == (m.i.empty() ? 0 : m.i[0].t), "ani:begin", "Begin");
  CHECK(a.Get<DD>().End() == m.end(0), "ani:end", "a discrete track ends at %g, expected %g", a.Get<DD>().End(), m.end(0));
  CHECK(a.Get<DI>().End() == m.end(1), "ani:end", "an interval track ends at %g, expected %g", a.Get<DI>().End(), m.end(1));
  CHECK(a.Get<DS>().End() == m.end(2) && a.Get<DE>().End() == m.end(3) && a.Get<DN>().End() == m.end(4), "ani:end", "the end of a smooth track");
  CHECK(a.GetLength() == m.len(), "ani:length", "the length is %g, expected %g", a.GetLength(), m.len());
  CHECK(a.GetLoop() == m.loop, "ani:loop", "the loop point is %g, expected %g", a.GetLoop(), m.loop);
}

// puts x into the model at the index the track chose, which must keep the times sorted
template<class M> static void place(std::vector<M>& v, size_t at, const M& x)
{
  CHECK(at <= v.size(), "ani:add", "Add returned %zu for a track with %zu keyframes", at, v.size() + 1);
  CHECK((at == 0 || v[at - 1].t <= x.t) && (at == v.size() || x.t <= v[at].t), "ani:add", "the keyframe at %g was put at index %zu, out of order", x.t, at);
  v.insert(v.begin() + at, x);
}

static FE easing(Rng& r, double t, double v)
{
  FE f{ t, v, 0, 0, 1, 1 };
  switch(r.below(5))
  {
  case 0: break;
  case 1: f.t1 = r.below(5) / 4.0; f.t2 = r.below(5) / 4.0; f.s1 = r.below(5) / 4.0; f.s2 = r.below(5) / 4.0; break;
  case 2: f.t1 = r.below(2); f.t2 = r.below(2); f.s1 = r.below(2); f.s2 = r.below(2); break;
  case 3: f.t1 = 1 / 3.0; f.t2 = 2 / 3.0; f.s1 = r.unit() * 3 - 1; f.s2 = r.unit() * 3 - 1; break;
  case 4: f.t1 = r.unit(); f.t2 = r.unit(); f.s1 = r.unit() * 2 - 0.5; f.s2 = r.unit() * 2 - 0.5; break;
  }
  return f;
}

static void add_one(Rng& r, ANI& a, MAni& m, int span)
{
  double t = tick(r, span);
  int v = (int)r.range(-50, 50);
  bool viaTrack = r.chance(1, 5);
  switch(r.below(5))
  {
  case 0:
  {
    size_t at;
    if(viaTrack) at = a.Get<DD>().Add(t, Trk(v));
    else if(r.chance(1, 2)) at = a.Add<DD>(t, Trk(v));
    else at = a.Add<DD>(DD::FRAME{ t, Trk(v) });
    place(m.d, at, FD{ t, v });
    if(!viaTrack) m.calc = std::max(m.calc, m.end(0));
    mon::op("discrete %g -> %d at %zu", t, v, at);
    break;
  }
  case 1:
  {
    double len = r.chance(1, 6) ? 0 : tick(r, 1 + (int)r.below(span));
    size_t at;
    if(viaTrack) at = a.Get<DI>().Add(t, v, len);
    else if(r.chance(1, 6)) { len = 0; at = a.Add<DI>(t, v); }
    else at = a.Add<DI>(DI::FRAME{ t, v, len });
    place(m.i, at, FI{ t, v, len });
    if(!viaTrack) m.calc = std::max(m.calc, m.end(1));
    mon::op("interval %g +%g -> %d at %zu", t, len, v, at);
    break;
  }
  case 2:
  {
    size_t at = viaTrack ? a.Get<DS>().Add(t, v) : a.Add<DS>(t, v);
    place(m.s, at, FS{ t, (double)v });
    if(!viaTrack) m.calc = std::max(m.calc, m.end(2));
    mon::op("smooth %g -> %d at %zu", t, v, at);
    break;
  }
  case 3:
  {
    FE f = easing(r, t, v);
    DE::FRAME fr{ t, (float)v, LIN(f.t1, f.s1, f.t2, f.s2) };
    size_t at = viaTrack ? a.Get<DE>().Add(fr) : a.Add<DE>(fr);
    place(m.e, at, f);
    if(!viaTrack) m.calc = std::max(m.calc, m.end(3));
    mon::op("eased %g -> %d (%g %g %g %g) at %zu", t, v, f.t1, f.s1, f.t2, f.s2, at);
    break;
  }
  case 4:
  {
    size_t at = viaTrack ? a.Get<DN>().Add(t, v) : a.Add<DN>(t, v);
    place(m.n, at, FS{ t, (double)v });
    if(!viaTrack) m.calc = std::max(m.calc, m.end(4));
    mon::op("smooth integer %g -> %d at %zu", t, v, at);
    break;
  }
  }
}

static bool relative_ok(const MAni& m)
{ // the relative functions need a keyframe at zero to start from
  if((m.fs & 1) && !(m.fs == 1 && m.s.empty()) && !m.s.empty() && m.s[0].t != 0) return false;
  return true;
}

static void set_functions(Rng& r, ANI& a, MAni& m)
{
  auto zero = [](auto& v) { return !v.empty() && v[0].t == 0; };
  m.fs = (int)r.below(4);
  if(!zero(m.s) && m.fs != 2) m.fs = m.fs == 0 ? 0 : 2;
  m.fn = (int)r.below(4);
  if(!zero(m.n) && m.fn != 2) m.fn = m.fn == 0 ? 0 : 2;
  m.fe = zero(m.e) ? (int)r.below(2) : 0;
  // with one keyframe at zero nothing is ever called; with several at zero the first step is past them
  DS::INTERPOLATE fs[4] = { &DS::NoInterpolate, &DS::NoInterpolateRel, &DS::LerpInterpolate, &DS::LerpInterpolateRel };
  DN::INTERPOLATE fn[4] = { &DN::NoInterpolate, &DN::NoInterpolateRel, &DN::LerpInterpolate, &DN::LerpInterpolateRel };
  a.Get<DS>().SetInterpolation(fs[m.fs]);
  a.Get<DN>().SetInterpolation(fn[m.fn]);
  a.Get<DE>().SetInterpolation(m.fe ? &LIN::LinearInterpolateRel : &LIN::LinearInterpolate);
  CHECK(a.Get<DS>().GetInterpolation() == fs[m.fs], "ani:function", "GetInterpolation");
}

static void edit(Rng& r, ANI& a, MAni& m, int span)
{
  switch(r.below(9))
  {
  case 0: case 1: add_one(r, a, m, span); break;
  case 2:
  {
    int k = (int)r.below(5);
    size_t n = k == 0 ? m.d.size() : k == 1 ? m.i.size() : k == 2 ? m.s.size() : k == 3 ? m.e.size() : m.n.size();
    size_t at = r.below(n + 2);
    bool ok = false;
    mon::op("remove %d[%zu] of %zu", k, at, n);
    switch(k)
    {
    case 0: ok = a.Remove<DD>(at); if(at < n) m.d.erase(m.d.begin() + at); break;
    case 1: ok = a.Remove<DI>(at); if(at < n) m.i.erase(m.i.begin() + at); break;
    case 2: ok = a.Remove<DS>(at); if(at < n) m.s.erase(m.s.begin() + at); break;
    case 3: ok = a.Remove<DE>(at); if(at < n) m.e.erase(m.e.begin() + at); break;
    case 4: ok = a.Remove<DN>(at); if(at < n) m.n.erase(m.n.begin() + at); break;
    }
    CHECK(ok == (at < n), "ani:remove", "Remove(%zu) of %zu returned %d", at, n, (int)ok);
    if(ok) m.recalc();
    break;
  }
  case 3:
  {
    double l = r.chance(1, 2) ? -1 : 0.125 + tick(r, span + 2);
    mon::op("length %g", l);
    if(l < 0 && r.chance(1, 2)) a.SetLength(); else a.SetLength(l);
    m.length = l;
    m.recalc();
    break;
  }
  case 4:
  {
    int n = (int)r.below(6);
    int k = (int)r.below(3);
    mon::op("set %d to %d keyframes", k, n);
    std::vector<double> ts;
    for(int q = 0; q < n; ++q) ts.push_back(tick(r, span));
    std::sort(ts.begin(), ts.end());
    if(k == 0)
    {
      std::vector<DD::FRAME> f;
      m.d.clear();
      for(double t : ts) { int v = (int)r.below(100); f.push_back(DD::FRAME{ t, Trk(v) }); m.d.push_back(FD{ t, v }); }
      a.Set<DD>(f.data(), f.size());
    }
    else if(k == 1)
    {
      std::vector<DI::FRAME> f;
      m.i.clear();
      for(double t : ts) { int v = (int)r.below(100); double l = tick(r, span); f.push_back(DI::FRAME{ t, v, l }); m.i.push_back(FI{ t, v, l }); }
      a.Set<DI>(f.data(), f.size());
      DI other(f.data(), f.size());
      CHECK(other.End() == m.end(1), "ani:end", "a track made from keyframes ends at %g, expected %g", other.End(), m.end(1));
    }
    else
    {
      std::vector<DS::FRAME> f;
      m.s.clear();
      for(double t : ts) { int v = (int)r.below(100); f.push_back(DS::FRAME{ t, (double)v }); m.s.push_back(FS{ t, (double)v }); }
      a.Set<DS>(f.data(), f.size());
    }
    m.recalc();
    break;
  }
  case 5:
  { // copies and moves are independent of the original
    mon::op("copy or move");
    ANI b(a);
    check_tracks(b, m);
    ANI c;
    c = b;
    check_tracks(c, m);
    ANI d(std::move(b));
    check_tracks(d, m);
    add_one(r, c, *std::make_unique<MAni>(m), span);
    check_tracks(a, m);
    c = std::move(d);
    check_tracks(c, m);
    if(r.chance(1, 2)) a = std::move(c); else { a = a; a = c; }
    break;
  }
  default:
  {
    double len = m.len();
    double l = r.chance(1, 2) || len <= 0.25 ? -1 : r.chance(1, 3) ? 0 : r.below((uint64_t)(len * 8)) / 8.0;
    mon::op("loop %g", l);
    a.SetLoop(l);
    m.loop = l;
    break;
  }
  }
  // a loop needs something to repeat
  if(m.loop >= 0 && m.loop >= m.len()) { a.SetLoop(-1); m.loop = -1; }
}

static void play(Rng& r)
{
  int span = 1 + (int)r.below(6);
  ANI a;
  MAni m;
  if(r.chance(1, 6))
  {
    a.~ANI();
    m.length = r.chance(1, 2) ? -1 : 0.5 + tick(r, span);
    m.loop = m.length > 0 && r.chance(1, 2) ? 0 : -1;
    new(&a) ANI(m.length, m.loop);
  }
  bool big = r.chance(1, 60);
  if(big) { span = 20 + (int)r.below(60); mon::ev("long animations"); }
  for(int i = (int)r.below(big ? 600 : 24); i > 0; --i) add_one(r, a, m, span);
  for(int round = 1 + (int)r.below(4); round > 0; --round)
  {
    for(int i = (int)r.below(5); i > 0; --i) edit(r, a, m, span);
    set_functions(r, a, m);
    check_tracks(a, m);
    if(m.len() <= 0 && m.loop >= 0) continue;
    const int N = 1 + (int)r.below(3);
    Derived obj[3];
    MState ms[3];
    std::vector<Ev> want;
    {
      alignas(STATE) char store[3][sizeof(STATE)];
      STATE* st[3];
      for(int k = 0; k < N; ++k)
      {
        st[k] = new(store[k]) STATE(&obj[k], &a);
        ms[k].is = (double)r.range(-20, 20); ms[k].ie = (double)r.range(-20, 20); ms[k].in = (double)r.range(-20, 20);
        st[k]->SetValues(STATE::VALUES{ ms[k].is, (float)ms[k].ie, (int)ms[k].in });
        auto v = st[k]->GetValues();
        CHECK(std::get<0>(v) == ms[k].is && std::get<1>(v) == (float)ms[k].ie && std::get<2>(v) == (int)ms[k].in, "ani:init", "GetValues does not return what SetValues was given");
        CHECK(obj[k].log.empty() && st[k]->GetTime() == 0, "ani:fresh", "a new state is not at the beginning");
      }
      for(int i = 3 + (int)r.below(30); i > 0; --i)
      {
        int k = (int)r.below(N);
        obj[k].log.clear();
        want.clear();
        int what = (int)r.below(12);
        if(what == 0)
        {
          mon::op("%d: reset", k);
          st[k]->Reset();
          mreset(ms[k], want);
          ms[k].time = 0;
          CHECK(obj[k].open.empty(), "ani:reset", "a reset state left %zu intervals open", obj[k].open.size());
        }
        else if(what == 1)
        {
          double t = tick(r, span);
          mon::op("%d: time %g -> %g", k, ms[k].time, t);
          AniStateBase* base = st[k];
          base->SetTime(t);
          if(ms[k].time > t) { mreset(ms[k], want); mon::ev("ani_rewound"); }
          ms[k].time = t;
        }
        else
        {
          double d = r.chance(1, 6) ? 0 : r.chance(1, 10) ? tick(r, span * 4) : tick(r, 1);
          mon::op("%d: +%g from %g of %g loop %g", k, d, ms[k].time, m.len(), m.loop);
          bool got = ((AniStateBase*)st[k])->Interpolate(d);
          bool exp = mstep(a.GetLength() == m.len() ? m : m, ms[k], d, want);
          CHECK(got == exp, "ani:playing", "Interpolate returned %d at %g of %g, loop %g", (int)got, ms[k].time, m.len(), m.loop);
          mon::ev("ani_steps");
        }
        CHECK(st[k]->GetTime() == ms[k].time, "ani:time", "the time is %.17g, expected %.17g", st[k]->GetTime(), ms[k].time);
        mon::ev("ani_calls", obj[k].log.size());
        compare(want, obj[k].log, what == 0 ? "reset" : what == 1 ? "set time" : "step");
        CHECK(obj[k].open.size() == ms[k].open.size(), "ani:open", "%zu intervals are open, expected %zu", obj[k].open.size(), ms[k].open.size());
        CHECK(obj[k].extra[0] == 7 && obj[k].extra[2] == 9, "ani:object", "the animated object was overwritten");
      }
      for(int k = 0; k < N; ++k)
      {
        obj[k].log.clear();
        want.clear();
        size_t n = obj[k].open.size();
        st[k]->~STATE();
        mreset(ms[k], want);
        compare(want, obj[k].log, "destructor");
        CHECK(obj[k].open.empty(), "ani:destroy", "a destroyed state left %zu of %zu intervals open", obj[k].open.size(), n);
      }
    }
    if(m.d.size() + m.i.size() > 4) mon::nontrivial();
  }
}

void mon_case(Rng& r, uint64_t)
{
  play(r);
  (void)relative_ok;
}
