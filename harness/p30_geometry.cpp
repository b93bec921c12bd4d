// Monitor for the shapes and their collision and intersection tests: every answer is compared with one worked out in
// long double from the definition of the shape. Answers that depend on which side of a boundary a point is are only
// judged when the point is further from the boundary than the rounding of the type.
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/Geometry.h"
#include <vector>
#include <array>
#include <math.h>
using namespace bss;
using mon::Rng;
typedef long double L;
static const L PIL = 3.14159265358979323846264338327950288L;
static const L TAU = 2 * 3.14159265358979323846264338327950288L;

struct P { L x, y; };
static P operator+(P a, P b) { return P{ a.x + b.x, a.y + b.y }; }
static P operator-(P a, P b) { return P{ a.x - b.x, a.y - b.y }; }
static P operator*(P a, L s) { return P{ a.x * s, a.y * s }; }
static L dot(P a, P b) { return a.x * b.x + a.y * b.y; }
static L cross(P a, P b) { return a.x * b.y - a.y * b.x; }
static L len(P a) { return sqrtl(dot(a, a)); }
static L dist(P a, P b) { return len(a - b); }
static L clampl(L v, L a, L b) { return v < a ? a : v > b ? b : v; }
static L segdist(P a, P b, P p) { P d = b - a; L q = dot(d, d); if(q == 0) return dist(a, p); L t = clampl(dot(p - a, d) / q, 0, 1); return dist(a + d * t, p); }

template<class T> struct Tol;
template<> struct Tol<float> { static constexpr L rel = 4e-5L, margin = 4e-3L; };
template<> struct Tol<double> { static constexpr L rel = 2e-6L, margin = 2e-4L; }; // FastSqrt is an approximation

#define NEAR(key, got, want, scale) do { L g_ = (got), w_ = (want); CHECK(fabsl(g_ - w_) <= Tol<T>::rel * (1 + fabsl(w_) + (scale)), key, "got %.9Lg, expected %.9Lg", g_, w_); } while(0)
#define SAME(key, got, want) do { bool g_ = (got), w_ = (want); mon::ev(w_ ? "yes" : "no"); CHECK(g_ == w_, key, "answered %s", g_ ? "yes" : "no"); } while(0)

// a signed distance to a boundary: judged only if it is clear
template<class T> static bool clear(L v) { if(fabsl(v) > Tol<T>::margin) return true; mon::ev("too close to judge"); return false; }

static L coord(Rng& r, int lim = 10)
{
  switch(r.below(4))
  {
  case 0: return (L)r.range(-3, 3);
  case 1: return (L)r.range(-lim, lim);
  case 2: return (L)r.range(-lim * 4, lim * 4) / 4;
  default: return (L)r.range(-lim * 64, lim * 64) / 64;
  }
}
static L size(Rng& r) { return r.chance(1, 3) ? (L)r.range(1, 10) : (L)r.range(8, 500) / 64; }
static P point(Rng& r) { return P{ coord(r), coord(r) }; }
static P apart(Rng& r, P a) { P b; do b = point(r); while(dist(a, b) < 0.5L); return b; }

// ---- spheres and circles
template<class T, int N> static void sphere(Rng& r)
{
  T a[N], b[N], p[N];
  L dab = 0, dap = 0;
  for(int i = 0; i < N; ++i) { a[i] = (T)coord(r); b[i] = (T)coord(r); p[i] = (T)coord(r); dab += ((L)a[i] - b[i]) * ((L)a[i] - b[i]); dap += ((L)a[i] - p[i]) * ((L)a[i] - p[i]); }
  dab = sqrtl(dab); dap = sqrtl(dap);
  L ra = size(r), rb = size(r);
  if(r.chance(1, 4)) ra += dab; // so that one can hold the other
  else if(r.chance(1, 5) && dab > 0.5L) { if(r.chance(1, 2)) { ra = dab * (1 + r.below(6)) / 7; rb = dab - ra; } else ra = dab + rb; mon::ev("spheres made to touch"); }
  Vector<T, N> va(a), vb(b), vp(p);
  NSphere<T, N> A(va, (T)ra), B(vb, (T)rb);
  ra = A.r; rb = B.r;
  mon::op("sphere %d ra=%.9Lg rb=%.9Lg d=%.9Lg dp=%.9Lg", N, ra, rb, dab, dap);
  if constexpr(N != 2)
  {
    if(clear<T>(dap - ra)) { SAME("sphere:contains-point", A.ContainsPoint(vp), dap < ra); }
    if(clear<T>(dab - (ra + rb))) { SAME("sphere:collide", A.SphereCollide(B), dab < ra + rb); SAME("sphere:collide", A.SphereCollide(vb, (T)rb), dab < ra + rb); }
    if(clear<T>(dab + rb - ra)) { SAME("sphere:contains-sphere", A.ContainsSphere(B), dab + rb < ra); SAME("sphere:contains-sphere", A.ContainsSphere(vb, (T)rb), dab + rb < ra); }
  }
  else
  {
    if(clear<T>(dap - ra)) { SAME("circle:contains-point", A.ContainsPoint(vp), dap < ra); SAME("circle:contains-point", A.ContainsPoint(p[0], p[1]), dap < ra); SAME("circle:contains-point", CircleContainsPoint<T>(a[0], a[1], A.r, p[0], p[1]), dap < ra); }
    if(clear<T>(dab - (ra + rb))) { SAME("circle:collide", A.CircleCollide(vb, B.r), dab < ra + rb); SAME("circle:collide", A.CircleCollide(b[0], b[1], B.r), dab < ra + rb); SAME("circle:collide", CircleCircleCollide<T>(a[0], a[1], A.r, b[0], b[1], B.r), dab < ra + rb); }
    if(clear<T>(dab + rb - ra)) { SAME("circle:contains-circle", A.ContainsCircle(B), dab + rb < ra); SAME("circle:contains-circle", A.ContainsCircle(vb, B.r), dab + rb < ra); SAME("circle:contains-circle", CircleContainsCircle<T>(a[0], a[1], A.r, b[0], b[1], B.r), dab + rb < ra); }
    NEAR("circle:area", A.Area(), PIL * ra * ra, 0);
    NEAR("circle:circumference", A.Circumference(), TAU * ra, 0);
    if(dap > 0.1L)
    {
      T x, y;
      auto near = [&] { NEAR("circle:nearest", x, a[0] + (p[0] - (L)a[0]) * ra / dap, ra); NEAR("circle:nearest", y, a[1] + (p[1] - (L)a[1]) * ra / dap, ra); };
      A.NearestPoint(vp, x, y); near();
      A.NearestPoint(p[0], p[1], x, y); near();
      CircleNearestPoint<T>(a[0], a[1], A.r, p[0], p[1], x, y); near();
    }
    Vector<T, 2> out[2];
    bool touch = fabsl(dab - (ra + rb)) < Tol<T>::margin || fabsl(dab - fabsl(ra - rb)) < Tol<T>::margin;
    if(dab > 0.1L)
    {
      bool meet = dab < ra + rb && dab > fabsl(ra - rb);
      for(int w = 0; w < 2; ++w)
      {
        int n = w ? A.CircleIntersect(b[0], b[1], B.r, out) : CircleCircleIntersect<T>(a[0], a[1], A.r, b[0], b[1], B.r, out);
        if(!touch) CHECK(n == (meet ? 2 : 0), "circle:intersections", "two circles meet %d times", n);
        for(int i = 0; i < n; ++i)
        {
          L all = ra + rb + dab + 10, tol = Tol<T>::rel * all * all * 2; // of the squared distances
          P q{ out[i].x, out[i].y };
          L d1 = dist(q, P{ a[0], a[1] }), d2 = dist(q, P{ b[0], b[1] }), e1 = fabsl(d1 - ra), e2 = fabsl(d2 - rb);
          CHECK(e1 * (d1 + ra) <= tol && e2 * (d2 + rb) <= tol, "circle:intersection", "circles meet at (%.9Lg,%.9Lg), which is %.9Lg and %.9Lg away from them", q.x, q.y, e1, e2);
          if(touch) mon::ev("touching circles");
        }
        if(meet && !touch)
        { // both points, not one twice
          L h = (dab * dab + ra * ra - rb * rb) / (2 * dab), s = sqrtl(fmaxl(0, ra * ra - h * h));
L w2 = dist(P{ out[0].x, out[0].y }, P{ out[1].x, out[1].y }) / 2, all = ra + rb + dab + 10;
          CHECK(fabsl(w2 * w2 - s * s) <= Tol<T>::rel * all * all * 2, "circle:intersection", "the two points where the circles meet are not on both sides");
          mon::ev("circle intersections");
        }
      }
    }
    Circle<float> F(A); Circle<double> D(F); NSphere<T, 2> back; back = D;
    CHECK((float)back.x == (float)A.x && (float)back.y == (float)A.y && (float)back.r == (float)A.r, "circle:convert", "a circle converted to another type and back changed");
  }
  if constexpr(N == 3) { NEAR("sphere:volume", A.Volume(), 4 * PIL * ra * ra * ra / 3, 0); NEAR("sphere:area", A.SurfaceArea(), 4 * PIL * ra * ra, 0); }
  NEAR("sphere:diameter", A.Diameter(), 2 * ra, 0);
  mon::nontrivial();
}

// ---- lines
struct Hits { int n; L t[2]; bool sure; };
static Hits hits(P a, P b, P c, L R, int kind, L margin) // kind 0 line, 1 ray, 2 segment
{
  Hits h{ 0, { 0, 0 }, true };
  P d = b - a;
  L l = len(d), off = fabsl(cross(d, c - a)) / l, m = dot(c - a, d) / (l * l);
  if(fabsl(off - R) < margin) { h.sure = false; return h; }
  if(off > R) return h;
  L k = sqrtl(R * R - off * off) / l;
  for(int s = -1; s <= 1; s += 2)
  {
    L t = m + s * k;
    if(kind >= 1) { if(fabsl(t) * l < margin) h.sure = false; if(t < 0) continue; }
    if(kind == 2) { if(fabsl(t - 1) * l < margin) h.sure = false; if(t > 1) continue; }
    h.t[h.n++] = t;
  }
  return h;
}
template<class T> static void lines(Rng& r)
{
  P a = point(r), b = apart(r, a), p = point(r), c = point(r), e = apart(r, c);
  T X1 = (T)a.x, Y1 = (T)a.y, X2 = (T)b.x, Y2 = (T)b.y, x1 = (T)c.x, y1 = (T)c.y, x2 = (T)e.x, y2 = (T)e.y, px = (T)p.x, py = (T)p.y;
  mon::op("line (%Lg,%Lg)-(%Lg,%Lg) line (%Lg,%Lg)-(%Lg,%Lg) point (%Lg,%Lg)", a.x, a.y, b.x, b.y, c.x, c.y, e.x, e.y, p.x, p.y);
  P d = b - a;
  L l = len(d), t = dot(p - a, d) / dot(d, d), off = fabsl(cross(d, p - a)) / l;
  const L sc = 40;
  NEAR("line:project", (LinePointParametricProject<T>(X1, Y1, X2, Y2, px, py)), t, 1);
  NEAR("line:distance", (LinePointDistance<T>(X1, Y1, X2, Y2, px, py)), off, 20);
  NEAR("line:distance-sqr", (LinePointDistanceSqr<T>(X1, Y1, X2, Y2, px, py)), off * off, 20);
  L sd = segdist(a, b, p);
  NEAR("segment:distance", (LineSegmentPointDistance<T>(X1, Y1, X2, Y2, px, py)), sd, 20);
  NEAR("segment:distance-sqr", (LineSegmentPointDistanceSqr<T>(X1, Y1, X2, Y2, px, py)), sd * sd, 20);
  T ox, oy;
  LineNearestPoint<T>(X1, Y1, X2, Y2, px, py, ox, oy);
  P n = a + d * t;
  NEAR("line:nearest", ox, n.x, sc); NEAR("line:nearest", oy, n.y, sc);
  RayNearestPoint<T>(X1, Y1, X2, Y2, px, py, ox, oy);
  n = a + d * (t < 0 ? 0 : t);
  NEAR("ray:nearest", ox, n.x, sc); NEAR("ray:nearest", oy, n.y, sc);
  LineSegmentNearestPoint<T>(X1, Y1, X2, Y2, px, py, ox, oy);
  n = a + d * clampl(t, 0, 1);
  NEAR("segment:nearest", ox, n.x, sc); NEAR("segment:nearest", oy, n.y, sc);
  // two lines
  P f = e - c;
  L k = cross(d, f);
  Vector<T, 2> q((T)77, (T)77);
  if(k == 0)
  {
    SAME("line:parallel", (LineLineIntersect<T>(X1, Y1, X2, Y2, x1, y1, x2, y2, q)), false);
    SAME("segment:parallel", (LineSegmentLineSegmentIntersect<T>(X1, Y1, X2, Y2, x1, y1, x2, y2, q)), false);
    if(cross(d, c - a) != 0) SAME("segment:parallel", (LineSegmentLineSegmentCollide<T>(X1, Y1, X2, Y2, x1, y1, x2, y2)), false);
    mon::ev("parallel lines");
  }
  else
  {
    L s = cross(c - a, f) / k, u = cross(c - a, d) / k;
    P w = a + d * s;
    L amp = 1 + l * len(f) / fabsl(k); // how much the angle between them amplifies rounding
    CHECK((LineLineIntersect<T>(X1, Y1, X2, Y2, x1, y1, x2, y2, q)), "line:intersect", "two lines that are not parallel do not intersect");
    NEAR("line:intersect-at", q.x, w.x, (sc + len(w)) * amp); NEAR("line:intersect-at", q.y, w.y, (sc + len(w)) * amp);
    L m = fminl(fminl(fabsl(s), fabsl(s - 1)) * l, fminl(fabsl(u), fabsl(u - 1)) * len(f));
    if(m > Tol<T>::margin * amp)
    {
      bool hit = s > 0 && s < 1 && u > 0 && u < 1;
      q = Vector<T, 2>((T)77, (T)77);
      SAME("segment:intersect", (LineSegmentLineSegmentIntersect<T>(X1, Y1, X2, Y2, x1, y1, x2, y2, q)), hit);
      if(hit) { NEAR("segment:intersect-at", q.x, w.x, sc * amp); NEAR("segment:intersect-at", q.y, w.y, sc * amp); }
      SAME("segment:collide", (LineSegmentLineSegmentCollide<T>(X1, Y1, X2, Y2, x1, y1, x2, y2)), hit);
      SAME("segment:collide", (LineSegmentLineSegmentCollide<T>(x1, y1, x2, y2, X1, Y1, X2, Y2)), hit);
      mon::ev("line pairs");
    }
  }
  // against a horizontal and a vertical segment
  if(fabsl(d.x) > 0.4L && fabsl(f.y) > 0.4L)
  {
    L s = (c.x - a.x) / d.x, y = a.y + s * d.y, u = (y - c.y) / f.y;
    L amp = 1 + l / fabsl(d.x);
    if(fminl(fminl(fabsl(s), fabsl(s - 1)) * l, fminl(fabsl(u), fabsl(u - 1)) * fabsl(f.y)) > Tol<T>::margin * amp)
      SAME("segment:vertical", (LineSegmentLineVertCollide<T>(X1, Y1, X2, Y2, x1, y1, y2)), (s > 0 && s < 1 && u > 0 && u < 1));
  }
  if(fabsl(d.y) > 0.4L && fabsl(f.x) > 0.4L)
  {
    L s = (c.y - a.y) / d.y, x = a.x + s * d.x, u = (x - c.x) / f.x;
    L amp = 1 + l / fabsl(d.y);
    if(fminl(fminl(fabsl(s), fabsl(s - 1)) * l, fminl(fabsl(u), fabsl(u - 1)) * fabsl(f.x)) > Tol<T>::margin * amp)
      SAME("segment:horizontal", (LineSegmentLineHorzCollide<T>(X1, Y1, X2, Y2, x1, x2, y1)), (s > 0 && s < 1 && u > 0 && u < 1));
  }
  // against a circle: its outline
  L R = size(r);
  Circle<T> C((T)c.x, (T)c.y, (T)R);
  R = C.r;
  mon::op("circle r=%Lg", R);
  for(int kind = 0; kind < 3; ++kind)
  {
    Hits h = hits(a, b, c, R, kind, Tol<T>::margin * 4);
    if(!h.sure) { mon::ev("too close to judge"); continue; }
    Vector<T, 2> out[2];
    int cnt = kind == 0 ? C.LineIntersect(X1, Y1, X2, Y2, out) : kind == 1 ? C.RayIntersect(X1, Y1, X2, Y2, out) : C.LineSegmentIntersect(X1, Y1, X2, Y2, out);
    bool hit = kind == 0 ? C.LineCollide(X1, Y1, X2, Y2) : kind == 1 ? C.RayCollide(X1, Y1, X2, Y2) : C.LineSegmentCollide(X1, Y1, X2, Y2);
    static const char* K[3] = { "circle:line", "circle:ray", "circle:segment" };
    CHECK(cnt == h.n, K[kind], "crosses the circle %d times, expected %d", cnt, h.n);
    SAME(K[kind], hit, h.n > 0);
    for(int i = 0; i < cnt; ++i)
    {
      P w = a + d * h.t[i];
      L tol = Tol<T>::rel * 40 + sqrtl(Tol<T>::rel) * 0.5L;
      CHECK(dist(P{ out[i].x, out[i].y }, w) <= tol, K[kind], "crosses the circle at (%.9g,%.9g), expected (%.9Lg,%.9Lg)", (double)out[i].x, (double)out[i].y, w.x, w.y);
      CHECK(fabsl(dist(P{ out[i].x, out[i].y }, c) - R) <= Tol<T>::rel * 200, K[kind], "the point is not on the circle");
    }
    mon::ev("circle and line pairs");
  }
  // the line itself
  Line<T> W(X1, Y1, X2, Y2), V2(Vector<T, 2>(X1, Y1), Vector<T, 2>(X2, Y2)), V3(Vector<T, 2>(X1, Y1), X2, Y2);
  CHECK(!memcmp(W.v, V2.v, sizeof W.v) && !memcmp(W.v, V3.v, sizeof W.v), "line:construct", "the constructors disagree");
  NEAR("line:length", W.Length(), l, 0);
  L s = coord(r, 3);
  Vector<T, 2> pp = W.ParametricPoint((T)s);
  NEAR("line:parametric", pp.x, a.x + d.x * s, sc); NEAR("line:parametric", pp.y, a.y + d.y * s, sc);
  Line<T> rot = r.chance(1, 2) ? W.Rotate((T)s, px, py) : W.Rotate((T)s, Vector<T, 2>(px, py));
  L cs = cosl((T)s), sn = sinl((T)s);
  NEAR("line:rotate", rot.x1, p.x + (a.x - p.x) * cs - (a.y - p.y) * sn, sc); NEAR("line:rotate", rot.y1, p.y + (a.y - p.y) * cs + (a.x - p.x) * sn, sc);
  NEAR("line:rotate", rot.x2, p.x + (b.x - p.x) * cs - (b.y - p.y) * sn, sc); NEAR("line:rotate", rot.y2, p.y + (b.y - p.y) * cs + (b.x - p.x) * sn, sc);
  Line<float> wf(W); Line<double> wd; wd = wf;
  CHECK(wd.x1 == a.x && wd.y1 == a.y && wd.x2 == b.x && wd.y2 == b.y, "line:convert", "converting a line changed it");
  Line3d<T> G(X1, Y1, x1, X2, Y2, x2), G2(Vector<T, 3>(X1, Y1, x1), X2, Y2, x2);
  CHECK(!memcmp(G.v, G2.v, sizeof G.v), "line3d:construct", "the constructors disagree");
  NEAR("line3d:length", G.Length(), sqrtl(l * l + f.x * f.x), 0);
  Vector<T, 3> g = G.ParametricPoint((T)s);
  NEAR("line3d:parametric", g.x, a.x + d.x * s, sc); NEAR("line3d:parametric", g.y, a.y + d.y * s, sc); NEAR("line3d:parametric", g.z, c.x + f.x * s, sc);
  Line3d<double> gd; gd = G;
  CHECK(gd.x1 == a.x && gd.z2 == e.x, "line3d:convert", "converting a line changed it");
  mon::nontrivial();
}

// ---- rectangles
struct Q { L l, t, r, b; };
static Q box(Rng& r) { P a = point(r), b = point(r); return Q{ fminl(a.x, b.x), fminl(a.y, b.y), fmaxl(a.x, b.x), fmaxl(a.y, b.y) }; }
static L boxdist(Q q, P p) { P n{ clampl(p.x, q.l, q.r), clampl(p.y, q.t, q.b) }; return dist(n, p); }
// signed: > 0 outside by that much, < 0 the segment goes that deep inside
static L boxseg(Q q, P a, P b)
{ // clip the segment; how much of the box must be taken away (or added) for it to just touch
  L lo = -40, hi = 80; // inflate by v: touches iff v >= answer
  for(int i = 0; i < 60; ++i)
  {
    L v = (lo + hi) / 2;
    Q k{ q.l - v, q.t - v, q.r + v, q.b + v };
    bool in = k.l <= k.r && k.t <= k.b;
    L t0 = 0, t1 = 1;
    auto clip = [&](L p0, L dp, L mn, L mx) { if(dp == 0) { if(p0 < mn || p0 > mx) t0 = 2; } else { L u = (mn - p0) / dp, w = (mx - p0) / dp; if(u > w) std::swap(u, w); t0 = fmaxl(t0, u); t1 = fminl(t1, w); } };
    if(in) { clip(a.x, b.x - a.x, k.l, k.r); clip(a.y, b.y - a.y, k.t, k.b); in = t0 <= t1; }
    if(in) hi = v; else lo = v;
  }
  return hi;
}
template<class T> static Rect<T> mk(Q q) { return Rect<T>((T)q.l, (T)q.t, (T)q.r, (T)q.b); }
template<class T> static bool is(const Rect<T>& a, L l, L t, L r, L b) { return a.left == (T)l && a.top == (T)t && a.right == (T)r && a.bottom == (T)b; }
template<class T> static void rects(Rng& r)
{
  bool whole = std::is_integral<T>::value || r.chance(1, 2); // whole numbers meet exactly
  auto rd = [&](Q q) { return whole ? Q{ roundl(q.l), roundl(q.t), roundl(q.r), roundl(q.b) } : q; };
  Q q = rd(box(r)), k = rd(box(r));
  P p = point(r), a = point(r), b = point(r);
  if(whole) { p = P{ roundl(p.x), roundl(p.y) }; a = P{ roundl(a.x), roundl(a.y) }; b = P{ roundl(b.x), roundl(b.y) }; }
  if(r.chance(1, 4)) b.y = a.y;
  else if(r.chance(1, 3)) b.x = a.x;
  Rect<T> A = mk<T>(q), B = mk<T>(k);
  mon::op("rect (%Lg,%Lg,%Lg,%Lg) rect (%Lg,%Lg,%Lg,%Lg) point (%Lg,%Lg) line (%Lg,%Lg)-(%Lg,%Lg)", q.l, q.t, q.r, q.b, k.l, k.t, k.r, k.b, p.x, p.y, a.x, a.y, b.x, b.y);
  T px = (T)p.x, py = (T)p.y;
  SAME("rect:contains-point", A.ContainsPoint(px, py), (p.x >= q.l && p.x < q.r && p.y >= q.t && p.y < q.b));
  bool in = k.l >= q.l && k.t >= q.t && k.r <= q.r && k.b <= q.b, hit = k.l <= q.r && k.r >= q.l && k.t <= q.b && k.b >= q.t;
  SAME("rect:contains-rect", A.ContainsRect(B), in); SAME("rect:contains-rect", A.ContainsRect(B.left, B.top, B.right, B.bottom), in);
  SAME("rect:collide", A.RectCollide(B), hit); SAME("rect:collide", A.RectCollide(B.left, B.top, B.right, B.bottom), hit);
  Rect<T> I = A.Intersection(B), U = A.Union(B), E = A.ExpandTo(Vector<T, 2>(px, py));
  if(hit) CHECK(is(I, fmaxl(q.l, k.l), fmaxl(q.t, k.t), fminl(q.r, k.r), fminl(q.b, k.b)), "rect:intersection", "the intersection of two rectangles is wrong");
  else CHECK(I.Area() == 0 && I.left == I.right && I.top == I.bottom, "rect:intersection", "rectangles that do not meet have an intersection");
  CHECK(is(U, fminl(q.l, k.l), fminl(q.t, k.t), fmaxl(q.r, k.r), fmaxl(q.b, k.b)), "rect:union", "the union of two rectangles is wrong");
  CHECK(is(E, fminl(q.l, p.x), fminl(q.t, p.y), fmaxl(q.r, p.x), fmaxl(q.b, p.y)), "rect:expand", "the rectangle expanded to a point is wrong");
  Rect<T> E2(A); RectExpandTo(E2, Vector<T, 2>(px, py));
  CHECK(E2 == E && !(E2 != E), "rect:expand", "RectExpandTo differs from ExpandTo");
  CHECK(A.IsCanonical(), "rect:canonical", "a rectangle is not canonical");
  Rect<T> F = r.chance(1, 2) ? Rect<T>(A.right, A.top, A.left, A.bottom) : Rect<T>(A.left, A.bottom, A.right, A.top);
  CHECK(F.Canonical() == A && F.IsCanonical() == (F == A), "rect:canonical", "the canonical form of a flipped rectangle is wrong");
  CHECK(A.Area() == (T)((q.r - q.l) * (q.b - q.t)) || !whole, "rect:area", "area");
  Vector<T, 2> dim = A.Dim();
  CHECK(dim.x == A.right - A.left && dim.y == A.bottom - A.top, "rect:dim", "dimensions");
  CHECK((Rect<T>(A.left, A.top, dim)) == A && (Rect<T>(Vector<T, 2>(A.left, A.top), dim)) == A, "rect:construct", "built from a corner and its dimensions the rectangle differs");
  { T arr[4] = { A.left, A.top, A.right, A.bottom }; std::array<T, 4> sa = { A.left, A.top, A.right, A.bottom }; CHECK(Rect<T>(arr) == A && Rect<T>(sa) == A, "rect:construct", "built from an array the rectangle differs"); Rect<T> pt(Vector<T, 2>(px, py)); CHECK(is(pt, p.x, p.y, p.x, p.y), "rect:construct", "a rectangle of a point"); }
  T amt = (T)r.range(-3, 3);
  CHECK(is(A.Inflate(amt), q.l - amt, q.t - amt, q.r + amt, q.b + amt), "rect:inflate", "inflating");
  CHECK(is(A.Abs(), fabsl(q.l), fabsl(q.t), fabsl(q.r), fabsl(q.b)), "rect:abs", "the absolute values of (%Lg,%Lg,%Lg,%Lg)", q.l, q.t, q.r, q.b);
  CHECK(is(-A, -q.l, -q.t, -q.r, -q.b), "rect:negate", "negating");
  // arithmetic
#define ROP(sym) do { \
    Rect<T> t = A sym B, t2(A); t2 sym##= B; CHECK(t.left == (T)(A.left sym B.left) && t.top == (T)(A.top sym B.top) && t.right == (T)(A.right sym B.right) && t.bottom == (T)(A.bottom sym B.bottom) && t == t2, "rect:arithmetic", "rect " #sym " rect"); \
    Vector<T, 2> v(px, py); t = A sym v; t2 = A; t2 sym##= v; CHECK(t.left == (T)(A.left sym px) && t.top == (T)(A.top sym py) && t.right == (T)(A.right sym px) && t.bottom == (T)(A.bottom sym py) && t == t2, "rect:arithmetic", "rect " #sym " vector"); \
    t = A sym px; t2 = A; t2 sym##= px; CHECK(t.left == (T)(A.left sym px) && t.top == (T)(A.top sym px) && t.right == (T)(A.right sym px) && t.bottom == (T)(A.bottom sym px) && t == t2, "rect:arithmetic", "rect " #sym " scalar"); } while(0)
  ROP(+); ROP(-); ROP(*);
  if(p.x != 0 && p.y != 0 && B.left != 0 && B.top != 0 && B.right != 0 && B.bottom != 0) ROP(/);
  { T m[4] = { A.left, A.top, A.right, A.bottom }, n[4] = { B.left, B.top, B.right, B.bottom }; int c = 0; for(int i = 0; i < 4 && !c; ++i) c = m[i] < n[i] ? -1 : m[i] > n[i];
    CHECK((A < B) == (c < 0) && (A > B) == (c > 0) && (A <= B) == (c <= 0) && (A >= B) == (c >= 0) && (A == B) == (c == 0) && (A != B) == (c != 0), "rect:order", "rectangles compare wrongly"); CHECK((A == px) == (m[0] == px && m[1] == px && m[2] == px && m[3] == px) && (A != px) == !(A == px), "rect:order", "comparing with a scalar"); }
  Rect<double> D(A); Rect<T> back; back = D;
  CHECK(back == A, "rect:convert", "a rectangle converted to another type and back changed");
  if constexpr(std::is_same<T, float>::value)
  { // at every alignment
    char buf[64];
    size_t o = r.below(8) * 4;
    Rect<T>* u = (Rect<T>*)(buf + o);
    new(u) Rect<T>(A);
    sseVecT<float> v = u->ToSSE();
    Rect<T> z(v), z2; z2 = v;
    *u = v;
    CHECK(z == A && z2 == A && *u == A, "rect:sse", "through a vector register the rectangle changed");
  }
  if constexpr(!std::is_integral<T>::value)
  {
    L R = size(r);
    R = (T)R;
    Vector<T, 2> c = A.Center();
    NEAR("rect:center", c.x, (q.l + q.r) / 2, 0); NEAR("rect:center", c.y, (q.t + q.b) / 2, 0);
    Circle<T> bc = A.BoundingCircle();
    NEAR("rect:bounding-circle", bc.r, dist(P{ q.l, q.t }, P{ q.r, q.b }) / 2, 0); NEAR("rect:bounding-circle", bc.x, (q.l + q.r) / 2, 0); NEAR("rect:bounding-circle", bc.y, (q.t + q.b) / 2, 0);
    Rect<T> pr = A.Project((T)3);
    NEAR("rect:project", pr.left, q.l / 4, 0); NEAR("rect:project", pr.bottom, q.b / 4, 0);
    L bd = boxdist(q, p);
    if(clear<T>(bd - R)) { SAME("rect:circle", A.CircleCollide(px, py, (T)R), bd < R); SAME("rect:circle", A.CircleCollide(Vector<T, 2>(px, py), (T)R), bd < R); Circle<T> C(px, py, (T)R); SAME("rect:circle", A.CircleCollide(C), bd < R); SAME("rect:circle", C.RectCollide(A.left, A.top, A.right, A.bottom), bd < R); }
    L s = boxseg(q, a, b);
    if(fabsl(s) > Tol<T>::margin * 4)
    {
      SAME("rect:line", A.LineCollide((T)a.x, (T)a.y, (T)b.x, (T)b.y), s < 0);
      SAME("rect:line", A.LineCollide(Vector<T, 2>((T)a.x, (T)a.y), Vector<T, 2>((T)b.x, (T)b.y)), s < 0);
      SAME("rect:line", A.LineCollide(Line<T>((T)a.x, (T)a.y, (T)b.x, (T)b.y)), s < 0);
      mon::ev(a.y == b.y ? "horizontal lines" : a.x == b.x ? "vertical lines" : "sloping lines");
    }
    else if(s == s && (a.y == b.y || a.x == b.x) && whole) mon::ev("lines along an edge");
  }
  mon::nontrivial();
}

// ---- ellipses
static P ellnear(L A, L B, P p) // the nearest point of the filled ellipse at the origin
{
  if(p.x * p.x / (A * A) + p.y * p.y / (B * B) <= 1) return p;
  auto d = [&](L t) { return dist(P{ A * cosl(t), B * sinl(t) }, p); };
  L best = 0, bd = 1e9L;
  for(int i = 0; i < 256; ++i) { L t = TAU * i / 256, v = d(t); if(v < bd) { bd = v; best = t; } }
  L lo = best - TAU / 256, hi = best + TAU / 256;
  for(int i = 0; i < 80; ++i) { L m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3; if(d(m1) < d(m2)) hi = m2; else lo = m1; }
  return P{ A * cosl(lo), B * sinl(lo) };
}
template<class T> static void ellipses(Rng& r)
{
  P c = point(r), p = point(r);
  L A = size(r), B = size(r), R = size(r);
  if(A > B * 4) A = B * 4;
  if(B > A * 4) B = A * 4;
  Q q = box(r);
  Ellipse<T> E((T)c.x, (T)c.y, (T)A, (T)B);
  A = E.a; B = E.b; R = (T)R;
  mon::op("ellipse (%Lg,%Lg) %Lg x %Lg point (%Lg,%Lg) rect (%Lg,%Lg,%Lg,%Lg) R %Lg", c.x, c.y, A, B, p.x, p.y, q.l, q.t, q.r, q.b, R);
  NEAR("ellipse:area", E.Area(), PIL * A * B, 0);
  L v = (p.x - c.x) * (p.x - c.x) / (A * A) + (p.y - c.y) * (p.y - c.y) / (B * B);
  if(clear<T>(v - 1)) SAME("ellipse:contains-point", E.ContainsPoint((T)p.x, (T)p.y), v < 1);
  P n = ellnear(A, B, p - c);
  L dn = dist(n, p - c);
  T ox, oy;
  E.NearestPoint((T)p.x, (T)p.y, ox, oy);
  if(fabsl(v - 1) > Tol<T>::margin)
  {
    P g = P{ ox, oy } - c;
    L gv = g.x * g.x / (A * A) + g.y * g.y / (B * B);
    if(v < 1) CHECK(dist(g, p - c) < Tol<T>::rel * 40, "ellipse:nearest", "a point inside the ellipse is not its own nearest point");
    else
    {
      CHECK(fabsl(gv - 1) < Tol<T>::rel * 100 * (1 + len(c) / fminl(A, B)), "ellipse:nearest", "the nearest point is not on the ellipse");
      L gd = dist(g, p - c);
      CHECK(gd <= dn + 0.02L * (A + B) , "ellipse:nearest", "the nearest point is %.6Lg away and the real one %.6Lg", gd, dn);
      mon::ev("nearest points of ellipses");
    }
    if(fabsl(dn - R) > 0.03L * (A + B)) { SAME("ellipse:circle", E.CircleCollide((T)p.x, (T)p.y, (T)R), dn < R); Circle<T> K((T)p.x, (T)p.y, (T)R); SAME("ellipse:circle", E.CircleCollide(K), dn < R); SAME("ellipse:circle", K.EllipseCollide((T)c.x, (T)c.y, (T)A, (T)B), dn < R); }
  }
  // the rectangle in the space in which the ellipse is a circle of radius 1
  L bd = boxdist(Q{ (q.l - c.x) / A, (q.t - c.y) / B, (q.r - c.x) / A, (q.b - c.y) / B }, P{ 0, 0 });
  if(clear<T>((bd - 1) / 4)) { SAME("ellipse:rect", E.RectCollide((T)q.l, (T)q.t, (T)q.r, (T)q.b), bd < 1); SAME("ellipse:rect", E.RectCollide(mk<T>(q)), bd < 1); }
  Ellipse<T> F(Circle<T>((T)c.x, (T)c.y, (T)R));
  CHECK(F.x == (T)c.x && F.y == (T)c.y && F.a == (T)R && F.b == (T)R, "ellipse:from-circle", "an ellipse made from a circle differs from it");
  Ellipse<double> D(E); Ellipse<T> G(D), H(Vector<T, 2>((T)c.x, (T)c.y), (T)A, (T)B), K(Vector<T, 2>((T)c.x, (T)c.y), Vector<T, 2>((T)A, (T)B));
  CHECK(!memcmp(G.v, E.v, sizeof E.v) && !memcmp(H.v, E.v, sizeof E.v) && !memcmp(K.v, E.v, sizeof E.v), "ellipse:convert", "converting or building an ellipse changed it");
  mon::nontrivial();
}

// ---- sectors of a ring: points (x + d cos t, y - d sin t) with inner <= d <= outer and t in [min, min + range]
struct Sec { P c; L in, out, min, range; };
static P at(const Sec& s, L d, L t) { return P{ s.c.x + d * cosl(t), s.c.y - d * sinl(t) }; }
static bool inside(const Sec& s, P p, L tol)
{
  P q = p - s.c;
  L d = len(q);
  if(d > s.out + tol || d < s.in - tol) return false;
  if(s.range >= TAU || d <= tol) return true;
  L t = atan2l(-q.y, q.x) - s.min;
  t -= floorl(t / TAU) * TAU;
  L at = tol / d;
  return t <= s.range + at || t >= TAU - at;
}
static Sec grow(Sec s, L e)
{ // bigger (or smaller) by e in every direction; a full ring stays one
  s.in = fmaxl(0, s.in - e); s.out += e;
  if(s.range < TAU) { L a = e / fmaxl(fminl(s.out, 1), 0.1L) * 4; s.min -= a; s.range += 2 * a; if(s.range >= TAU) s.range = TAU; }
  return s;
}
typedef std::vector<P> Pts;
static void circcirc(P a, L r, P b, L R, Pts& o)
{
  P d = b - a;
  L l = len(d);
  if(l == 0 || l > r + R || l < fabsl(r - R)) return;
  L h = (l * l + r * r - R * R) / (2 * l), s = sqrtl(fmaxl(0, r * r - h * h));
  P m = a + d * (h / l), n{ -d.y / l * s, d.x / l * s };
  o.push_back(m + n); o.push_back(m - n);
}
static void segcirc(P a, P b, P c, L R, Pts& o)
{
  P d = b - a;
  L l = len(d);
  if(l == 0) return;
  L m = dot(c - a, d) / (l * l), off = fabsl(cross(d, c - a)) / l;
  if(off > R) return;
  L k = sqrtl(fmaxl(0, R * R - off * off)) / l;
  for(int s = -1; s <= 1; s += 2) { L t = m + s * k; if(t >= -1e-12L && t <= 1 + 1e-12L) o.push_back(a + d * t); }
}
static void segseg(P a, P b, P c, P e, Pts& o)
{
  P d = b - a, f = e - c;
  L k = cross(d, f);
  if(k == 0) return;
  L s = cross(c - a, f) / k, u = cross(c - a, d) / k;
  if(s >= -1e-12L && s <= 1 + 1e-12L && u >= -1e-12L && u <= 1 + 1e-12L) o.push_back(a + d * s);
}
static bool secline(const Sec& s, P a, P b)
{
  if(inside(s, a, 1e-12L) || inside(s, b, 1e-12L)) return true;
  Pts o;
  segcirc(a, b, s.c, s.out, o);
  if(s.in > 0) segcirc(a, b, s.c, s.in, o);
  if(s.range < TAU) for(int i = 0; i < 2; ++i) { L t = s.min + i * s.range; segseg(a, b, at(s, s.in, t), at(s, s.out, t), o); }
  for(P& p : o) if(inside(s, p, 1e-9L)) return true;
  return false;
}
static bool secsec(const Sec& a, const Sec& b)
{
  Pts o;
  const Sec* w[2] = { &a, &b };
  for(int i = 0; i < 2; ++i)
    for(int k = 0; k < 4; ++k) o.push_back(at(*w[i], k & 1 ? w[i]->in : w[i]->out, w[i]->min + (k >> 1) * w[i]->range));
  for(int i = 0; i < 4; ++i) circcirc(a.c, i & 1 ? a.in : a.out, b.c, i & 2 ? b.in : b.out, o);
  for(int i = 0; i < 2; ++i)
    for(int k = 0; k < 2; ++k)
    { // the straight edge k of one
      L t = w[i]->min + k * w[i]->range;
      P p = at(*w[i], w[i]->in, t), q = at(*w[i], w[i]->out, t);
      segcirc(p, q, w[!i]->c, w[!i]->out, o);
      if(w[!i]->in > 0) segcirc(p, q, w[!i]->c, w[!i]->in, o);
      if(!i) for(int j = 0; j < 2; ++j) { L u = b.min + j * b.range; segseg(p, q, at(b, b.in, u), at(b, b.out, u), o); }
    }
  for(P& p : o) if(inside(a, p, 1e-9L) && inside(b, p, 1e-9L)) return true;
  return false;
}
static L secdist(const Sec& s, P p) // distance to the filled sector
{
  P q = p - s.c;
  L d = len(q), t = atan2l(-q.y, q.x) - s.min;
  t -= floorl(t / TAU) * TAU;
  if(s.range >= TAU || t <= s.range) return d > s.out ? d - s.out : d < s.in ? s.in - d : 0;
  L m = 1e9L;
  for(int i = 0; i < 2; ++i) { L u = s.min + i * s.range; m = fminl(m, segdist(at(s, s.in, u), at(s, s.out, u), p)); }
  return m;
}
static Sec mksec(Rng& r)
{
  Sec s{ point(r), r.chance(1, 3) ? 0 : (L)r.range(1, 320) / 64, 0, (L)r.range(0, 6283) / 1000, r.chance(1, 5) ? TAU : (L)r.range(100, 6200) / 1000 };
  s.out = s.in + (L)r.range(16, 400) / 64;
  return s;
}
template<class T> static CircleSector<T> mk(const Sec& s) { return CircleSector<T>((T)s.c.x, (T)s.c.y, (T)s.in, (T)s.out, (T)s.min, s.range >= TAU ? (T)PI_DOUBLE : (T)s.range); }
template<class T> static void sectors(Rng& r)
{
  const L e = Tol<T>::margin;
  Sec s = mksec(r), k = mksec(r);
  if(r.chance(1, 4)) k.c = s.c;
  else if(r.chance(1, 3)) k.c = s.c + P{ (L)r.range(-64, 64) / 64, (L)r.range(-64, 64) / 64 };
  CircleSector<T> S = mk<T>(s), K = mk<T>(k);
  P p = r.chance(1, 2) ? point(r) : s.c + P{ (L)r.range(-500, 500) / 64, (L)r.range(-500, 500) / 64 }, a = r.chance(1, 2) ? point(r) : s.c + P{ (L)r.range(-500, 500) / 64, (L)r.range(-500, 500) / 64 }, b = apart(r, a);
  L R = size(r);
  mon::op("sector (%Lg,%Lg) %Lg..%Lg from %Lg by %Lg; sector (%Lg,%Lg) %Lg..%Lg from %Lg by %Lg", s.c.x, s.c.y, s.in, s.out, s.min, s.range, k.c.x, k.c.y, k.in, k.out, k.min, k.range);
  mon::op("point (%Lg,%Lg) R %Lg segment (%Lg,%Lg)-(%Lg,%Lg)", p.x, p.y, R, a.x, a.y, b.x, b.y);
  NEAR("sector:area", S.Area(), (s.out * s.out - s.in * s.in) * s.range / 2, 20);
  NEAR("sector:arc", S.ArcLengthOuter(), s.out * s.range, 0); NEAR("sector:arc", S.ArcLengthInner(), s.in * s.range, 0);
  bool i0 = inside(grow(s, -e), p, 0), i1 = inside(grow(s, e), p, 0);
  if(i0 == i1) { SAME("sector:contains-point", S.ContainsPoint((T)p.x, (T)p.y), i0); SAME("sector:contains-point", (CircleSectorContainsPoint<T>(S.x, S.y, S.inner, S.outer, S.min, S.range, (T)p.x, (T)p.y)), i0); }
  i0 = secline(grow(s, -e), a, b); i1 = secline(grow(s, e), a, b);
  if(i0 == i1) { SAME("sector:line", S.IntersectLine((T)a.x, (T)a.y, (T)b.x, (T)b.y), i0); SAME("sector:line", S.IntersectLine((T)b.x, (T)b.y, (T)a.x, (T)a.y), i0); }
  else mon::ev("too close to judge");
  L d = secdist(s, p);
  if(fabsl(d - R) > e * 4) SAME("sector:circle", S.CircleCollide((T)p.x, (T)p.y, (T)R), d < R);
  // a polygon: its outline
  {
    Pts v; v.push_back(a); v.push_back(b);
    for(int i = (int)r.below(4); i > 0; --i) v.push_back(point(r));
    std::vector<Vector<T, 2>> tv;
    for(P& q : v) tv.push_back(Vector<T, 2>((T)q.x, (T)q.y));
    bool o[2] = { false, false };
    for(int w = 0; w < 2; ++w) for(size_t i = 0; i < v.size(); ++i) if(secline(grow(s, w ? e : -e), v[i], v[(i + 1) % v.size()])) o[w] = true;
    if(o[0] == o[1]) { SAME("sector:polygon", S.IntersectPolygon(tv.data(), tv.size()), o[0]); mon::ev("sectors and polygons"); }
    if(i0 == i1 && inside(s, p, 0) == inside(grow(s, e), p, 0) && inside(s, p, 0) == inside(grow(s, -e), p, 0)) { Vector<T, 2> one((T)p.x, (T)p.y); SAME("sector:polygon", S.IntersectPolygon(&one, 1), inside(s, p, 0)); SAME("sector:polygon", S.IntersectPolygon(&one, 0), false); }
  }
  // two sectors
  bool c0, c1;
  if(s.c.x == k.c.x && s.c.y == k.c.y)
  { // same centre: the radii and the angles must overlap
    auto overlap = [&](L g) {
      L u = fminl(s.out, k.out) - fmaxl(s.in, k.in) + g;
      if(u < 0) return false;
      if(s.range >= TAU || k.range >= TAU) return true;
      L w = (s.min + s.range / 2) - (k.min + k.range / 2);
      w -= roundl(w / TAU) * TAU;
      return fabsl(w) <= (s.range + k.range) / 2 + g;
    };
    c0 = overlap(-e * 8); c1 = overlap(e * 8) || (s.in == 0 && k.in == 0); // then they share their centre at least
    if(c0 == c1) mon::ev("sectors with the same centre");
  }
  else { c0 = secsec(grow(s, -e), grow(k, -e)); c1 = secsec(grow(s, e), grow(k, e)); }
  if(c0 == c1)
  {
    SAME("sector:sector", (S.CircleSectorCollide(K.x, K.y, K.inner, K.outer, K.min, K.range)), c0);
    SAME("sector:sector", (K.CircleSectorCollide(S.x, S.y, S.inner, S.outer, S.min, S.range)), c0);
    mon::ev("pairs of sectors");
  }
  else mon::ev("too close to judge");
  CircleSector<double> D(S); CircleSector<T> B(D);
  CHECK(!memcmp(B.v, S.v, sizeof S.v), "sector:convert", "converting a sector changed it");
  mon::nontrivial();
}

// ---- triangles and polygons that do not cross themselves
typedef std::vector<std::pair<int, int>> Ip;
static long crossi(std::pair<int, int> a, std::pair<int, int> b, std::pair<int, int> c) { return (long)(b.first - a.first) * (c.second - a.second) - (long)(b.second - a.second) * (c.first - a.first); }
static Ip hull(Ip p)
{
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  Ip h(p.size() * 2 + 1);
  size_t k = 0;
  for(size_t i = 0; i < p.size(); ++i) { while(k >= 2 && crossi(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
  for(size_t i = p.size() - 1, t = k + 1; i > 0; --i) { while(k >= t && crossi(h[k - 2], h[k - 1], p[i - 1]) <= 0) --k; h[k++] = p[i - 1]; }
  h.resize(k > 1 ? k - 1 : k);
  return h;
}
static Ip star(Rng& r) // star shaped around a point that is not a vertex: sorted by angle, no two in the same direction
{
  Ip v;
  int cx = (int)r.range(-3, 3), cy = (int)r.range(-3, 3);
  std::vector<std::pair<double, std::pair<int, int>>> a;
  for(int i = (int)r.range(4, 12); i > 0; --i) { int x = (int)r.range(-9, 9), y = (int)r.range(-9, 9); if(x == cx && y == cy) continue; a.push_back({ atan2((double)(y - cy), (double)(x - cx)), { x, y } }); }
  std::sort(a.begin(), a.end());
  for(auto& e : a) if(v.empty() || atan2((double)(v.back().second - cy), (double)(v.back().first - cx)) < e.first - 1e-6) v.push_back(e.second);
  if(v.size() < 3) return Ip();
  for(size_t i = 0; i < v.size(); ++i)
  { // the centre is strictly to the left of every edge, so it is simple
    if(crossi(v[i], v[(i + 1) % v.size()], { cx, cy }) <= 0) return Ip();
  }
  return v;
}
template<class T> static void polygons(Rng& r)
{
  Ip v;
  bool cv = r.chance(1, 2);
  while(v.size() < 3)
  {
    if(cv) { Ip p; for(int i = (int)r.range(3, 10); i > 0; --i) p.push_back({ (int)r.range(-9, 9), (int)r.range(-9, 9) }); v = hull(p); }
    else v = star(r);
  }
  if(r.chance(1, 4))
  { // a vertex in the middle of an edge
    size_t i = r.below(v.size()), j = (i + 1) % v.size();
    int sx = v[i].first + v[j].first, sy = v[i].second + v[j].second;
    if(!(sx & 1) && !(sy & 1)) { v.insert(v.begin() + i + 1, { sx / 2, sy / 2 }); mon::ev("vertices on an edge"); }
  }
  if(r.chance(1, 2)) std::reverse(v.begin(), v.end());
  std::rotate(v.begin(), v.begin() + r.below(v.size()), v.end());
  std::vector<Vector<T, 2>> tv;
  char txt[300]; int tl = 0;
  for(auto& e : v) { tv.push_back(Vector<T, 2>((T)e.first, (T)e.second)); if(tl < 260) tl += snprintf(txt + tl, sizeof txt - tl, " (%d,%d)", e.first, e.second); }
  mon::op("polygon%s", txt);
  size_t n = v.size();
  long area2 = 0;
  L cx = 0, cy = 0;
  bool pos = false, neg = false;
  int l = 99, t = 99, rr = -99, bb = -99;
  for(size_t i = 0; i < n; ++i)
  {
    area2 += (long)v[i].first * v[(i + 1) % n].second - (long)v[(i + 1) % n].first * v[i].second;
    long c = crossi(v[i], v[(i + 1) % n], v[(i + 2) % n]);
    if(c > 0) pos = true;
    if(c < 0) neg = true;
    l = std::min(l, v[i].first); rr = std::max(rr, v[i].first); t = std::min(t, v[i].second); bb = std::max(bb, v[i].second);
  }
  for(size_t i = 1; i + 1 < n; ++i)
  { // triangles of a fan, with their sign
    L w = crossi(v[0], v[i], v[i + 1]);
    cx += w * (v[0].first + v[i].first + v[i + 1].first) / 3.0L; cy += w * (v[0].second + v[i].second + v[i + 1].second) / 3.0L;
  }
  cx /= area2; cy /= area2;
  bool convex = !(pos && neg);
  Polygon<T> A(tv.data(), n);
  CHECK(A.GetCount() == n && !memcmp(A.GetVertices(), tv.data(), n * sizeof(Vector<T, 2>)) && (size_t)(A.end() - A.begin()) == n, "polygon:vertices", "the vertices of the polygon are not those it was given");
  CHECK(A.Area() == (T)area2 / 2, "polygon:area", "the area is %g, expected %g", (double)A.Area(), (double)area2 / 2);
  auto cen = A.Centroid();
  L amp = 2000.0L * n / fabsl((L)area2);
  NEAR("polygon:centroid", cen.x, cx, amp); NEAR("polygon:centroid", cen.y, cy, amp);
  SAME("polygon:convex", A.IsConvex(), convex);
  CHECK(is(A.AABB(), l, t, rr, bb), "polygon:bounds", "the bounding box is wrong");
  for(int i = 0; i < 12; ++i)
  {
    P p = i < 6 ? P{ (L)r.range(-40, 40) / 4, (L)r.range(-40, 40) / 4 } : P{ (L)r.range(-10, 10), (L)r.range(-10, 10) }; // whole numbers line up with the vertices
    L d = 1e9L;
    bool in = false;
    for(size_t a = 0, b = n - 1; a < n; b = a++)
    {
      P u{ (L)v[a].first, (L)v[a].second }, w{ (L)v[b].first, (L)v[b].second };
      d = fminl(d, segdist(u, w, p));
      if((u.y > p.y) != (w.y > p.y)) { L k = cross(w - u, p - u); if((w.y > u.y) == (k > 0)) in = !in; }
    }
    mon::op("point (%Lg,%Lg)", p.x, p.y);
    Vector<T, 2> tp((T)p.x, (T)p.y);
    if(d > Tol<T>::margin) { SAME("polygon:contains", A.ContainsPoint(tp), in); if(convex) SAME("polygon:convex-contains", A.ConvexContainsPoint(tp), in); if(convex && in) mon::ev("points in convex polygons"); }
    else if(convex) SAME("polygon:convex-boundary", A.ConvexContainsPoint(tp), true);
    if(n == 3)
    {
      Triangle<T> R;
      for(int k = 0; k < 3; ++k) R.v[k] = tv[k];
      if(d > Tol<T>::margin) SAME("triangle:contains", R.ContainsPoint((T)p.x, (T)p.y), in);
      CHECK(R.Area() == (T)area2 / 2, "triangle:area", "area");
      Triangle<double> D(R);
      CHECK(D.v[2].x == R.v[2].x && D.v[0].y == R.v[0].y, "triangle:convert", "converting a triangle changed it");
      mon::ev("triangles");
    }
  }
  // copies
  Polygon<T> B(A), C;
  C = B;
  Polygon<float> F(A); Polygon<double> G; G = F;
  Polygon<T> H(std::move(B));
  bool same = C.GetCount() == n && F.GetCount() == n && G.GetCount() == n && H.GetCount() == n;
  for(size_t i = 0; same && i < n; ++i) same = C[i].x == v[i].first && C[i].y == v[i].second && F[i].x == v[i].first && G[i].y == v[i].second && H[i].x == v[i].first && G[i].x == v[i].first && F[i].y == v[i].second;
  CHECK(same, "polygon:copy", "a copy or conversion of the polygon differs from it");
  C.CenterPolygon();
  auto z = C.Centroid();
  NEAR("polygon:center", z.x, 0, amp); NEAR("polygon:center", z.y, 0, amp);
  for(size_t i = 0; i < n; ++i) NEAR("polygon:center", C[i].x - C[0].x, v[i].first - v[0].first, 10);
  C.SetVertices(tv.data(), 3);
  CHECK(C.GetCount() == 3 && C[2].x == v[2].first, "polygon:set", "setting the vertices");
  { Vector<T, 2> three[3] = { tv[2], tv[1], tv[0] }; C.SetVertices(three); CHECK(C.GetCount() == 3 && C[0].x == v[2].first && C[2].y == v[0].second, "polygon:set", "setting the vertices"); }
  G = H;
  H = std::move(C);
  CHECK(H.GetCount() == 3 && G.GetCount() == n, "polygon:move", "moving a polygon");
  mon::nontrivial();
}

// ---- every way to make a shape gives the same shape; the coordinates are small, so they are exact in every type
template<class A> static void has(const char* what, const A& a, std::initializer_list<int> w) { int k = 0; for(int e : w) { CHECK(a.v[k] == e, "shape:make", "%s: component %d is %g, expected %d", what, k, (double)a.v[k], e); ++k; } }
template<class T, class U> static void shapes(Rng& r)
{
  int q[8]; for(int& e : q) { e = (int)r.range(-90, 90); mon::note((uint64_t)e); }
  mon::op("shapes %d %d %d %d", q[0], q[1], q[2], q[3]);
  T a2[2] = { (T)q[0], (T)q[1] }, a3[3] = { (T)q[0], (T)q[1], (T)q[2] }, a5[5] = { (T)q[0], (T)q[1], (T)q[2], (T)q[3], (T)q[4] };
  Vector<T, 2> v2(a2), w2((T)q[3], (T)q[4]); Vector<T, 3> v3(a3), w3((T)q[3], (T)q[4], (T)q[5]); Vector<T, 5> v5(a5), w5((T)q[5]);
  std::array<T, 2> s2 = { a2[0], a2[1] }; std::array<T, 3> s3 = { a3[0], a3[1], a3[2] }; std::array<T, 5> s5 = { a5[0], a5[1], a5[2], a5[3], a5[4] };
  T R = (T)q[6];
  { NSphere<T, 2> a(v2, R), b(a2, R), c(s2, R), d(a2[0], a2[1], R); NSphere<U, 2> e(a), f; f = b; for(auto* x : { &a, &b, &c, &d }) { has("circle", *x, { q[0], q[1], q[6] }); CHECK(x->Radius() == R && x->Diameter() == 2 * R, "shape:radius", "circle"); } has("converted circle", e, { q[0], q[1], q[6] }); has("assigned circle", f, { q[0], q[1], q[6] }); }
  { NSphere<T, 3> a(v3, R), b(a3, R), c(s3, R), d(a3[0], a3[1], a3[2], R); NSphere<U, 3> e(a), f; f = b; for(auto* x : { &a, &b, &c, &d }) { has("sphere", *x, { q[0], q[1], q[2], q[6] }); CHECK(x->Radius() == R && x->Diameter() == 2 * R, "shape:radius", "sphere"); } has("converted sphere", e, { q[0], q[1], q[2], q[6] }); has("assigned sphere", f, { q[0], q[1], q[2], q[6] }); }
  { NSphere<T, 5> a(v5, R), b(a5, R), c(s5, R); NSphere<U, 5> e(a), f; f = b; for(auto* x : { &a, &b, &c }) { for(int i = 0; i < 5; ++i) CHECK(x->c.v[i] == a5[i], "shape:make", "5-sphere, component %d", i); CHECK(x->Radius() == R && x->Diameter() == 2 * R, "shape:radius", "5-sphere"); } for(int i = 0; i < 5; ++i) CHECK(e.c.v[i] == a5[i] && f.c.v[i] == a5[i] && e.r == R && f.r == R, "shape:make", "converted 5-sphere, component %d", i); }
  { LineN<T, 2> a(v2, w2), b(a2[0], a2[1], w2.x, w2.y); LineN<U, 2> e(a), f; f = b; for(auto* x : { &a, &b }) has("line", *x, { q[0], q[1], q[3], q[4] }); has("converted line", e, { q[0], q[1], q[3], q[4] }); has("assigned line", f, { q[0], q[1], q[3], q[4] }); }
  { LineN<T, 3> a(v3, w3), b(a3[0], a3[1], a3[2], w3.x, w3.y, w3.z), c(v3, w3.x, w3.y, w3.z); LineN<U, 3> e(a), f; f = b; for(auto* x : { &a, &b, &c }) has("3D line", *x, { q[0], q[1], q[2], q[3], q[4], q[5] }); has("converted 3D line", e, { q[0], q[1], q[2], q[3], q[4], q[5] }); has("assigned 3D line", f, { q[0], q[1], q[2], q[3], q[4], q[5] });
    L d = 0; for(int i = 0; i < 3; ++i) d += (L)(q[i] - q[i + 3]) * (q[i] - q[i + 3]); NEAR("shape:length", a.Length(), sqrtl(d), 200); T t = (T)(r.range(-8, 8) / 4.0); auto p = a.ParametricPoint(t); for(int i = 0; i < 3; ++i) CHECK(p.v[i] == (T)(q[i] + (q[i + 3] - q[i]) * (double)t), "shape:parametric", "component %d", i); }
  { LineN<T, 5> a(v5, w5); LineN<U, 5> e(a), f; f = a; L d = 0; for(int i = 0; i < 5; ++i) { d += (L)(q[i] - q[5]) * (q[i] - q[5]); CHECK(a.p1.v[i] == a5[i] && a.p2.v[i] == q[5] && e.p1.v[i] == a5[i] && e.p2.v[i] == q[5] && f.p1.v[i] == a5[i] && f.p2.v[i] == q[5], "shape:make", "5D line, component %d", i); }
    NEAR("shape:length", a.Length(), sqrtl(d), 200); T t = (T)(r.range(-8, 8) / 4.0); auto p = a.ParametricPoint(t); for(int i = 0; i < 5; ++i) CHECK(p.v[i] == (T)(q[i] + (q[5] - q[i]) * (double)t), "shape:parametric", "component %d", i); }
  { Rect<T> a((T)q[0], (T)q[1], (T)(q[0] + q[3]), (T)(q[1] + q[4])), b(a2[0], a2[1], w2), c(v2, w2), d(a); Rect<U> e(a), f; f = a; for(auto* x : { &a, &b, &c, &d }) CHECK(is(*x, q[0], q[1], q[0] + q[3], q[1] + q[4]), "shape:make", "rectangle"); for(auto* x : { &e, &f }) CHECK(is(*x, q[0], q[1], q[0] + q[3], q[1] + q[4]), "shape:make", "converted rectangle"); }
  { Ellipse<T> a(a2[0], a2[1], w2.x, w2.y), b(v2, w2.x, w2.y), c(v2, w2); Ellipse<U> e(a); for(auto* x : { &a, &b, &c }) has("ellipse", *x, { q[0], q[1], q[3], q[4] }); has("converted ellipse", e, { q[0], q[1], q[3], q[4] }); Circle<U> o((U)q[0], (U)q[1], (U)q[6]); Ellipse<T> g(o); has("ellipse of a circle", g, { q[0], q[1], q[6], q[6] }); }
  { T mn = (T)(1 + r.below(300)) / 50, rg = (T)(1 + r.below(300)) / 50; CircleSector<T> a(a2[0], a2[1], (T)q[3], (T)q[4], mn, rg), b(v2, (T)q[3], (T)q[4], mn, rg), c(v2, (T)q[3], (T)q[4], (T)(mn + PI_DOUBLE), rg); CircleSector<U> e(a);
    for(auto* x : { &a, &b, &c }) { CHECK(x->x == q[0] && x->y == q[1] && x->inner == q[3] && x->outer == q[4] && x->range == rg, "shape:make", "sector"); CHECK(std::abs(x->min - mn) < 1e-4, "shape:make", "a sector from %g begins at %g", (double)mn, (double)x->min); } CHECK(e.x == q[0] && e.y == q[1] && e.inner == q[3] && e.outer == q[4] && std::abs(e.min - mn) < 1e-4 && std::abs(e.range - rg) < 1e-4, "shape:make", "converted sector"); }
  { Vector<T, 2> t[3] = { v2, w2, Vector<T, 2>((T)q[6], (T)q[7]) }; Vector<U, 2> u[3]; for(int i = 0; i < 3; ++i) u[i] = t[i];
    Polygon<T> a(t, 3), b(t), c(u, 3), d(u); for(auto* x : { &a, &b, &c, &d }) { CHECK(x->GetCount() == 3 && x->GetArray().Capacity() == 3 && x->end() - x->begin() == 3, "shape:make", "a polygon of 3 has %zu vertices", x->GetCount()); for(int i = 0; i < 3; ++i) CHECK((*x)[i].x == t[i].x && (*x)[i].y == t[i].y && x->begin()[i].y == t[i].y && x->GetVertices()[i].x == t[i].x, "shape:make", "polygon, vertex %d", i); }
    const Polygon<T>& k = a; CHECK(k.begin() == k.GetVertices() && k.end() == k.begin() + 3 && k.GetArray().Capacity() == 3 && k[2].y == t[2].y, "shape:make", "reading a polygon"); }
  if(r.chance(1, 60)) // as many vertices as memory holds
  {
    std::vector<Vector<T, 2>> t(65530 + r.below(20)); for(size_t i = 0; i < t.size(); ++i) t[i] = Vector<T, 2>((T)(i & 1023), (T)(i >> 10));
    Polygon<T> a; a.SetVertices(t.data(), t.size()); Polygon<U> b; b = a; Polygon<U> c(a);
    CHECK(a.GetCount() == t.size() && b.GetCount() == t.size() && c.GetCount() == t.size(), "shape:large", "%zu vertices became %zu, %zu and %zu", t.size(), a.GetCount(), b.GetCount(), c.GetCount());
    for(size_t i = 0; i < t.size(); ++i) CHECK(a[i].x == t[i].x && b[i].y == t[i].y && c[i].x == t[i].x && b[i].x == t[i].x, "shape:large", "vertex %zu of %zu", i, t.size());
    mon::ev("large_polygons");
  }
  mon::ev("shapes_made"); mon::nontrivial();
}

void mon_case(Rng& r, uint64_t)
{
  if(r.chance(1, 12)) { switch(r.below(4)) { case 0: shapes<float, double>(r); break; case 1: shapes<double, float>(r); break; case 2: shapes<float, float>(r); break; default: shapes<double, double>(r); } return; }
  bool f = r.chance(1, 2);
  for(int i = 0; i < 4; ++i)
    switch(r.below(8))
    {
    case 0: if(f) { sphere<float, 2>(r); sphere<float, 3>(r); sphere<float, 5>(r); } else { sphere<double, 2>(r); sphere<double, 3>(r); sphere<double, 5>(r); } break;
    case 1: case 2: if(f) lines<float>(r); else lines<double>(r); break;
    case 3: if(r.chance(1, 3)) rects<int>(r); else if(f) rects<float>(r); else rects<double>(r); break;
    case 4: if(f) ellipses<float>(r); else ellipses<double>(r); break;
    case 5: case 6: if(f) sectors<float>(r); else sectors<double>(r); break;
    case 7: if(f) polygons<float>(r); else polygons<double>(r); break;
    }
}
