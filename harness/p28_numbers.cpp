// Monitor for the number types: exact fractions, fixed point numbers and dual numbers (automatic differentiation).
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/Rational.h"
#include "bss-util/FixedPt.h"
#include "bss-util/Dual.h"
#include <vector>
#include <math.h>
using namespace bss;
using mon::Rng;
typedef __int128 W;

// ---- fractions against 128 bit fractions
struct Q { W n, d; };
static W wabs(W x) { return x < 0 ? -x : x; }
static W wgcd(W a, W b) { a = wabs(a); b = wabs(b); while(b) { W t = a % b; a = b; b = t; } return a; }
static Q red(W n, W d) { if(d < 0) { n = -n; d = -d; } W g = wgcd(n, d); if(!g) g = 1; if(!n) return Q{ 0, 1 }; return Q{ n / g, d / g }; }
static int cmp(const Q& a, const Q& b) { W x = a.n * b.d, y = b.n * a.d; return x < y ? -1 : x > y ? 1 : 0; }
static W fl(const Q& a) { W q = a.n / a.d; return q; }

template<class T> static void rational(Rng& r)
{
  typedef Rational<T> R;
  const int64_t LIM = sizeof(T) == 2 ? 90 : sizeof(T) == 4 ? 23000 : 1000000000; // no intermediate result leaves the type
  const int N = 3;
  R v[N];
  Q m[N];
  auto val = [&] { int64_t k = r.chance(1, 2) ? 12 : LIM - 1; return r.range(-k, k); };
  auto set = [&](int a) {
    int64_t n = val(), d = 0;
    while(!d) d = val();
    mon::op("%d := %lld/%lld", a, (long long)n, (long long)d);
    if(r.chance(1, 2)) v[a] = R((T)n, (T)d); else v[a].SetFraction((T)n, (T)d);
    m[a] = red(n, d);
  };
  for(int i = 0; i < N; ++i) set(i);
  for(int i = 5 + (int)r.below(60); i > 0; --i)
  {
    int a = (int)r.below(N), b = (int)r.below(N);
    int64_t k = r.chance(1, 6) ? 0 : r.chance(1, 2) ? r.range(-8, 8) : val();
    Q e = m[a];
    const Q x = m[a], y = m[b];
    int op = (int)r.below(14), how = (int)r.below(3);
    mon::op("%d op%d.%d %d k=%lld (%lld/%lld, %lld/%lld)", a, op, how, b, (long long)k, (long long)x.n, (long long)x.d, (long long)y.n, (long long)y.d);
    switch(op)
    {
    case 0: e = red(x.n * y.d + y.n * x.d, x.d * y.d); if(how) v[a] += v[b]; else v[a] = v[a] + v[b]; break;
    case 1: e = red(x.n * y.d - y.n * x.d, x.d * y.d); if(how) v[a] -= v[b]; else v[a] = v[a] - v[b]; break;
    case 2: e = red(x.n * y.n, x.d * y.d); if(how) v[a] *= v[b]; else v[a] = v[a] * v[b]; break;
    case 3: if(!y.n) continue; e = red(x.n * y.d, x.d * y.n); if(how) v[a] /= v[b]; else v[a] = v[a] / v[b]; break;
    case 4: if(wabs(x.n + k * x.d) > LIM * 4) continue; e = red(x.n + k * x.d, x.d); if(how == 0) v[a] = v[a] + (T)k; else if(how == 1) v[a] = (T)k + v[a]; else v[a] += (T)k; break;
    case 5:
      if(wabs(x.n - k * x.d) > LIM * 4) continue;
      if(how == 1) { e = red(k * x.d - x.n, x.d); v[a] = (T)k - v[a]; }
      else { e = red(x.n - k * x.d, x.d); if(how) v[a] -= (T)k; else v[a] = v[a] - (T)k; }
      break;
    case 6: e = red(x.n * k, x.d); if(how == 0) v[a] = v[a] * (T)k; else if(how == 1) v[a] = (T)k * v[a]; else v[a] *= (T)k; break;
    case 7:
      if(how == 1) { if(!x.n) continue; e = red(k * x.d, x.n); v[a] = (T)k / v[a]; }
      else { if(!k) continue; e = red(x.n, x.d * k); if(how) v[a] /= (T)k; else v[a] = v[a] / (T)k; }
      break;
    case 8: if(how) { e = red(x.n + x.d, x.d); CHECK(&++v[a] == &v[a], "rational:inc", "++"); } else { e = red(x.n - x.d, x.d); --v[a]; } break;
    case 9: e = Q{ wabs(x.n), x.d }; v[a] = v[a].Abs(); break;
    case 10: e = Q{ k, 1 }; v[a] = (T)k; break;
    case 11: e = y; v[a] = v[b]; break;
    case 12: v[a].Simplify(); break;
    case 13: set(a); e = m[a]; break;
    }
    m[a] = e;
    CHECK(v[a].N() == e.n && v[a].D() == e.d, "rational:value", "the result is %lld/%lld, expected %lld/%lld", (long long)v[a].N(), (long long)v[a].D(), (long long)e.n, (long long)e.d);
    if(wabs(e.n) >= LIM || e.d >= LIM) { set(a); continue; }
    // comparisons
    int c = cmp(m[a], m[b]), g = cmp(m[a], Q{ k, 1 });
    const R &A = v[a], &B = v[b];
    const T K = (T)k;
    CHECK((A == B) == (c == 0) && (A != B) == (c != 0), "rational:equal", "equality of fractions");
    if(LIM < 30000) CHECK((A < B) == (c < 0) && (A > B) == (c > 0) && (A <= B) == (c <= 0) && (A >= B) == (c >= 0), "rational:order", "%lld/%lld and %lld/%lld compare wrongly", (long long)A.N(), (long long)A.D(), (long long)B.N(), (long long)B.D());
    CHECK((A == K) == (g == 0) && (A != K) == (g != 0) && (A < K) == (g < 0) && (A > K) == (g > 0) && (A <= K) == (g <= 0) && (A >= K) == (g >= 0), "rational:integer", "%lld/%lld and %lld compare wrongly", (long long)A.N(), (long long)A.D(), (long long)k);
    CHECK((K == A) == (g == 0) && (K != A) == (g != 0) && (K < A) == (g > 0) && (K > A) == (g < 0) && (K <= A) == (g >= 0) && (K >= A) == (g <= 0), "rational:integer", "%lld and %lld/%lld compare wrongly", (long long)k, (long long)A.N(), (long long)A.D());
    CHECK(!A == !m[a].n && A.Truncate() == fl(m[a]), "rational:truncate", "%lld/%lld truncates to %lld", (long long)A.N(), (long long)A.D(), (long long)A.Truncate());
    double d = (double)m[a].n / (double)m[a].d;
    CHECK((double)A == d && (float)A == (float)d, "rational:double", "%lld/%lld converts to %g", (long long)A.N(), (long long)A.D(), (double)A);
    W g1 = wgcd(m[a].n, m[b].n);
    if(m[a].n || m[b].n) CHECK(R::template GCD<T>(A.N(), B.N()) == g1, "rational:gcd", "gcd of %lld and %lld", (long long)A.N(), (long long)B.N());
  }
  mon::nontrivial();
}

// ---- fixed point numbers: results within one unit in the last place of the exact ones
static long double ulp(int D) { return ldexpl(1.0L, -D); }
template<int D, class T> static long double val(const Fixed<D, T>& f) { return ldexpl((long double)f.Bits(), -D); }
template<int D, class T> static Fixed<D, T> mk(Rng& r, int bits) // a value whose magnitude stays below 2^bits units
{
  internal::__FixedBits<T> b;
  int64_t m = (int64_t)(r.next() >> (64 - 1 - r.below(bits)));
  if(r.chance(1, 12)) m = 0;
  b.bits = (T)(r.chance(1, 2) ? m : -m);
  return Fixed<D, T>(b);
}
#define FIX(key, got, want, tol) do { long double g_ = (got), w_ = (want); CHECK(fabsl(g_ - w_) <= (tol), key, "fixed point <%d,%d> and <%d>: got %.12Lg, expected %.12Lg", D, (int)sizeof(T) * 8, B, g_, w_); } while(0)
template<int D, int B, class T> static void fixed(Rng& r)
{
  const int TB = sizeof(T) * 8;
  typedef Fixed<D, T> F;
  typedef Fixed<B, T> G;
  const long double MAX = ldexpl(1.0L, TB - 2 - D);
  for(int i = 0; i < 20; ++i)
  {
    F a = mk<D, T>(r, TB - 3), c = mk<D, T>(r, TB - 3);
    G b = mk<B, T>(r, TB - 3);
    long double x = val<D, T>(a), z = val<D, T>(c), y = val<B, T>(b), u = ulp(D), ub = ulp(B);
    mon::op("<%d> %.12Lg <%d> %.12Lg <%d> %.12Lg", D, x, B, y, D, z);
    FIX("fixed:add", (val<D, T>(a + c)), x + z, 0);
    FIX("fixed:sub", (val<D, T>(a - c)), x - z, 0);
    FIX("fixed:neg", (val<D, T>(-a)), -x, 0);
    { F t(a); t += c; FIX("fixed:add", (val<D, T>(t)), x + z, 0); t = a; t -= c; FIX("fixed:sub", (val<D, T>(t)), x - z, 0); }
    CHECK((a < c) == (x < z) && (a > c) == (x > z) && (a <= c) == (x <= z) && (a >= c) == (x >= z) && (a == c) == (x == z) && (a != c) == (x != z), "fixed:compare", "%Lg and %Lg compare wrongly", x, z);
    if(c.Bits()) { FIX("fixed:mod", (val<D, T>(a % c)), fmodl(x, z), 0); F t(a); t %= c; FIX("fixed:mod", (val<D, T>(t)), fmodl(x, z), 0); }
    CHECK((T)a == (T)floorl(x), "fixed:int", "%Lg as an integer is %lld", x, (long long)(T)a);
    CHECK(fabsl((double)a - x) <= fabsl(x) * 1e-14L + (D > 53 ? ulp(52) : 0), "fixed:double", "%.15Lg as a double is %.15g", x, (double)a);
    CHECK(fabsl((float)a - x) <= fabsl(x) * 3e-7L + (D > 24 ? ulp(23) : 0), "fixed:float", "%.9Lg as a float is %.9g", x, (float)a);
    // between formats
    if(fabsl(y) < MAX)
    {
      F t(b);
      FIX("fixed:convert", (val<D, T>(t)), y, B > D ? u : 0);
      F t2(a);
      t2 = b;
      CHECK(t2 == t, "fixed:convert", "assigning converts differently from constructing");
      FIX("fixed:mixed-add", (val<D, T>(a + b)), x + y, u);
      FIX("fixed:mixed-sub", (val<D, T>(a - b)), x - y, u);
      t2 = a; t2 += b; FIX("fixed:mixed-add", (val<D, T>(t2)), x + y, u);
      t2 = a; t2 -= b; FIX("fixed:mixed-sub", (val<D, T>(t2)), x - y, u);
    }
    // products and quotients that fit
    if(fabsl(x * y) < MAX) { FIX("fixed:mul", (val<D, T>(a * b)), x * y, u * (TB == 64 ? 1.01L : 1)); F t(a); t *= b; FIX("fixed:mul", (val<D, T>(t)), x * y, u * (TB == 64 ? 1.01L : 1)); mon::ev("products"); }
    if(y != 0 && fabsl(x / y) < MAX)
    { // 64 bit division goes through a reciprocal with 62 bits: allow what that costs
      long double q = x / y, tol = u * 1.01L;
      if(TB == 64) tol = u * 2 + fabsl(q) * fabsl(y / ub) * ldexpl(1.0L, -61);
      FIX("fixed:div", (val<D, T>(a / b)), q, tol);
      F t(a); t /= b; FIX("fixed:div", (val<D, T>(t)), q, tol);
      mon::ev("quotients");
    }
    // with plain numbers, small enough for every format
    long double lim = MAX / 64;
    double f = (r.unit() * 2 - 1) * (double)(lim > 1000 ? 1000 : lim);
    float ff = (float)f;
    F s(f), sf(ff);
    long double fe = truncl((long double)f * ldexpl(1.0L, D)) * u, fef = truncl((long double)ff * ldexpl(1.0L, D)) * u;
    FIX("fixed:from-double", (val<D, T>(s)), fe, 0);
    FIX("fixed:from-float", (val<D, T>(sf)), fef, 0);
    F w = a >> (T)7;
    FIX("fixed:shift", (val<D, T>(w)), floorl(x / u / 128) * u, 0);
    { F t(a); t >>= (T)7; CHECK(t == w, "fixed:shift", ">>= and >> differ"); t <<= (T)5; CHECK(t == (w << (T)5), "fixed:shift", "<<= and << differ"); FIX("fixed:shift", (val<D, T>(t)), (val<D, T>(w) * 32), 0); }
    long double wx = val<D, T>(w);
    FIX("fixed:plus-double", (val<D, T>(w + f)), wx + fe, 0);
    FIX("fixed:minus-double", (val<D, T>(w - f)), wx - fe, 0);
    FIX("fixed:plus-double", (val<D, T>(f + w)), wx + fe, 0);
    FIX("fixed:minus-double", (val<D, T>(f - w)), fe - wx, 0);
    FIX("fixed:plus-float", (val<D, T>(w + ff)), wx + fef, 0);
    FIX("fixed:plus-float", (val<D, T>(ff + w)), wx + fef, 0);
    FIX("fixed:minus-float", (val<D, T>(ff - w)), fef - wx, 0);
    { F t(w); t += f; FIX("fixed:plus-double", (val<D, T>(t)), wx + fe, 0); t -= f; CHECK(t == w, "fixed:minus-double", "adding and subtracting"); t += ff; t -= ff; CHECK(t == w, "fixed:minus-float", "adding and subtracting"); }
    if(fabsl(wx * fe) < MAX && fabsl(wx * fef) < MAX)
    {
      FIX("fixed:times-double", (val<D, T>(w * f)), wx * fe, u * 1.01L);
      FIX("fixed:times-double", (val<D, T>(f * w)), wx * fe, u * 1.01L);
      FIX("fixed:times-float", (val<D, T>(w * ff)), wx * fef, u * 1.01L);
      F t(w); t *= f; FIX("fixed:times-double", (val<D, T>(t)), wx * fe, u * 1.01L);
      t = w; t *= ff; FIX("fixed:times-float", (val<D, T>(t)), wx * fef, u * 1.01L);
    }
    if(fe != 0 && fabsl(wx / fe) < MAX)
    {
      long double q = wx / fe, tol = u * 1.01L;
      if(TB == 64) tol = u * 2 + fabsl(q) * fabsl(fe / u) * ldexpl(1.0L, -61);
      FIX("fixed:over-double", (val<D, T>(w / f)), q, tol);
      F t(w); t /= f; FIX("fixed:over-double", (val<D, T>(t)), q, tol);
    }
    double ld = f; ld += w; CHECK(fabsl(ld - (f + wx)) <= 1e-9L * (fabsl(wx) + 1000), "fixed:into-double", "double += fixed");
    ld = f; ld *= w; CHECK(fabsl(ld - (f * wx)) <= 1e-9L * (fabsl(wx) + 1) * 1000, "fixed:into-double", "double *= fixed");
    // reciprocal
    if(c.Bits() && fabsl(1 / z) < ldexpl(1.0L, D - 1) * 0.99L)
    {
      auto q = c.Reciprocal();
      long double g = ldexpl((long double)q.Bits(), -(TB - D));
      CHECK(fabsl(g - 1 / z) <= 4 * ldexpl(1.0L, -(TB - D)) * 1.01L, "fixed:reciprocal", "1 / %.12Lg is %.12Lg instead of %.12Lg", z, g, 1 / z);
    }
  }
  // integers
  T k = (T)r.range(-100, 100);
  if(TB - 2 - D > 7) CHECK((T)F(k) == k, "fixed:integer", "integer %lld became %lld", (long long)k, (long long)(T)F(k));
  mon::nontrivial();
}
template<int D, int B> static void fixedconv(Rng& r) // across storage types
{
  for(int i = 0; i < 20; ++i)
  {
    Fixed<D, int32_t> a = mk<D, int32_t>(r, 29);
    Fixed<B, int64_t> b(a);
    long double x = val<D, int32_t>(a), y = val<B, int64_t>(b);
    mon::op("<%d> %Lg to <%d>", D, x, B);
    CHECK(fabsl(x - y) <= (D > B ? ulp(B) : 0), "fixed:widen", "%.12Lg became %.12Lg", x, y);
    Fixed<D, int32_t> c(b), e(0.0);
    e = b;
    CHECK(fabsl(val<D, int32_t>(c) - y) <= ulp(D) && c == e, "fixed:narrow", "%.12Lg became %.12Lg", y, val<D, int32_t>(c));
  }
  mon::nontrivial();
}

// ---- dual numbers against truncated power series in long double
template<int O> struct Ser
{
  long double c[O + 1], m[O + 1]; // coefficients, and the magnitude of what was added up to get them
  Ser(long double x = 0) { for(int i = 0; i <= O; ++i) c[i] = m[i] = 0; c[0] = x; m[0] = fabsl(x); }
};
template<int O> Ser<O> add(const Ser<O>& a, const Ser<O>& b, int s) { Ser<O> r; for(int i = 0; i <= O; ++i) { r.c[i] = a.c[i] + s * b.c[i]; r.m[i] = a.m[i] + b.m[i]; } return r; }
template<int O> Ser<O> mul(const Ser<O>& a, const Ser<O>& b) { Ser<O> r; for(int i = 0; i <= O; ++i) for(int j = 0; j <= i; ++j) { r.c[i] += a.c[j] * b.c[i - j]; r.m[i] += a.m[j] * b.m[i - j]; } return r; }
template<int O> Ser<O> dvd(const Ser<O>& a, const Ser<O>& b)
{
  Ser<O> r;
  for(int i = 0; i <= O; ++i)
  {
    long double s = a.c[i], m = a.m[i];
    for(int j = 1; j <= i; ++j) { s -= b.c[j] * r.c[i - j]; m += b.m[j] * r.m[i - j]; }
    r.c[i] = s / b.c[0];
    r.m[i] = m / fabsl(b.c[0]) * (b.m[0] / fabsl(b.c[0]));
  }
  return r;
}
template<int O> Ser<O> ex(const Ser<O>& a)
{
  Ser<O> r;
  r.c[0] = expl(a.c[0]); r.m[0] = r.c[0] * (1 + a.m[0]);
  for(int i = 1; i <= O; ++i) { for(int j = 1; j <= i; ++j) { r.c[i] += j * a.c[j] * r.c[i - j]; r.m[i] += j * a.m[j] * r.m[i - j]; } r.c[i] /= i; r.m[i] /= i; }
  return r;
}
template<int O> Ser<O> lg(const Ser<O>& a)
{
  Ser<O> r;
  r.c[0] = logl(a.c[0]); r.m[0] = fabsl(r.c[0]) + a.m[0] / a.c[0];
  for(int i = 1; i <= O; ++i)
  {
    long double s = i * a.c[i], m = i * a.m[i];
    for(int j = 1; j < i; ++j) { s -= j * r.c[j] * a.c[i - j]; m += j * r.m[j] * a.m[i - j]; }
    r.c[i] = s / (i * a.c[0]); r.m[i] = m / (i * a.c[0]) * (a.m[0] / a.c[0]);
  }
  return r;
}
template<int O> void sc(const Ser<O>& a, Ser<O>& s, Ser<O>& c)
{
  s = Ser<O>(); c = Ser<O>();
  s.c[0] = sinl(a.c[0]); c.c[0] = cosl(a.c[0]); s.m[0] = c.m[0] = 1 + a.m[0];
  for(int i = 1; i <= O; ++i)
  {
    for(int j = 1; j <= i; ++j)
    {
      s.c[i] += j * a.c[j] * c.c[i - j]; s.m[i] += j * a.m[j] * c.m[i - j];
      c.c[i] -= j * a.c[j] * s.c[i - j]; c.m[i] += j * a.m[j] * s.m[i - j];
    }
    s.c[i] /= i; c.c[i] /= i; s.m[i] /= i; c.m[i] /= i;
  }
}
template<int O> struct Node { Dual<double, O> d; Ser<O> s; };
template<int O> static Node<O> tree(Rng& r, double x, int depth)
{
  typedef Dual<double, O> Du;
  Node<O> n;
  if(depth == 0 || r.chance(1, 8))
  {
    if(r.chance(2, 3)) { mon::op("x"); n.d = Du(x, 1); n.s = Ser<O>(x); n.s.c[1] = n.s.m[1] = 1; }
    else { double k = r.range(-9, 9) / 2.0; mon::op("%g", k); n.d = Du(k); n.s = Ser<O>(k); }
    return n;
  }
  Node<O> a = tree<O>(r, x, depth - 1);
  int op = (int)r.below(13);
  double k = r.chance(1, 2) ? r.range(1, 8) / 2.0 : -r.range(1, 8) / 2.0;
  switch(op)
  {
  case 0: case 1: case 2: case 3:
  {
    Node<O> b = tree<O>(r, x, depth - 1);
    if(op == 3 && fabsl(b.s.c[0]) < 0.05L) op = 0;
    mon::op("%c", "+-*/"[op]);
    if(op == 0) { n.d = a.d + b.d; n.s = add(a.s, b.s, 1); }
    else if(op == 1) { n.d = a.d - b.d; n.s = add(a.s, b.s, -1); }
    else if(op == 2) { n.d = a.d * b.d; n.s = mul(a.s, b.s); }
    else { n.d = a.d / b.d; n.s = dvd(a.s, b.s); }
    break;
  }
  case 4: mon::op("sin"); { Ser<O> c; sc(a.s, n.s, c); } n.d = r.chance(1, 2) ? a.d.sin() : Du::sin(a.d); break;
  case 5: mon::op("cos"); { Ser<O> s; sc(a.s, s, n.s); } n.d = r.chance(1, 2) ? a.d.cos() : Du::cos(a.d); break;
  case 6: if(fabsl(a.s.c[0]) > 6) { n = a; break; } mon::op("exp"); n.s = ex(a.s); n.d = r.chance(1, 2) ? a.d.exp() : Du::exp(a.d); break;
  case 7: if(a.s.c[0] < 0.05L) { n = a; break; } mon::op("log"); n.s = lg(a.s); n.d = r.chance(1, 2) ? a.d.log() : Du::log(a.d); break;
  case 8: if(a.s.c[0] < 0.05L) { n = a; break; } mon::op("log10"); n.s = dvd(lg(a.s), Ser<O>(logl(10.0L))); n.d = r.chance(1, 2) ? a.d.log10() : Du::log10(a.d); break;
  case 9: mon::op("neg"); n.d = -a.d; n.s = mul(a.s, Ser<O>(-1)); break;
  case 10: if(fabsl(a.s.c[0]) < 0.05L) { n = a; break; } mon::op("abs"); n.d = a.d.Abs(); n.s = mul(a.s, Ser<O>(a.s.c[0] < 0 ? -1 : 1)); break;
  case 11: // with a plain number on either side
    mon::op("with %g", k);
    switch(r.below(8))
    {
    case 0: n.d = a.d + k; n.s = add(a.s, Ser<O>(k), 1); break;
    case 1: n.d = a.d - k; n.s = add(a.s, Ser<O>(k), -1); break;
    case 2: n.d = a.d * k; n.s = mul(a.s, Ser<O>(k)); break;
    case 3: n.d = a.d / k; n.s = dvd(a.s, Ser<O>(k)); break;
    case 4: n.d = k + a.d; n.s = add(Ser<O>(k), a.s, 1); break;
    case 5: n.d = k - a.d; n.s = add(Ser<O>(k), a.s, -1); break;
    case 6: n.d = k * a.d; n.s = mul(Ser<O>(k), a.s); break;
    case 7: if(fabsl(a.s.c[0]) < 0.05L) { n = a; break; } n.d = k / a.d; n.s = dvd(Ser<O>(k), a.s); break;
    }
    break;
  case 12: // powers of positive numbers
  {
    if(a.s.c[0] < 0.1L || a.s.c[0] > 20) { n = a; break; }
    if(r.chance(1, 2)) { mon::op("^%g", k); n.d = a.d ^ k; n.s = ex(mul(lg(a.s), Ser<O>(k))); break; }
    Node<O> b = tree<O>(r, x, depth - 1);
    if(fabsl(b.s.c[0]) > 3) { n = a; break; }
    mon::op("^");
    n.d = a.d ^ b.d;
    n.s = ex(mul(lg(a.s), b.s));
    break;
  }
  }
  return n;
}
template<int O> static void dual(Rng& r)
{
  double x = r.chance(1, 2) ? 0.25 + r.unit() * 3 : (r.unit() * 2 - 1) * 4;
  Node<O> n = tree<O>(r, x, 1 + (int)r.below(4));
  long double f = 1, mm = 0;
  for(int i = 0; i <= O; ++i) mm = std::max(mm, n.s.m[i]);
  bool ok = mm < 1e12L;
  for(int i = 0; i <= O && ok; ++i)
  {
    if(i) f *= i;
    long double want = n.s.c[i] * f, got = n.d(i), tol = 1e-10L * (mm * f * 24 + 1);
    CHECK(fabsl(got - want) <= tol, "dual:derivative", "derivative %d of order %d at %g is %.15Lg, expected %.15Lg (tolerance %Lg)", i, O, x, got, want, tol);
    mon::ev("derivatives compared");
  }
  if(ok) mon::nontrivial();
}

void mon_case(Rng& r, uint64_t)
{
  switch(r.below(24))
  {
  case 0: case 1: case 2: rational<int>(r); break;
  case 3: case 4: rational<int64_t>(r); break;
  case 5: rational<short>(r); break;
  case 6: fixed<12, 12, int32_t>(r); break;
  case 7: fixed<13, 8, int32_t>(r); break;
  case 8: fixed<8, 16, int32_t>(r); break;
  case 9: fixed<24, 20, int32_t>(r); break;
  case 10: fixed<23, 23, int64_t>(r); break;
  case 11: fixed<31, 43, int64_t>(r); break;
  case 12: fixed<43, 31, int64_t>(r); break;
  case 13: fixed<12, 20, int64_t>(r); break;
  case 14: fixed<4, 27, int32_t>(r); break;
  case 15: r.chance(1, 2) ? fixedconv<12, 30>(r) : fixedconv<20, 10>(r); break;
  case 16: case 17: case 18: dual<1>(r); break;
  case 19: case 20: dual<2>(r); break;
  case 21: case 22: dual<3>(r); break;
  case 23: dual<4>(r); break;
  }
}
