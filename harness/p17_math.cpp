// Monitor for the arithmetic helpers: every result is compared with plain wide arithmetic (128-bit integers, long double, brute force).
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/algo.h"
#include <vector>
#include <cmath>
using namespace bss;
using mon::Rng;
typedef __int128 i128;
typedef unsigned __int128 u128;

// values near the edges of the type, near powers of two, and uniform ones
template<class T> static T val(Rng& r)
{
  typedef typename std::make_unsigned<T>::type U;
  const int B = sizeof(T) * 8;
  switch(r.below(6))
  {
  case 0: return (T)r.range(-3, 3);
  case 1: return (T)(std::numeric_limits<T>::max() - (T)r.below(3));
  case 2: return (T)(std::numeric_limits<T>::min() + (T)r.below(3));
  case 3: return (T)(U)(((U)1 << r.below(B)) + (U)r.range(-2, 2));
  case 4: return (T)(U)(r.next() >> r.below(B));
  }
  return (T)r.next();
}
static long double ulps(float f) { int32_t i; memcpy(&i, &f, 4); return i < 0 ? -(long double)(i & 0x7fffffff) : (long double)i; }
static long double ulps(double f) { int64_t i; memcpy(&i, &f, 8); return i < 0 ? -(long double)(i & 0x7fffffffffffffffll) : (long double)i; }

template<class T> static void bits(Rng& r, const char* tn)
{
  typedef typename std::make_unsigned<T>::type U;
  const int B = sizeof(T) * 8;
  T v = val<T>(r), w = val<T>(r);
  U u = (U)v;
  mon::op("bits<%s> %llx %llx", tn, (unsigned long long)u, (unsigned long long)(U)w);
  int n = 0;
  for(int i = 0; i < B; ++i) n += (u >> i) & 1;
  CHECK((int)BitCount<T>(v) == n, "math:bitcount", "BitCount<%s>(%llx) is %d, the value has %d bits set", tn, (unsigned long long)u, (int)BitCount<T>(v), n);
  // single bits of an array of words
  T arr[3] = { v, w, (T)(v ^ w) };
  for(int k = 0; k < 6; ++k)
  {
    size_t i = r.below(3 * B);
    bool e = ((U)arr[i / B] >> (i % B)) & 1;
    CHECK(bssGetBit<T>(arr, i) == e, "math:getbit", "bssGetBit<%s> of bit %zu is %d, expected %d", tn, i, (int)bssGetBit<T>(arr, i), (int)e);
    T m = (T)((U)1 << (i % B));
    CHECK(GetBitMask<U>((int)(i % B)) == (U)m, "math:bitmask", "the mask of bit %zu in <%s> is %llx", i % B, tn, (unsigned long long)GetBitMask<U>((int)(i % B)));
    { int lo = (int)r.range(1 - B, B - 1), hi = lo + (int)r.below(lo < 0 ? B : B - lo); if(hi >= B) hi = B - 1; U mask = 0; for(int q = lo; q <= hi; ++q) mask = (U)(mask | ((U)1 << ((q + B) % B))); CHECK(GetBitMask<U>(lo, hi) == mask, "math:bitmask", "the mask of bits %d to %d in <%s> is %llx, expected %llx", lo, hi, tn, (unsigned long long)GetBitMask<U>(lo, hi), (unsigned long long)mask); }
    bool to = r.chance(1, 2);
    U x = (U)bssSetBit<T>(v, m, to);
    CHECK(x == (to ? (U)(u | (U)m) : (U)(u & (U)~(U)m)), "math:setbit", "bssSetBit<%s>(%llx, %llx, %d) is %llx", tn, (unsigned long long)u, (unsigned long long)(U)m, to, (unsigned long long)x);
  }
  uint8_t b1[sizeof(T)], b2[sizeof(T)];
  T f = v;
  memcpy(b1, &f, sizeof f);
  FlipEndian(&f);
  memcpy(b2, &f, sizeof f);
  for(size_t i = 0; i < sizeof(T); ++i) CHECK(b1[i] == b2[sizeof(T) - 1 - i], "math:endian", "FlipEndian<%s> put byte %zu in the wrong place", tn, i);
  if constexpr(std::is_signed<T>::value)
  {
    U a = v < 0 ? (U)0 - (U)v : (U)v;
    CHECK((U)bssAbs<T>(v) == a, "math:abs", "bssAbs<%s>(%lld) is %llu", tn, (long long)v, (unsigned long long)(U)bssAbs<T>(v));
    CHECK(tsign<T>(v) == (v < 0 ? -1 : 1), "math:sign", "tsign<%s>(%lld) is %lld", tn, (long long)v, (long long)tsign<T>(v));
    T m = w;
    if(m > 0)
    {
      i128 q = (i128)v / m, rem = (i128)v % m;
      if(rem < 0) { rem += m; --q; }
      CHECK((i128)bssMod<T>(v, m) == rem, "math:mod", "bssMod<%s>(%lld, %lld) is %lld", tn, (long long)v, (long long)m, (long long)bssMod<T>(v, m));
      CHECK(((i128)IntDiv<T, T>(v, m) == q), "math:intdiv", "IntDiv<%s>(%lld, %lld) is %lld", tn, (long long)v, (long long)m, (long long)IntDiv<T, T>(v, m));
    }
  }
  else
  {
    char neg = (char)r.below(2);
    if(u <= (U)std::numeric_limits<typename std::make_signed<T>::type>::max())
    {
      i128 e = neg ? -(i128)u : (i128)u;
      CHECK((i128)bssNegate<T>(u, neg) == e, "math:negate", "bssNegate<%s>(%llu, %d) is %lld", tn, (unsigned long long)u, neg, (long long)bssNegate<T>(u, neg));
    }
    CHECK(bssAbs<T>(v) == v, "math:abs", "bssAbs<%s>(%llu) changed an unsigned value", tn, (unsigned long long)v);
    if(v > 0 && v <= ((T)1 << (B - 1)))
    {
      U e = 1;
      while(e < u) e <<= 1;
      CHECK(NextPow2(u) == e, "math:pow2", "NextPow2(%llu) is %llu, expected %llu", (unsigned long long)u, (unsigned long long)NextPow2(u), (unsigned long long)e);
    }
    if constexpr(sizeof(T) >= 4)
    {
      uint32_t e = 0;
      for(int i = 0; i < B; ++i) if((u >> i) & 1) e = i;
      CHECK(bssLog2(u) == e, "math:log2", "bssLog2(%llu) is %u, expected %u", (unsigned long long)u, bssLog2(u), e);
      if constexpr(sizeof(T) == 4)
      {
        uint32_t p = (uint32_t)1 << r.below(32), l = 0;
        while(((uint64_t)1 << l) < p) ++l;
        CHECK(bssLog2_p2(p) == l, "math:log2", "bssLog2_p2(%u) is %u", p, bssLog2_p2(p));
      }
    }
  }
  CHECK((int)(signed char)tsignzero<T>(v) == (v > 0) - (v < 0), "math:sign", "tsignzero<%s>(%lld) is %d", tn, (long long)v, (int)(signed char)tsignzero<T>(v));
  // integer square root
  T q = v < 0 ? (T)(v == std::numeric_limits<T>::min() ? 0 : -v) : v;
  if(r.chance(1, 3))
  { // around a perfect square
    U s = (U)(r.next() & ((((u128)1 << (B / 2)) - 1) >> (std::is_signed<T>::value)));
    u128 sq = (u128)s * s + (i128)r.range(-1, 1);
    if(sq <= (u128)std::numeric_limits<T>::max()) q = (T)sq;
  }
  u128 s = (u128)(U)FastSqrt<T>(q);
  CHECK(s * s <= (u128)(U)q && (s + 1) * (s + 1) > (u128)(U)q, "math:isqrt", "the integer square root of %llu (%s) came out as %llu", (unsigned long long)q, tn, (unsigned long long)s);
}
template<class T> static void mulext(Rng& r, const char* tn)
{
  const int B = sizeof(T) * 8;
  T x = val<T>(r), y = val<T>(r), s = (T)r.below(2 * B);
  mon::op("mul<%s> %lld %lld %d", tn, (long long)x, (long long)y, (int)s);
  T e;
  if constexpr(std::is_signed<T>::value) e = (T)(((i128)x * (i128)y) >> s);
  else e = (T)(((u128)x * (u128)y) >> s);
  if constexpr(sizeof(T) >= 4)
  {
    T a = bssMultiplyExtract<T>(x, y, s);
    CHECK(a == e, "math:mulextract", "bssMultiplyExtract<%s>(%lld, %lld, %d) is %lld, expected %lld", tn, (long long)x, (long long)y, (int)s, (long long)a, (long long)e);
    T b = internal::_bssmultiplyextract<T>(x, y, s);
    CHECK(b == e, "math:mulextract-portable", "portable multiply-extract<%s>(%lld, %lld, %d) is %lld, expected %lld", tn, (long long)x, (long long)y, (int)s, (long long)b, (long long)e);
  }
}
template<int N> static void limit()
{
  typedef BitLimit<N> L;
  u128 um = N == 128 ? ~(u128)0 : ((u128)1 << N) - 1;
  CHECK((u128)L::UNSIGNED_MAX == um && L::UNSIGNED_MIN == 0, "math:bitlimit", "BitLimit<%d>: unsigned maximum %llx", N, (unsigned long long)L::UNSIGNED_MAX);
  CHECK((i128)L::SIGNED_MAX == (i128)(um >> 1) && (i128)L::SIGNED_MIN == -(i128)(um >> 1) - 1, "math:bitlimit", "BitLimit<%d>: signed limits %llx %llx", N, (unsigned long long)L::SIGNED_MIN, (unsigned long long)L::SIGNED_MAX);
  CHECK(sizeof(typename L::SIGNED) * 8 >= N && (sizeof(typename L::SIGNED) == 1 || sizeof(typename L::SIGNED) * 4 < N), "math:bitlimit", "BitLimit<%d> chose a type of %zu bytes", N, sizeof(typename L::SIGNED));
}
template<int... N> static void limits(std::integer_sequence<int, N...>) { (limit<N + 1>(), ...); }

template<class T> static T fval(Rng& r, int lo, int hi)
{
  T m = (T)(1.0 + r.unit());
  return std::ldexp(m, (int)r.range(lo, hi)) * (r.chance(1, 2) ? -1 : 1);
}
template<class T, class I> static void floats(Rng& r, const char* tn, int elo, int ehi)
{
  T a = fval<T>(r, elo, ehi), b = fval<T>(r, elo, ehi);
  I k = (I)r.below(1 + ((uint64_t)1 << r.below(20)));
  switch(r.below(5))
  {
  case 0: b = a; for(int i = (int)r.below(20); i > 0; --i) b = std::nextafter(b, r.chance(2, 3) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()); break;
  case 1: b = (T)((double)a * (1 + 1e-6 * (r.unit() - .5))); break;
  case 2: b = -a; break;
  case 3: a = std::numeric_limits<T>::denorm_min() * (T)r.range(-9, 9); b = std::numeric_limits<T>::denorm_min() * (T)r.range(-9, 9); break;
  }
  mon::op("float<%s> %a %a %lld", tn, (double)a, (double)b, (long long)k);
  long double d = ulps(a) - ulps(b);
  if(d < 0) d = -d;
  CHECK(fCompare(a, b, k) == (d <= k), "math:fcompare", "fCompare(%a, %a, %lld) is %d but they are %Lg representable values apart", (double)a, (double)b, (long long)k, (int)fCompare(a, b, k), d);
  T eps = std::fabs(fval<T>(r, -30, 5));
  if(r.chance(1, 3)) eps = std::fabs(a);
  CHECK(fSmall(a, eps) == (std::fabs(a) <= eps), "math:fsmall", "fSmall(%a, %a)", (double)a, (double)eps);
  CHECK(fCompareSmall(a, (T)0, (I)1, eps) == (std::fabs(a) <= eps) && fCompareSmall((T)0, a, (I)1, eps) == (std::fabs(a) <= eps), "math:fsmall", "fCompareSmall(%a, 0)", (double)a);
  CHECK(fsign(a) == (std::signbit(a) ? (T)-1 : (T)1), "math:sign", "fsign(%a)", (double)a);
  // square root
  T p = std::fabs(fval<T>(r, elo / 2, ehi / 2));
  T s = FastSqrt<T>(p);
  CHECK(std::fabs(s - std::sqrt(p)) <= std::sqrt(p) * (T)(sizeof(T) == 4 ? 1e-5 : 1e-6), "math:fsqrt", "FastSqrt<%s>(%.17g) is %.17g, expected about %.17g", tn, (double)p, (double)s, (double)std::sqrt(p));
  CHECK(FastSqrt<T>((T)0) == 0, "math:fsqrt", "FastSqrt<%s>(0)", tn);
  // rounding
  T q = (T)((r.unit() - .5) * std::ldexp(1.0, (int)r.range(0, 30)));
  if(r.chance(1, 3)) q = (T)(r.range(-1000, 1000) + 0.5);
  CHECK(fFastRound(q) == (int32_t)std::nearbyint(q), "math:round", "fFastRound<%s>(%.17g) is %d", tn, (double)q, fFastRound(q));
  CHECK(fFastTruncate(q) == (int32_t)q, "math:truncate", "fFastTruncate<%s>(%.17g) is %d", tn, (double)q, fFastTruncate(q));
  // modulo and angles
  T x = (T)((r.unit() - .5) * 1000), m = (T)(r.unit() * 20 + .01);
  T f = bssFMod<T>(x, m);
  T tol = (T)(sizeof(T) == 4 ? 2e-4 : 1e-9);
  T turns = (x - f) / m;
  CHECK(f >= -tol && f <= m + tol && std::fabs(turns - std::nearbyint(turns)) * m <= tol * 10, "math:fmod", "bssFMod<%s>(%g, %g) is %g", tn, (double)x, (double)m, (double)f);
  T al = (T)((r.unit() - .5) * 40), be = (T)((r.unit() - .5) * 40);
  long double e = std::fabs(std::remainder((long double)al - (long double)be, 6.283185307179586476925286766559L));
  T at = (T)(sizeof(T) == 4 ? 2e-5 : 1e-12);
  CHECK(std::fabs((long double)AngleDist<T>(al, be) - e) <= at, "math:angle", "AngleDist<%s>(%g, %g) is %g, expected %Lg", tn, (double)al, (double)be, (double)AngleDist<T>(al, be), e);
  long double sg = std::remainder((long double)be - (long double)al, 6.283185307179586476925286766559L);
  long double got = AngleDistSigned<T>(al, be);
  CHECK(std::fabs(got - sg) <= at || (std::fabs(sg) >= 3.14159265358979323846L - at && std::fabs(std::fabs(got - sg) - 6.283185307179586476925286766559L) <= at), "math:angle-signed", "AngleDistSigned<%s>(%g, %g) is %Lg, expected %Lg", tn, (double)al, (double)be, got, sg);
  T t = (T)r.unit(), l = lerp<T, T>(al, be, t);
  CHECK((lerp<T, T>(al, be, 0) == al && lerp<T, T>(al, be, 1) == be), "math:lerp", "lerp does not end at its end points");
  CHECK(std::fabs(l - (al + (be - al) * t)) <= (T)1e-5 * 40, "math:lerp", "lerp<%s>(%g, %g, %g) is %g", tn, (double)al, (double)be, (double)t, (double)l);
}
static void stats(Rng& r)
{
  int n = (int)r.range(1, 40);
  std::vector<double> v;
  double avg = 0, avg2 = 0, var = 0;
  mon::op("stats n %d", n);
  for(int i = 1; i <= n; ++i)
  {
    double x = r.chance(1, 8) ? 0.0 : (r.unit() - .3) * 100;
    mon::note((uint64_t)(int64_t)(x * 1e6));
    v.push_back(x);
    avg = bssAvg<double, int>(avg, x, i);
    bssVariance<double, int>(var, avg2, x, i);
  }
  double m = 0, s = 0;
  for(double x : v) m += x;
  m /= n;
  for(double x : v) s += (x - m) * (x - m);
  CHECK(std::fabs(avg - m) < 1e-9, "math:avg", "the running average of %d values is %.17g, expected %.17g", n, avg, m);
  CHECK(std::fabs(avg2 - m) < 1e-9 && std::fabs(var - s) <= 1e-9 * (1 + s), "math:variance", "the running average/sum of squared differences of %d values is %.17g/%.17g, expected %.17g/%.17g", n, avg2, var, m, s);
}
static int64_t refdays(int64_t y, unsigned m, unsigned d)
{ // count from year 0 by whole years
  static const int cum[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
  auto leap = [](int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
  auto fl = [](int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
  int64_t p = y - 1;
  int64_t days = 365 * y + (fl(p, 4) - fl(p, 100) + fl(p, 400)) + 1; // days before 1 January y, relative to 1 January 0
  int64_t e = 1969, epoch = 365 * 1970 + (e / 4 - e / 100 + e / 400) + 1;
  return days - epoch + cum[m - 1] + (m > 2 && leap(y)) + d - 1;
}
static void calendar(Rng& r)
{
  for(int i = 0; i < 8; ++i)
  {
    int64_t y = r.chance(1, 4) ? r.range(-100000, 100000) : r.range(-50, 2500);
    if(r.chance(1, 3)) y = y / 100 * 100;
    unsigned m = (unsigned)r.range(1, 12);
    static const int len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    unsigned d = (unsigned)r.range(1, len[m - 1] + (m == 2 && leap));
    if(r.chance(1, 4)) { m = r.chance(1, 2) ? 2 : 3; d = m == 2 ? 28 + leap : 1; }
    mon::op("days %lld-%u-%u", (long long)y, m, d);
    int64_t a = DaysFromCivil<int64_t>(y, m, d), e = refdays(y, m, d);
    CHECK(a == e, "math:days", "DaysFromCivil(%lld, %u, %u) is %lld, expected %lld", (long long)y, m, d, (long long)a, (long long)e);
    CHECK(DaysFromCivil<int>((int)y, m, d) == e, "math:days", "DaysFromCivil<int>(%lld, %u, %u)", (long long)y, m, d);
  }
}
static void randoms(Rng& r)
{
  uint64_t seed = r.next();
  XorshiftEngine64 e(seed ? seed : 1);
  int64_t a = r.range(-1000000, 1000000), b = a + r.range(1, r.chance(1, 2) ? 5 : 1000000);
  mon::op("rand [%lld,%lld) seed %llx", (long long)a, (long long)b, (unsigned long long)seed);
  for(int i = 0; i < 50; ++i)
  {
    int64_t v = bssrand<int64_t, XorshiftEngine64>(a, b, e);
    CHECK(v >= a && v < b, "math:rand-range", "bssrand(%lld, %lld) gave %lld", (long long)a, (long long)b, (long long)v);
    double d = bssrand<double, XorshiftEngine64>((double)a, (double)b, e);
    CHECK(d >= a && d < b, "math:rand-range", "bssrand(%lld, %lld) gave %.17g", (long long)a, (long long)b, d);
    v = bssRandInt(a, b);
    CHECK(v >= a && v < b, "math:rand-range", "bssRandInt(%lld, %lld) gave %lld", (long long)a, (long long)b, (long long)v);
  }
  int n = (int)r.below(40);
  int* p = (int*)malloc(sizeof(int) * n + 1);
  for(int i = 0; i < n; ++i) p[i] = i;
  if(r.chance(1, 2)) Shuffle<int, int, XorshiftEngine64>(p, n, e);
  else Shuffle<int>(p, n);
  std::vector<int> cnt(n);
  for(int i = 0; i < n; ++i)
  {
    CHECK(p[i] >= 0 && p[i] < n && !cnt[p[i]]++, "math:shuffle", "shuffling %d elements lost or duplicated one", n);
  }
  free(p);
}
// Gauss-Legendre quadrature with N points integrates polynomials of degree 2N-1 exactly
static double poly_at(double x, const double* c, int n) { double v = 0; for(int i = n; i >= 0; --i) v = v * x + c[i]; return v; }
template<int N> static void quadrature(Rng& r)
{
  double c[10], a = r.unit() * 6 - 3, b = r.chance(1, 8) ? a : r.unit() * 6 - 3, e = 0, size = 0;
  for(int i = 0; i < 10; ++i) c[i] = i < 2 * N ? r.unit() * 2 - 1 : 0;
  for(int i = 0; i < 2 * N; ++i)
  {
    e += c[i] * (std::pow(b, i + 1) - std::pow(a, i + 1)) / (i + 1);
    size += std::fabs(c[i]) * (std::pow(std::fabs(b), i + 1) + std::pow(std::fabs(a), i + 1) + 1);
  }
  mon::op("quadrature %d over %g..%g", N, a, b);
  double got = GaussianQuadrature<double, N, const double*, int>(a, b, &poly_at, c, 2 * N - 1);
  CHECK(std::fabs(got - e) <= 1e-11 * size, "math:quadrature", "quadrature with %d points gives %.17g, the integral is %.17g", N, got, e);
}

static void curves(Rng& r)
{
  auto rv = [&] { return (r.unit() - .5) * 20; };
  double p0 = rv(), p1 = rv(), p2 = rv(), p3 = rv(), t = r.unit();
  mon::op("curves %g %g %g %g t %g", p0, p1, p2, p3, t);
  double u = 1 - t;
  auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); };
  CHECK(near(UniformQuadraticBSpline<double, double>(t, p0, p1, p2), .5 * (u * u * p0 + (1 + 2 * t - 2 * t * t) * p1 + t * t * p2)), "math:curve", "quadratic B-spline");
  CHECK(near(UniformCubicBSpline<double, double>(t, p0, p1, p2, p3), (u * u * u * p0 + (3 * t * t * t - 6 * t * t + 4) * p1 + (-3 * t * t * t + 3 * t * t + 3 * t + 1) * p2 + t * t * t * p3) / 6), "math:curve", "cubic B-spline");
  CHECK(near(CubicBSpline<double, double>(t, p0, p1, p2, p3), p1 + .5 * t * (p2 - p0 + t * (2 * p0 - 5 * p1 + 4 * p2 - p3 + t * (3 * (p1 - p2) + p3 - p0)))), "math:curve", "cubic interpolation");
  CHECK(near(QuadraticBezierCurve<double, double>(t, p0, p1, p2), u * u * p0 + 2 * u * t * p1 + t * t * p2), "math:curve", "quadratic Bezier");
  { float q0 = (float)p0, q1 = (float)p1, q2 = (float)p2, q3 = (float)p3, b = BezierCurve<float, float>((float)t, q0, q1, q2, q3); CHECK(std::fabs(b - (u * u * u * p0 + 3 * u * u * t * p1 + 3 * u * t * t * p2 + t * t * t * p3)) < 1e-4 * (1 + std::fabs(b)), "math:curve", "cubic Bezier gives %g", b); }
  // splitting a curve: both halves trace the original
  double P0[2] = { p0, rv() }, P1[2] = { p1, rv() }, P2[2] = { p2, rv() }, P3[2] = { p3, rv() }, N1[2], N2[2], N3[2], R1[2], R2[2];
  auto cub = [](double t, double a, double b, double c, double d) { double u = 1 - t; return u * u * u * a + 3 * u * u * t * b + 3 * u * t * t * c + t * t * t * d; };
  SplitCubic<double, 2>(t, P0, P1, P2, P3, N1, N2, N3, R1, R2);
  double s = r.unit();
  for(int i = 0; i < 2; ++i)
  {
    CHECK(near(cub(s, P0[i], N1[i], N2[i], N3[i]), cub(s * t, P0[i], P1[i], P2[i], P3[i])) && near(cub(s, N3[i], R1[i], R2[i], P3[i]), cub(t + s * u, P0[i], P1[i], P2[i], P3[i])), "math:split", "a cubic split at %g does not trace the original", t);
  }
  auto qua = [](double t, double a, double b, double c) { double u = 1 - t; return u * u * a + 2 * u * t * b + t * t * c; };
  SplitQuadratic<double, 2>(t, P0, P1, P2, N1, N2, R1);
  for(int i = 0; i < 2; ++i)
    CHECK(near(qua(s, P0[i], N1[i], N2[i]), qua(s * t, P0[i], P1[i], P2[i])) && near(qua(s, N2[i], R1[i], P2[i]), qua(t + s * u, P0[i], P1[i], P2[i])), "math:split", "a quadratic split at %g does not trace the original", t);
  // equations with known, well separated roots
  double a = (r.chance(1, 2) ? 1 : -1) * (.5 + r.unit() * 4), r1 = rv(), r2 = r1 + 1 + r.unit() * 10, r3 = r2 + 1 + r.unit() * 10, q[2];
  SolveQuadratic<double>(a, -a * (r1 + r2), a * r1 * r2, q);
  if(q[0] > q[1]) std::swap(q[0], q[1]);
  CHECK(std::fabs(q[0] - r1) < 1e-4 && std::fabs(q[1] - r2) < 1e-4, "math:quadratic", "the roots %g and %g came out as %g and %g", r1, r2, q[0], q[1]);
  double c[3];
  int n = solveCubic<double>(a, -a * (r1 + r2 + r3), a * (r1 * r2 + r1 * r3 + r2 * r3), -a * r1 * r2 * r3, c);
  CHECK(n == 3, "math:cubic", "a cubic with three real roots reports %d", n);
  std::sort(c, c + 3);
  double ct = 1e-4 * (10 + std::fabs(r1) + std::fabs(r3));
  CHECK(std::fabs(c[0] - r1) < ct && std::fabs(c[1] - r2) < ct && std::fabs(c[2] - r3) < ct, "math:cubic", "the roots %g, %g and %g came out as %g, %g and %g", r1, r2, r3, c[0], c[1], c[2]);
  double w = .7 + r.unit() * 3, h = rv(); // (t-r1)((t-h)^2+w^2)
  // Cardano's formula takes a cube root of a cancelling difference, so the error may reach the cube root of the rounding error times the size of the roots
  n = solveCubic<double>(a, a * (-2 * h - r1), a * (h * h + w * w + 2 * h * r1), -a * r1 * (h * h + w * w), c);
  CHECK(n == 1 && std::fabs(c[0] - r1) < 1e-4 * (10 + std::fabs(r1) + std::fabs(h) + w), "math:cubic", "the only real root %g came out as %g (%d roots)", r1, c[0], n);
  // root finding
  double root;
  auto F = [&](double x) { return (x - r1) * (x - r1) * (x - r1) + (x - r1); };
  auto dF = [&](double x) { return 3 * (x - r1) * (x - r1) + 1; };
  if(NewtonRaphson<double>(root, r1 + rv() * .2, F, dF, 1e-9, 50)) CHECK(std::fabs(root - r1) < 1e-8, "math:newton", "Newton's method claims a root at %.17g, it is at %.17g", root, r1);
  else CHECK(false, "math:newton", "Newton's method did not converge from nearby");
  root = NewtonRaphsonBisection<double>(r1 + rv() * .2, r1 - 50, r1 + 70, F, dF, 1e-9);
  CHECK(std::fabs(root - r1) < 1e-6, "math:newton", "the hybrid root finder returned %.17g, the root is %.17g", root, r1);
  double steep = std::ldexp(1, (int)r.range(-1, 7)); // Newton's method alone jumps back and forth across the root of this one
  root = NewtonRaphsonBisection<double>(r1 + rv(), r1 - 5000 * (r.unit() + .1), r1 + 5000 * (r.unit() + .1), [&](double x) { return std::atan(steep * (x - r1)); }, [&](double x) { return steep / (1 + steep * steep * (x - r1) * (x - r1)); }, 1e-9);
  CHECK(std::fabs(root - r1) < 1e-4, "math:newton", "the hybrid root finder returned %.17g for the arcus tangent, the root is %.17g", root, r1);
  CHECK(DistSqr<double>(p0, p1, p2, p3) == (p0 - p2) * (p0 - p2) + (p1 - p3) * (p1 - p3), "math:dist", "squared distance");
  double dd = std::hypot(p0 - p2, p1 - p3);
  CHECK(std::fabs(Dist<double>(p0, p1, p2, p3) - dd) <= 1e-6 * (1 + dd), "math:dist", "distance");
  CHECK(std::fabs(bss::fLength((float)p0, (float)p1) - std::hypot(p0, p1)) <= .15 * std::hypot(p0, p1) + 1e-6, "math:dist", "fLength(%g, %g) is %g", p0, p1, bss::fLength((float)p0, (float)p1));
}
struct Node { int id; Node* l; Node* rr; };
static std::vector<int>* visited;
static int stopat;
static bool act(Node* n) { visited->push_back(n->id); return n->id == stopat; }
static Node* lc(Node* n) { return n->l; }
static Node* rc(Node* n) { return n->rr; }
static void breadth(Rng& r)
{
  int n = (int)r.range(0, 40);
  std::vector<Node> t(n);
  for(int i = 0; i < n; ++i) t[i] = Node{ i, 0, 0 };
  bool line = r.chance(1, 3);
  for(int i = 1; i < n; ++i)
    for(;;)
    {
      Node& p = t[line ? i - 1 : r.below(i)];
      Node*& s = r.chance(1, 2) ? p.l : p.rr;
      if(!s) { s = &t[i]; break; }
    }
  stopat = r.chance(1, 3) ? (int)r.below(n + 1) : -1;
  mon::op("breadth-first n %d stop %d%s", n, stopat, line ? " line" : "");
  std::vector<int> seen, ref;
  visited = &seen;
  BreadthFirstTree<Node, act, lc, rc>(n ? &t[0] : 0, n);
  std::vector<Node*> q;
  if(n) q.push_back(&t[0]);
  for(size_t i = 0; i < q.size(); ++i)
  {
    ref.push_back(q[i]->id);
    if(q[i]->id == stopat) break;
    if(q[i]->l) q.push_back(q[i]->l);
    if(q[i]->rr) q.push_back(q[i]->rr);
  }
  CHECK(seen == ref, "math:breadth-first", "a tree of %d nodes was visited in the wrong order (%zu visits, expected %zu)", n, seen.size(), ref.size());
}
void mon_case(Rng& r, uint64_t c)
{
  static bool once = (limits(std::make_integer_sequence<int, 64>()), true);
  (void)once;
  for(int k = 0; k < 4; ++k)
    switch(r.below(15))
    {
    case 0: bits<uint8_t>(r, "u8"); break;
    case 1: bits<uint16_t>(r, "u16"); break;
    case 2: bits<uint32_t>(r, "u32"); break;
    case 3: bits<uint64_t>(r, "u64"); break;
    case 4: bits<int8_t>(r, "i8"); break;
    case 5: bits<int16_t>(r, "i16"); break;
    case 6: bits<int32_t>(r, "i32"); break;
    case 7: bits<int64_t>(r, "i64"); break;
    case 8: if(r.chance(1, 2)) mulext<int32_t>(r, "i32"); else mulext<uint32_t>(r, "u32"); break;
    case 9: if(r.chance(1, 2)) mulext<int64_t>(r, "i64"); else mulext<uint64_t>(r, "u64"); break;
    case 10: if(r.chance(1, 2)) floats<float, int32_t>(r, "float", -40, 40); else floats<double, int64_t>(r, "double", -200, 200); break;
    case 11: if(r.chance(1, 2)) stats(r); else calendar(r); break;
    case 12: randoms(r); break;
    case 13:
      curves(r);
      quadrature<1>(r); quadrature<2>(r); quadrature<3>(r); quadrature<4>(r); quadrature<5>(r);
      break;
    case 14: breadth(r); break;
    }
  mon::nontrivial();
}
