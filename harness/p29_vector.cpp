// Monitor for vectors, matrices and the SIMD wrappers: every operation against plain scalar arithmetic on the components.
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/vector.h"
#include <math.h>
#include <string.h>
#include <array>
using namespace bss;
using mon::Rng;

// Components are small integers (in floating point: integers times a power of two), so sums, products and determinants are exact in every type
// and compared exactly; square roots, rotations and inverses of general matrices are compared with a tolerance.
template<class T> static T small(Rng& r, int k) { return (T)r.range(-k, k); }
template<class T> static T nonzero(Rng& r, int k) { T v; do v = small<T>(r, k); while(v == 0); return v; }
template<class T> static void fill(Rng& r, T* p, int n, int k) { for(int i = 0; i < n; ++i) { p[i] = small<T>(r, k); mon::note((uint64_t)(int64_t)p[i]); } }
template<class T> static const char* tn() { return std::is_same<T, float>::value ? "float" : std::is_same<T, double>::value ? "double" : std::is_same<T, int>::value ? "int" : "int64"; }
template<class T> static void same(const char* key, const T* got, const T* want, int n, const char* what)
{
  for(int i = 0; i < n; ++i) CHECK(got[i] == want[i], key, "%s of %s: component %d is %g, expected %g", what, tn<T>(), i, (double)got[i], (double)want[i]);
}
static bool near(long double a, long double b, long double tol) { return fabsl(a - b) <= tol * (1 + fabsl(b)); }
template<class T> static long double EPS() { return std::is_same<T, float>::value ? 3e-5L : 1e-9L; } // the library's square root is an approximation
template<class T> static long double sqrtTol() { return std::is_same<T, float>::value ? 1e-5L : 1e-6L; }

template<class T, int N> static void vecops(Rng& r)
{
  typedef Vector<T, N> V;
  T a[N], b[N], w[N];
  fill(r, a, N, 40); fill(r, b, N, 40);
  V A(a), B(b);
  mon::op("vector<%s,%d> %g %g | %g %g", tn<T>(), N, (double)a[0], (double)a[1], (double)b[0], (double)b[1]);
  same("vector:construct", A.v, a, N, "construction from an array");
  { std::array<T, N> s; for(int i = 0; i < N; ++i) s[i] = a[i]; V C(s); same("vector:construct", C.v, a, N, "construction from std::array"); }
  if constexpr(N == 2) { V C = { a[0], a[1] }; same("vector:construct", C.v, a, N, "construction from a list"); }
  if constexpr(N == 3) { V C = { a[0], a[1], a[2] }; same("vector:construct", C.v, a, N, "construction from a list"); }
  if constexpr(N == 4) { V C = { a[0], a[1], a[2], a[3] }; same("vector:construct", C.v, a, N, "construction from a list"); V E = { a[0], a[1], a[2], a[3], b[0] }; same("vector:construct", E.v, a, N, "construction from a longer list"); }
  if constexpr(N == 5) { V C = { a[0], a[1], a[2], a[3], a[4] }; same("vector:construct", C.v, a, N, "construction from a list"); }
  { V C(b[0]); for(int i = 0; i < N; ++i) w[i] = b[0]; same("vector:construct", C.v, w, N, "construction from a scalar"); }
  { V C(A); same("vector:copy", C.v, a, N, "copy"); C = B; same("vector:copy", C.v, b, N, "assignment"); }
  { Vector<double, N> C(A); for(int i = 0; i < N; ++i) CHECK(C.v[i] == (double)a[i], "vector:convert", "conversion between vector types, component %d", i); Vector<double, N> D(0.0); D = A; for(int i = 0; i < N; ++i) CHECK(D.v[i] == (double)a[i], "vector:convert", "assignment between vector types"); }
  // arithmetic with vectors and scalars
  T s = small<T>(r, 30), d = nonzero<T>(r, 9), nz[N];
  for(int i = 0; i < N; ++i) nz[i] = nonzero<T>(r, 9);
  V NZ(nz);
#define BIN(expr, val, what) do { V R_ = (expr); for(int i = 0; i < N; ++i) w[i] = (T)(val); same("vector:arith", R_.v, w, N, what); } while(0)
  BIN(A + B, a[i] + b[i], "v+v"); BIN(A - B, a[i] - b[i], "v-v"); BIN(A * B, a[i] * b[i], "v*v"); BIN(A / NZ, a[i] / nz[i], "v/v");
  BIN(A + s, a[i] + s, "v+s"); BIN(A - s, a[i] - s, "v-s"); BIN(A * s, a[i] * s, "v*s"); BIN(A / d, a[i] / d, "v/s");
  BIN(s + A, s + a[i], "s+v"); BIN(s - A, s - a[i], "s-v"); BIN(s * A, s * a[i], "s*v"); BIN(s / NZ, s / nz[i], "s/v");
  BIN(-A, -a[i], "-v");
#define ASG(op_, rhs, val, what) do { V R_(A); V& q_ = (R_ op_ rhs); CHECK(&q_ == &R_, "vector:assign", what " does not return its target"); for(int i = 0; i < N; ++i) w[i] = (T)(val); same("vector:assign", R_.v, w, N, what); } while(0)
  ASG(+=, B, a[i] + b[i], "v+=v"); ASG(-=, B, a[i] - b[i], "v-=v"); ASG(*=, B, a[i] * b[i], "v*=v"); ASG(/=, NZ, a[i] / nz[i], "v/=v");
  ASG(+=, s, a[i] + s, "v+=s"); ASG(-=, s, a[i] - s, "v-=s"); ASG(*=, s, a[i] * s, "v*=s"); ASG(/=, d, a[i] / d, "v/=s");
  { V R_(A); R_ += R_; for(int i = 0; i < N; ++i) w[i] = a[i] + a[i]; same("vector:assign", R_.v, w, N, "v+=itself"); R_ -= R_; for(int i = 0; i < N; ++i) w[i] = 0; same("vector:assign", R_.v, w, N, "v-=itself"); }
  same("vector:operand", A.v, a, N, "left operand after use"); same("vector:operand", B.v, b, N, "right operand after use");
  // comparisons
  if(r.chance(1, 2)) { int k = (int)r.below(N + 1); for(int i = 0; i < k; ++i) { b[i] = a[i]; B.v[i] = a[i]; } }
  int c = 0; bool eqs = true, gts = true, lts = true, ges = true, les = true;
  for(int i = 0; i < N; ++i) { if(!c) c = a[i] < b[i] ? -1 : a[i] > b[i]; eqs &= a[i] == s; gts &= a[i] > s; lts &= a[i] < s; ges &= a[i] >= s; les &= a[i] <= s; }
  CHECK((A == B) == !c && (A != B) == !!c, "vector:compare", "equality of vectors");
  CHECK((A < B) == (c < 0) && (A > B) == (c > 0) && (A <= B) == (c <= 0) && (A >= B) == (c >= 0), "vector:compare", "vectors do not compare component by component");
  CHECK((A == s) == eqs && (A != s) == !eqs && (A > s) == gts && (A < s) == lts && (A >= s) == ges && (A <= s) == les, "vector:scalar", "comparison of a vector with a scalar");
  // products and lengths
  T dot = 0, dsq = 0, len2 = 0;
  for(int i = 0; i < N; ++i) { dot += a[i] * b[i]; dsq += (a[i] - b[i]) * (a[i] - b[i]); len2 += a[i] * a[i]; }
  CHECK(A.Dot(B) == dot && B.Dot(A) == dot, "vector:dot", "dot product is %g, expected %g", (double)A.Dot(B), (double)dot);
  CHECK(A.DistanceSq(B) == dsq && B.DistanceSq(A) == dsq, "vector:distance", "squared distance is %g, expected %g", (double)A.DistanceSq(B), (double)dsq);
  CHECK((NVectorDistanceSq<T, N>(A.v, B.v)) == dsq && (NVectorDot<T, N>(A.v, B.v)) == dot, "vector:dot", "free functions disagree");
  long double fl = sqrtl((long double)len2), fd = sqrtl((long double)dsq);
  if(std::is_integral<T>::value)
  {
    CHECK((int64_t)A.Length() == (int64_t)fl && (int64_t)A.Distance(B) == (int64_t)fd, "vector:length", "integer length %g distance %g", (double)A.Length(), (double)A.Distance(B));
  }
  else
  {
    CHECK(near(A.Length(), fl, sqrtTol<T>()), "vector:length", "length is %g, expected %Lg", (double)A.Length(), fl);
    CHECK(near(A.Distance(B), fd, sqrtTol<T>()) && near(B.Distance(A), fd, sqrtTol<T>()), "vector:distance", "distance is %g, expected %Lg", (double)A.Distance(B), fd);
    if(len2 != 0)
    {
      V n = A.Normalize();
      for(int i = 0; i < N; ++i) CHECK(near(n.v[i], a[i] / fl, sqrtTol<T>()), "vector:normalize", "component %d of the unit vector is %g, expected %Lg", i, (double)n.v[i], a[i] / fl);
      same("vector:operand", A.v, a, N, "vector after Normalize");
    }
  }
  { V n = A.Abs(); for(int i = 0; i < N; ++i) w[i] = a[i] < 0 ? -a[i] : a[i]; same("vector:abs", n.v, w, N, "Abs"); }
  mon::nontrivial();
}
template<class T, int N, int K> static void outer(Rng& r)
{
  Vector<T, N> A; Vector<T, K> B;
  fill(r, A.v, N, 30); fill(r, B.v, K, 30);
  BSS_ALIGN(16) T out[N][K];
  mon::op("outer<%s,%d,%d>", tn<T>(), N, K);
  A.template Outer<K>(B, out);
  for(int i = 0; i < N; ++i) for(int j = 0; j < K; ++j) CHECK(out[i][j] == A.v[i] * B.v[j], "vector:outer", "outer product [%d][%d]", i, j);
  mon::nontrivial();
}
template<class T> static void special(Rng& r)
{
  mon::op("special<%s>", tn<T>());
  { // 2D
    Vector<T, 2> a(small<T>(r, 50), small<T>(r, 50)), b(small<T>(r, 50), small<T>(r, 50));
    CHECK(a.Cross(b) == a.x * b.y - a.y * b.x && a.Cross(b.x, b.y) == a.x * b.y - a.y * b.x, "vector:cross2", "2D cross product");
    CHECK(a.yx().x == a.y && a.yx().y == a.x, "vector:swizzle", "yx");
    if constexpr(std::is_floating_point<T>::value)
    {
      T ang = (T)(r.range(-4000, 4000) / 500.0);
      Vector<T, 2> c = a.Rotate(ang, b);
      long double dx = a.x - b.x, dy = a.y - b.y, C = cosl(ang), S = sinl(ang);
      CHECK(fabsl(c.x - (dx * C - dy * S + b.x)) <= 200 * EPS<T>() && fabsl(c.y - (dy * C + dx * S + b.y)) <= 200 * EPS<T>(), "vector:rotate", "rotation about a point");
      Vector<T, 2> p = Vector<T, 2>::ToPolar(a), q = Vector<T, 2>::FromPolar(p);
      CHECK(near(p.x, sqrtl((long double)(a.x * a.x + a.y * a.y)), sqrtTol<T>()), "vector:polar", "radius");
      if(a.x != 0 || a.y != 0) CHECK(fabsl(p.y - atan2l(a.y, a.x)) <= EPS<T>(), "vector:polar", "angle");
      CHECK(fabsl(q.x - a.x) <= 100 * sqrtTol<T>() && fabsl(q.y - a.y) <= 100 * sqrtTol<T>(), "vector:polar", "polar coordinates do not come back: (%g,%g) became (%g,%g)", (double)a.x, (double)a.y, (double)q.x, (double)q.y);
    }
  }
  { // 3D
    T u[3], v[3]; fill(r, u, 3, 40); fill(r, v, 3, 40);
    Vector<T, 3> a(u), b(v), c = a.Cross(b);
    CHECK(c.x == u[1] * v[2] - u[2] * v[1] && c.y == u[2] * v[0] - u[0] * v[2] && c.z == u[0] * v[1] - u[1] * v[0], "vector:cross3", "cross product");
    const T x = u[0], y = u[1], z = u[2];
#define SW2(n, p, q) CHECK(a.n().v[0] == p && a.n().v[1] == q, "vector:swizzle", #n)
#define SW3(n, p, q, s) CHECK(a.n().v[0] == p && a.n().v[1] == q && a.n().v[2] == s, "vector:swizzle", #n)
    SW2(xz, x, z); SW2(zx, z, x); SW2(zy, z, y); SW2(yz, y, z); SW2(yx, y, x);
    SW3(xzy, x, z, y); SW3(zxy, z, x, y); SW3(zyx, z, y, x); SW3(yzx, y, z, x); SW3(yxz, y, x, z);
    CHECK(a.xy.x == x && a.xy.y == y, "vector:swizzle", "xy");
  }
  { // 4D
    T u[4]; fill(r, u, 4, 40);
    Vector<T, 4> a(u);
    const T x = u[0], y = u[1], z = u[2], w = u[3];
    SW2(xz, x, z); SW2(xw, x, w); SW2(zx, z, x); SW2(zy, z, y); SW2(zw, z, w); SW2(yz, y, z); SW2(yx, y, x); SW2(yw, y, w);
    SW3(xyw, x, y, w); SW3(xzy, x, z, y); SW3(xzw, x, z, w); SW3(xwy, x, w, y); SW3(xwz, x, w, z); SW3(zxy, z, x, y); SW3(zxw, z, x, w); SW3(zyx, z, y, x); SW3(zyw, z, y, w); SW3(zwx, z, w, x); SW3(zwy, z, w, y);
    SW3(wxy, w, x, y); SW3(wxz, w, x, z); SW3(wyx, w, y, x); SW3(wyz, w, y, z); SW3(wzx, w, z, x); SW3(wzy, w, z, y);
#define SW4(n, p, q, s, t) CHECK(a.n().v[0] == p && a.n().v[1] == q && a.n().v[2] == s && a.n().v[3] == t, "vector:swizzle", #n)
    SW4(xywz, x, y, w, z); SW4(xzyw, x, z, y, w); SW4(xzwy, x, z, w, y); SW4(xwyz, x, w, y, z); SW4(xwzy, x, w, z, y); SW4(zxyw, z, x, y, w); SW4(zxwy, z, x, w, y); SW4(zyxw, z, y, x, w); SW4(zywx, z, y, w, x);
    SW4(zwxy, z, w, x, y); SW4(zwyx, z, w, y, x); SW4(wxyz, w, x, y, z); SW4(wxzy, w, x, z, y); SW4(wyxz, w, y, x, z); SW4(wyzx, w, y, z, x); SW4(wzxy, w, z, x, y); SW4(wzyx, w, z, y, x);
    CHECK(a.xyz.x == x && a.xyz.z == z && a.xy.y == y && a.rgb.z == z && a.a == w, "vector:swizzle", "members");
  }
  { // generic swizzle
    T u[5]; fill(r, u, 5, 40);
    Vector<T, 5> a(u);
    auto s = a.template Swizzle<4, 0, 2>();
    CHECK(s.v[0] == u[4] && s.v[1] == u[0] && s.v[2] == u[2], "vector:swizzle", "Swizzle<4,0,2>");
  }
  if constexpr(std::is_floating_point<T>::value)
  { // area of a triangle with legs along the axes, and of any triangle in 3D by the cross product
    T o[3], p[3], q[3]; fill(r, o, 3, 20); fill(r, p, 3, 20); fill(r, q, 3, 20);
    long double e[3], f[3];
    for(int i = 0; i < 3; ++i) { e[i] = p[i] - o[i]; f[i] = q[i] - o[i]; }
    long double cx = e[1] * f[2] - e[2] * f[1], cy = e[2] * f[0] - e[0] * f[2], cz = e[0] * f[1] - e[1] * f[0], area = sqrtl(cx * cx + cy * cy + cz * cz) / 2;
    long double l = sqrtl(e[0] * e[0] + e[1] * e[1] + e[2] * e[2]) + sqrtl(f[0] * f[0] + f[1] * f[1] + f[2] * f[2]);
    if(area > 0.05L * l * l) // Heron's formula is ill-conditioned for slivers
    {
      T g = NTriangleArea<T, 3>(o, p, q);
      CHECK(near(g, area, 1e-3L), "vector:area", "triangle area %g, expected %Lg", (double)g, area);
    }
  }
  mon::nontrivial();
}

// ---- matrices
template<class T, int M, int N, int P> static void matmul(Rng& r)
{
  Matrix<T, M, N> a; Matrix<T, N, P> b;
  fill(r, &a.v[0][0], M * N, 20); fill(r, &b.v[0][0], N * P, 20);
  T w[M][P];
  for(int i = 0; i < M; ++i) for(int j = 0; j < P; ++j) { w[i][j] = 0; for(int k = 0; k < N; ++k) w[i][j] += a.v[i][k] * b.v[k][j]; }
  mon::op("matmul<%s,%d,%d,%d>", tn<T>(), M, N, P);
  const Matrix<T, M, P> c = a * b;
  same("matrix:multiply", &c.v[0][0], &w[0][0], M * P, "matrix product");
  Vector<T, N> v; fill(r, v.v, N, 20);
  { Vector<T, M> u = a * v; T x[M]; for(int i = 0; i < M; ++i) { x[i] = 0; for(int k = 0; k < N; ++k) x[i] += a.v[i][k] * v.v[k]; } same("matrix:column", u.v, x, M, "matrix times column vector"); }
  { Vector<T, P> u = v * b; T x[P]; for(int j = 0; j < P; ++j) { x[j] = 0; for(int k = 0; k < N; ++k) x[j] += v.v[k] * b.v[k][j]; } same("matrix:row", u.v, x, P, "row vector times matrix"); }
  if constexpr(N == P)
  { // in place, and with all three the same
    Matrix<T, M, N> d(a); d *= b; same("matrix:inplace", &d.v[0][0], &w[0][0], M * N, "matrix *=");
    Vector<T, N> u(v); T x[N]; for(int j = 0; j < N; ++j) { x[j] = 0; for(int k = 0; k < N; ++k) x[j] += v.v[k] * b.v[k][j]; }
    u *= b; same("matrix:inplace", u.v, x, N, "vector *= matrix");
    if constexpr(M == N)
    {
      T y[N][N]; for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) { y[i][j] = 0; for(int k = 0; k < N; ++k) y[i][j] += a.v[i][k] * a.v[k][j]; }
      Matrix<T, N, N> s(a); s *= s; same("matrix:square", &s.v[0][0], &y[0][0], N * N, "matrix times itself in place");
    }
  }
  mon::nontrivial();
}
template<class T, int M, int N> static void initlist(const T(&)[M][N], const Matrix<T, M, N>&) {}
template<class T> static void initlist(const T(&m)[2][2], const Matrix<T, 2, 2>& a) { Matrix<T, 2, 2> l = { m[0][0], m[0][1], m[1][0], m[1][1] }; CHECK(l == a, "matrix:list", "2x2 from a list"); }
template<class T> static void initlist(const T(&m)[3][3], const Matrix<T, 3, 3>& a) { Matrix<T, 3, 3> l = { m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2] }; CHECK(l == a, "matrix:list", "3x3 from a list"); }
template<class T> static void initlist(const T(&m)[4][4], const Matrix<T, 4, 4>& a) { Matrix<T, 4, 4> l = { m[0][0], m[0][1], m[0][2], m[0][3], m[1][0], m[1][1], m[1][2], m[1][3], m[2][0], m[2][1], m[2][2], m[2][3], m[3][0], m[3][1], m[3][2], m[3][3] }; CHECK(l == a, "matrix:list", "4x4 from a list"); }
template<class T> static void initlist(const T(&m)[2][3], const Matrix<T, 2, 3>& a) { Matrix<T, 2, 3> l = { m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2] }; CHECK(l == a, "matrix:list", "2x3 from a list"); }
template<class T, int D, class X> static void diag(const T(&)[D], const X&) {}
template<class T> static void diag(const T(&d)[2], const Matrix<T, 2, 2>& w) { Matrix<T, 2, 2> m; Matrix<T, 2, 2>::Diagonal(d[0], d[1], m); CHECK(m == w, "matrix:diagonal", "2 scalars"); }
template<class T> static void diag(const T(&d)[3], const Matrix<T, 3, 3>& w) { Matrix<T, 3, 3> m; Matrix<T, 3, 3>::Diagonal(d[0], d[1], d[2], m); CHECK(m == w, "matrix:diagonal", "3 scalars"); }
template<class T> static void diag(const T(&d)[4], const Matrix<T, 4, 4>& w) { Matrix<T, 4, 4> m; Matrix<T, 4, 4>::Diagonal(d[0], d[1], d[2], d[3], m); CHECK(m == w, "matrix:diagonal", "4 scalars"); }
template<class T, int M, int N> static void matops(Rng& r)
{
  typedef Matrix<T, M, N> X;
  X a, b, n, c; T w[M * N];
  T *pa = &a.v[0][0], *pb = &b.v[0][0], *pn = &n.v[0][0];
  fill(r, pa, M * N, 40); fill(r, pb, M * N, 40);
  for(int i = 0; i < M * N; ++i) pn[i] = nonzero<T>(r, 9);
  T s = small<T>(r, 30), d = nonzero<T>(r, 9);
  mon::op("matops<%s,%d,%d>", tn<T>(), M, N);
#define MB(expr, val, what) do { X R_ = (expr); for(int i = 0; i < M * N; ++i) w[i] = (T)(val); same("matrix:arith", &R_.v[0][0], w, M * N, what); } while(0)
  MB(a + b, pa[i] + pb[i], "m+m"); MB(a - b, pa[i] - pb[i], "m-m"); MB(a ^ b, pa[i] * pb[i], "m^m"); MB(a / n, pa[i] / pn[i], "m/m");
  MB(a + s, pa[i] + s, "m+s"); MB(a - s, pa[i] - s, "m-s"); MB(a * s, pa[i] * s, "m*s"); MB(a / d, pa[i] / d, "m/s");
  MB(s + a, s + pa[i], "s+m"); MB(s - a, s - pa[i], "s-m"); MB(s * a, s * pa[i], "s*m"); MB(s / n, s / pn[i], "s/m"); MB(-a, -pa[i], "-m");
  { T raw[M][N]; memcpy(raw, a.v, sizeof raw); X e(raw); same("matrix:construct", &e.v[0][0], pa, M * N, "construction from an array"); X f(e); same("matrix:construct", &f.v[0][0], pa, M * N, "copy"); f = b; same("matrix:construct", &f.v[0][0], pb, M * N, "assignment"); }
  { Matrix<double, M, N> e(a); Matrix<double, M, N> f; f = a; for(int i = 0; i < M * N; ++i) CHECK((&e.v[0][0])[i] == (double)pa[i] && (&f.v[0][0])[i] == (double)pa[i], "matrix:convert", "conversion between matrix types"); }
  c = a; CHECK(c == a && !(c != a), "matrix:equal", "a copy differs");
  { int k = (int)r.below(M * N); (&c.v[0][0])[k] += 1; CHECK(c != a && !(c == a), "matrix:equal", "a changed copy (component %d) is equal", k); }
  { X e; for(int i = 0; i < M * N; ++i) (&e.v[0][0])[i] = s; CHECK(e == s && !(e != s), "matrix:equal", "scalar comparison"); int k = (int)r.below(M * N); (&e.v[0][0])[k] += 1; CHECK(e != s && !(e == s), "matrix:equal", "scalar comparison, component %d differs", k); }
  { auto t = ~a; Matrix<T, N, M> t2 = a.Transpose(); T out[N][M]; a.Transpose(out); for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) CHECK(t.v[j][i] == a.v[i][j] && t2.v[j][i] == a.v[i][j] && out[j][i] == a.v[i][j], "matrix:transpose", "[%d][%d]", j, i); }
  X id = X::Identity(), id2; X::Identity(id2);
  for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) CHECK(id.v[i][j] == (T)(i == j) && id2.v[i][j] == (T)(i == j), "matrix:identity", "[%d][%d]", i, j);
  { T ra[M][N]; memset(ra, 1, sizeof ra); X::Identity(ra); same("matrix:identity", &ra[0][0], &id.v[0][0], M * N, "identity in an array"); }
  { Matrix<T, N, M> t3; T to[N][M]; X::Transpose(a.v, to); a.Transpose(t3); for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) CHECK(t3.v[j][i] == a.v[i][j] && to[j][i] == a.v[i][j], "matrix:transpose", "static, [%d][%d]", j, i); }
  initlist(a.v, a);
  const int D = M < N ? M : N;
  T dg[D]; fill(r, dg, D, 40);
  X dm = X::Diagonal(dg), dv; X::Diagonal(Vector<T, D>(dg), dv);
  { T r1[M][N], r2[M][N]; memset(r1, 1, sizeof r1); memset(r2, 2, sizeof r2); X::Diagonal(dg, r1); X::Diagonal(Vector<T, D>(dg), r2); same("matrix:diagonal", &r1[0][0], &dm.v[0][0], M * N, "diagonal in an array"); same("matrix:diagonal", &r2[0][0], &dm.v[0][0], M * N, "diagonal from a vector in an array"); }
  diag(dg, dm);
  for(int i = 0; i < M; ++i) for(int j = 0; j < N; ++j) CHECK(dm.v[i][j] == (i == j ? dg[i] : (T)0) && dv.v[i][j] == (i == j ? dg[i] : (T)0), "matrix:diagonal", "[%d][%d]", i, j);
  mon::nontrivial();
}
// determinant and inverse. The determinant by expansion in 64 bits; a matrix of determinant +-1 has an exact integer inverse.
static int64_t idet(const int64_t* m, int n, int stride)
{
  if(n == 1) return m[0];
  int64_t s = 0, sub[16];
  for(int c = 0; c < n; ++c)
  {
    for(int i = 1; i < n; ++i) for(int j = 0, k = 0; j < n; ++j) if(j != c) sub[(i - 1) * (n - 1) + k++] = m[i * n + j];
    s += (c & 1 ? -1 : 1) * m[c] * idet(sub, n - 1, n - 1);
  }
  return s;
}
template<class T, int N> static void det(Rng& r)
{
  Matrix<T, N, N> a;
  int64_t m[N * N];
  int lim = N == 4 ? 8 : 30;
  for(int i = 0; i < N * N; ++i) m[i] = r.range(-lim, lim);
  if(r.chance(1, 8)) for(int j = 0; j < N; ++j) m[j] = 2 * m[N + j]; // singular
  for(int i = 0; i < N * N; ++i) (&a.v[0][0])[i] = (T)m[i];
  mon::op("det<%s,%d>", tn<T>(), N);
  int64_t d = idet(m, N, N);
  CHECK((int64_t)a.Determinant() == d, "matrix:determinant", "determinant of a %dx%d %s matrix is %g, expected %lld", N, N, tn<T>(), (double)a.Determinant(), (long long)d);
  if constexpr(std::is_floating_point<T>::value)
  {
    // unimodular: a product of elementary row operations and a permutation with signs
    for(int i = 0; i < N * N; ++i) m[i] = (i / N == i % N) ? (r.chance(1, 2) ? 1 : -1) : 0;
    for(int k = 0; k < 6; ++k)
    {
      int x = (int)r.below(N), y = (int)r.below(N), f = (int)r.range(-2, 2);
      if(x == y) continue;
      bool big = false;
      for(int j = 0; j < N; ++j) big |= llabs(m[x * N + j] + f * m[y * N + j]) > 12;
      if(!big) for(int j = 0; j < N; ++j) m[x * N + j] += f * m[y * N + j];
      if(r.chance(1, 3)) for(int j = 0; j < N; ++j) std::swap(m[x * N + j], m[y * N + j]);
    }
    d = idet(m, N, N);
    for(int i = 0; i < N * N; ++i) (&a.v[0][0])[i] = (T)m[i];
    Matrix<T, N, N> inv = a.Inverse(), in2, ip(a);
    a.Inverse(in2);
    ip.Inverse(ip);
    int64_t sub[16];
    for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j)
    {
      for(int p = 0, k = 0; p < N; ++p) for(int q = 0; q < N; ++q) if(p != j && q != i) sub[k++] = m[p * N + q];
      T want = (T)(((i + j) & 1 ? -1 : 1) * idet(sub, N - 1, N - 1) * d);
      CHECK(inv.v[i][j] == want && in2.v[i][j] == want, "matrix:inverse", "the inverse of a %dx%d %s matrix has %g at [%d][%d], expected %g", N, N, tn<T>(), (double)inv.v[i][j], i, j, (double)want);
      CHECK(ip.v[i][j] == want, "matrix:inverse-inplace", "inverting in place: %g at [%d][%d], expected %g", (double)ip.v[i][j], i, j, (double)want);
    }
    // a general, well conditioned matrix: the product with the inverse is the identity
    Matrix<T, N, N> g;
    for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) g.v[i][j] = (T)(r.range(-1000, 1000) / 1000.0 + (i == j ? (r.chance(1, 2) ? 5 : -5) : 0));
    T sc = (T)ldexp(1, (int)r.range(-3, 3));
    g *= sc;
    Matrix<T, N, N> gi = g.Inverse();
    for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j)
    {
      long double s = 0; for(int k = 0; k < N; ++k) s += (long double)g.v[i][k] * gi.v[k][j];
      CHECK(fabsl(s - (i == j)) < (std::is_same<T, float>::value ? 1e-3L : 1e-10L), "matrix:inverse", "matrix times its inverse has %Lg at [%d][%d]", s, i, j);
    }
  }
  mon::nontrivial();
}
// transforms: applied to a point they do what their names say
#define RM(i, j, x) CHECK(fabsl((long double)m.v[i][j] - (x)) <= 100 * EPS<T>(), key, "%s: [%d][%d] is %g, expected %Lg", key, i, j, (double)m.v[i][j], (long double)(x)); CHECK(m.v[i][j] == t.v[j][i], key, "%s: the transposed form differs at [%d][%d]", key, i, j)
template<class T> static void transforms(Rng& r)
{
  T ang = (T)(r.range(-4000, 4000) / 500.0), x = (T)(r.range(-4000, 4000) / 64.0), y = (T)(r.range(-4000, 4000) / 64.0), z = (T)(r.range(-4000, 4000) / 64.0), cx = (T)r.range(-20, 20), cy = (T)r.range(-20, 20);
  bool raw = r.chance(1, 2); // every function also takes a plain array
  long double C = cosl(ang), S = sinl(ang);
  mon::op("transform<%s> %g", tn<T>(), (double)ang);
  { const char* key = "matrix:rotation2"; Matrix<T, 2, 2> m, t; if(raw) Matrix<T, 2, 2>::Rotation(ang, m.v); else Matrix<T, 2, 2>::Rotation(ang, m); if(raw) Matrix<T, 2, 2>::Rotation_T(ang, t.v); else Matrix<T, 2, 2>::Rotation_T(ang, t); RM(0, 0, C); RM(0, 1, -S); RM(1, 0, S); RM(1, 1, C); }
  auto all3 = [&](const char* key, const Matrix<T, 3, 3>& m, const Matrix<T, 3, 3>& t, std::initializer_list<long double> w) { int k = 0; for(long double e : w) { RM(k / 3, k % 3, e); ++k; } };
  auto all4 = [&](const char* key, const Matrix<T, 4, 4>& m, const Matrix<T, 4, 4>& t, std::initializer_list<long double> w) { int k = 0; for(long double e : w) { RM(k / 4, k % 4, e); ++k; } };
  typedef Matrix<T, 3, 3> M3; typedef Matrix<T, 4, 4> M4;
  M3 m, t; M4 m4, t4;
  if(raw) M3::RotationX(ang, m.v); else M3::RotationX(ang, m); if(raw) M3::RotationX_T(ang, t.v); else M3::RotationX_T(ang, t); all3("matrix:rotationX", m, t, { 1, 0, 0, 0, C, -S, 0, S, C });
  if(raw) M3::RotationY(ang, m.v); else M3::RotationY(ang, m); if(raw) M3::RotationY_T(ang, t.v); else M3::RotationY_T(ang, t); all3("matrix:rotationY", m, t, { C, 0, S, 0, 1, 0, -S, 0, C });
  if(raw) M3::RotationZ(ang, m.v); else M3::RotationZ(ang, m); if(raw) M3::RotationZ_T(ang, t.v); else M3::RotationZ_T(ang, t); all3("matrix:rotationZ", m, t, { C, -S, 0, S, C, 0, 0, 0, 1 });
  if(raw) M3::AffineRotation(ang, m.v); else M3::AffineRotation(ang, m); if(raw) M3::AffineRotation_T(ang, t.v); else M3::AffineRotation_T(ang, t); all3("matrix:affineRotation", m, t, { C, -S, 0, S, C, 0, 0, 0, 1 });
  if(raw) M3::Translation(x, y, m.v); else M3::Translation(x, y, m); if(raw) M3::Translation_T(x, y, t.v); else M3::Translation_T(x, y, t); all3("matrix:translation", m, t, { 1, 0, x, 0, 1, y, 0, 0, 1 });
  if(raw) M3::AffineScaling(x, y, m.v); else M3::AffineScaling(x, y, m); all3("matrix:scaling", m, m, { x, 0, 0, 0, y, 0, 0, 0, 1 });
  if(raw) M3::AffineTransform(x, y, ang, cx, cy, m.v); else M3::AffineTransform(x, y, ang, cx, cy, m); if(raw) M3::AffineTransform_T(x, y, ang, cx, cy, t.v); else M3::AffineTransform_T(x, y, ang, cx, cy, t);
  { // turn about (cx,cy), then move by (x,y)
    T px = small<T>(r, 30), py = small<T>(r, 30);
    Vector<T, 3> p(px, py, 1), q = m * p, q2 = p * t;
    long double dx = px - cx, dy = py - cy, ex = dx * C - dy * S + cx + x, ey = dx * S + dy * C + cy + y;
    CHECK(fabsl(q.x - ex) < 400 * EPS<T>() && fabsl(q.y - ey) < 400 * EPS<T>() && q.z == 1, "matrix:affine", "(%g,%g) goes to (%g,%g), expected (%Lg,%Lg)", (double)px, (double)py, (double)q.x, (double)q.y, ex, ey);
    CHECK(fabsl(q2.x - ex) < 400 * EPS<T>() && fabsl(q2.y - ey) < 400 * EPS<T>(), "matrix:affine", "the transposed form differs");
    if(raw) M4::AffineTransform(x, y, z, ang, cx, cy, m4.v); else M4::AffineTransform(x, y, z, ang, cx, cy, m4); if(raw) M4::AffineTransform_T(x, y, z, ang, cx, cy, t4.v); else M4::AffineTransform_T(x, y, z, ang, cx, cy, t4);
    T pz = small<T>(r, 30);
    Vector<T, 4> p4(px, py, pz, 1), r4 = m4 * p4, s4 = p4 * t4;
    CHECK(fabsl(r4.x - ex) < 400 * EPS<T>() && fabsl(r4.y - ey) < 400 * EPS<T>() && fabsl(r4.z - (pz + z)) < 100 * EPS<T>() && r4.w == 1, "matrix:affine4", "(%g,%g,%g) goes to (%g,%g,%g)", (double)px, (double)py, (double)pz, (double)r4.x, (double)r4.y, (double)r4.z);
    CHECK(fabsl(s4.x - ex) < 400 * EPS<T>() && fabsl(s4.y - ey) < 400 * EPS<T>() && fabsl(s4.z - (pz + z)) < 100 * EPS<T>(), "matrix:affine4", "the transposed form differs");
  }
  if(raw) M4::AffineRotationX(ang, m4.v); else M4::AffineRotationX(ang, m4); if(raw) M4::AffineRotationX_T(ang, t4.v); else M4::AffineRotationX_T(ang, t4); all4("matrix:affineRotationX", m4, t4, { 1, 0, 0, 0, 0, C, -S, 0, 0, S, C, 0, 0, 0, 0, 1 });
  if(raw) M4::AffineRotationY(ang, m4.v); else M4::AffineRotationY(ang, m4); if(raw) M4::AffineRotationY_T(ang, t4.v); else M4::AffineRotationY_T(ang, t4); all4("matrix:affineRotationY", m4, t4, { C, 0, S, 0, 0, 1, 0, 0, -S, 0, C, 0, 0, 0, 0, 1 });
  if(raw) M4::AffineRotationZ(ang, m4.v); else M4::AffineRotationZ(ang, m4); if(raw) M4::AffineRotationZ_T(ang, t4.v); else M4::AffineRotationZ_T(ang, t4); all4("matrix:affineRotationZ", m4, t4, { C, -S, 0, 0, S, C, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 });
  if(raw) M4::Translation(x, y, z, m4.v); else M4::Translation(x, y, z, m4); if(raw) M4::Translation_T(x, y, z, t4.v); else M4::Translation_T(x, y, z, t4); all4("matrix:translation4", m4, t4, { 1, 0, 0, x, 0, 1, 0, y, 0, 0, 1, z, 0, 0, 0, 1 });
  if(raw) M4::AffineScaling(x, y, z, m4.v); else M4::AffineScaling(x, y, z, m4); all4("matrix:scaling4", m4, m4, { x, 0, 0, 0, 0, y, 0, 0, 0, 0, z, 0, 0, 0, 0, 1 });
  mon::nontrivial();
}
static void quaternion(Rng& r)
{
  long double q[4], l = 0;
  do { l = 0; for(int i = 0; i < 4; ++i) { q[i] = r.range(-1000, 1000) / 1000.0L; l += q[i] * q[i]; } } while(l < 0.01L);
  for(int i = 0; i < 4; ++i) q[i] /= sqrtl(l);
  long double x = q[0], y = q[1], z = q[2], w = q[3];
  long double R[3][3] = { { 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w) }, { 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w) }, { 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y) } };
  mon::op("quaternion %Lg %Lg %Lg %Lg", x, y, z, w);
  BSS_ALIGN(16) float fq[4] = { (float)x, (float)y, (float)z, (float)w };
  BSS_ALIGN(16) float m4[4][4]; float m3[3][3]; double dq[4] = { (double)x, (double)y, (double)z, (double)w }, d3[3][3];
  FromQuaternion<float, 4>(fq, m4);
  FromQuaternion<float, 3>(fq, m3);
  FromQuaternion<double, 3>(dq, d3);
  for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j)
  {
    CHECK(fabsl(m3[i][j] - R[i][j]) < 1e-5L && fabsl(d3[i][j] - R[i][j]) < 1e-12L, "matrix:quaternion", "rotation matrix of a quaternion [%d][%d] is %g, expected %Lg", i, j, (double)m3[i][j], R[i][j]);
    CHECK(fabsl(m4[i][j] - R[i][j]) < 1e-5L, "matrix:quaternion4", "4x4 rotation matrix of a quaternion [%d][%d] is %g, expected %Lg", i, j, (double)m4[i][j], R[i][j]);
  }
  for(int i = 0; i < 4; ++i) CHECK(m4[3][i] == (float)(i == 3) && m4[i][3] == (float)(i == 3), "matrix:quaternion4", "last row or column");
  mon::nontrivial();
}
static void spline(Rng& r)
{
  BSS_ALIGN(16) float p[4]; BSS_ALIGN(16) float m[4][4];
  fill(r, p, 4, 8); fill(r, &m[0][0], 16, 8);
  float t = r.range(0, 8) / 8.0f;
  mon::op("spline t=%g", t);
  long double a[4] = { (long double)t * t * t, (long double)t * t, t, 1 }, s = 0;
  for(int j = 0; j < 4; ++j) { long double c = 0; for(int k = 0; k < 4; ++k) c += a[k] * m[k][j]; s += c * p[j]; }
  float g = GenericBSpline(t, p, m);
  CHECK(fabsl(g - s) < 1e-2L, "matrix:spline", "spline at %g is %g, expected %Lg", t, g, s);
  BSS_ALIGN(16) float l[4], o[4]; fill(r, l, 4, 20);
  MatrixMultiply1x4<float>(l, m).Set(o);
  BSS_ALIGN(16) int il[4], im[4][4], io[4]; fill(r, il, 4, 20); fill(r, &im[0][0], 16, 20);
  MatrixMultiply1x4<int>(il, im).Set(io);
  for(int j = 0; j < 4; ++j)
  {
    float e = 0; int f = 0;
    for(int k = 0; k < 4; ++k) { e += l[k] * m[k][j]; f += il[k] * im[k][j]; }
    CHECK(o[j] == e && io[j] == f, "matrix:multiply1x4", "component %d", j);
  }
  mon::nontrivial();
}

// ---- SIMD wrappers: component by component
template<class T> static T any(Rng& r)
{
  if(std::is_floating_point<T>::value) return (T)(r.chance(1, 6) ? r.range(-3, 3) : r.range(-100000, 100000) / (r.chance(1, 2) ? 16.0 : 1.0));
  return r.chance(1, 4) ? (T)r.range(-3, 3) : r.chance(1, 6) ? (r.chance(1, 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()) : (T)r.next();
}
template<class T> static void mask(const char* what, const sseVecT<T>& v, const T* a, const T* b, bool (*f)(T, T), int n)
{
  BSS_ALIGN(16) T o[16 / sizeof(T)]; v.Set(o);
  for(int i = 0; i < n; ++i)
  {
    unsigned char x[sizeof(T)]; memcpy(x, &o[i], sizeof(T));
    for(size_t k = 0; k < sizeof(T); ++k) CHECK(x[k] == (f(a[i], b[i]) ? 255 : 0), "sse:compare", "%s lane %d of %d-byte elements", what, i, (int)sizeof(T));
  }
}
#define LANES(expr, val, what) do { S R_ = (expr); BSS_ALIGN(16) T o_[N]; R_.Set(o_); for(int i = 0; i < N; ++i) { T w_ = (T)(val); CHECK(!memcmp(&o_[i], &w_, sizeof(T)) || o_[i] == w_, "sse:arith", "%s lane %d of %d-byte %s elements: %g, expected %g", what, i, (int)sizeof(T), F ? "floating" : "integer", (double)o_[i], (double)w_); } } while(0)
template<class T, int N> static void sse(Rng& r)
{
  typedef sseVecT<T> S;
  const bool F = std::is_floating_point<T>::value;
  typedef typename std::conditional<std::is_floating_point<T>::value, T, uint64_t>::type U; // wrapping arithmetic for integers
  BSS_ALIGN(16) T a[N], b[N], o[N]; T raw[N + 1];
  for(int i = 0; i < N; ++i) { a[i] = any<T>(r); b[i] = r.chance(1, 5) ? a[i] : any<T>(r); mon::note((uint64_t)(int64_t)a[i]); }
  mon::op("sse<%d,%d>", (int)sizeof(T), (int)F);
  T s = any<T>(r);
  S A(a), B(b), K(s);
  memcpy(raw + 1, a, sizeof a);
  LANES(A, a[i], "load"); LANES(K, s, "broadcast"); LANES(S(BSS_UNALIGNED<const T>(raw + 1)), a[i], "unaligned load");
  { S C(B); C = a; LANES(C, a[i], "assign array"); C = s; LANES(C, s, "assign scalar"); C = BSS_UNALIGNED<const T>(raw + 1); LANES(C, a[i], "assign unaligned"); }
  { raw[0] = s; memset(raw + 1, 0, sizeof a); B.Set(BSS_UNALIGNED<T>(raw + 1)); CHECK(!memcmp(raw + 1, b, sizeof b) && !memcmp(raw, &s, sizeof s), "sse:store", "unaligned store"); T f; B.Set(f); CHECK(!memcmp(&f, b, sizeof f), "sse:store", "store of the first lane"); }
  LANES(S::ZeroVector(), 0, "zero");
  LANES(A + B, (T)((U)a[i] + (U)b[i]), "+"); LANES(A - B, (T)((U)a[i] - (U)b[i]), "-");
  { S C(A); C += B; LANES(C, (T)((U)a[i] + (U)b[i]), "+="); C = A; C -= B; LANES(C, (T)((U)a[i] - (U)b[i]), "-="); }
  if constexpr(std::is_floating_point<T>::value || std::is_same<T, int32_t>::value)
  {
    LANES(A * B, (T)((U)a[i] * (U)b[i]), "*"); { S C(A); C *= B; LANES(C, (T)((U)a[i] * (U)b[i]), "*="); }
    LANES(A.min(B), a[i] < b[i] ? a[i] : b[i], "min"); LANES(A.max(B), a[i] > b[i] ? a[i] : b[i], "max");
  }
  if constexpr(!std::is_same<T, char>::value && !std::is_same<T, int16_t>::value) { U t = 0; for(int i = 0; i < N; ++i) t += (U)a[i]; T g = A.Sum(); CHECK((std::is_same<T, float>::value ? fabs((double)g - (double)t) <= 1e-6 * 400000 : g == (T)t), "sse:sum", "sum of the lanes"); }
  if constexpr(std::is_floating_point<T>::value)
  {
    BSS_ALIGN(16) T d[N]; for(int i = 0; i < N; ++i) d[i] = b[i] == 0 ? 1 : b[i];
    S D(d);
    LANES(A / D, a[i] / d[i], "/"); { S C(A); C /= D; LANES(C, a[i] / d[i], "/="); }
  }
  else
  {
    LANES(A & B, a[i] & b[i], "&"); LANES(A | B, a[i] | b[i], "|"); LANES(A ^ B, a[i] ^ b[i], "^"); LANES(~A, ~a[i], "~");
    { S C(A); C &= B; LANES(C, a[i] & b[i], "&="); C = A; C |= B; LANES(C, a[i] | b[i], "|="); C = A; C ^= B; LANES(C, a[i] ^ b[i], "^="); }
  }
  if constexpr(!std::is_same<T, int64_t>::value)
  {
    mask<T>("==", A == B, a, b, [](T x, T y) { return x == y; }, N); mask<T>("!=", A != B, a, b, [](T x, T y) { return x != y; }, N);
    mask<T>("<", A < B, a, b, [](T x, T y) { return x < y; }, N); mask<T>("<=", A <= B, a, b, [](T x, T y) { return x <= y; }, N);
    mask<T>(">", A > B, a, b, [](T x, T y) { return x > y; }, N); mask<T>(">=", A >= B, a, b, [](T x, T y) { return x >= y; }, N);
  }
  if constexpr(std::is_integral<T>::value && !std::is_same<T, char>::value)
  {
    const int W = sizeof(T) * 8;
    int k = (int)r.below(W);
    typedef typename std::make_unsigned<T>::type UT;
    LANES(A << k, (T)((UT)a[i] << k), "<< count"); { S C(A); C <<= k; LANES(C, (T)((UT)a[i] << k), "<<= count"); }
    BSS_ALIGN(16) T p[N]; for(int i = 0; i < N; ++i) p[i] = a[i] < 0 ? ~a[i] : a[i]; // only 32-bit elements promise what happens to negative numbers
    S P(std::is_same<T, int32_t>::value ? a : p);
    const T* q = std::is_same<T, int32_t>::value ? a : p;
    LANES(P >> k, (T)(q[i] >> k), ">> count"); { S C(P); C >>= k; LANES(C, (T)(q[i] >> k), ">>= count"); }
    BSS_ALIGN(16) T cnt[N]; memset(cnt, 0, sizeof cnt); cnt[0] = (T)k; // the count is the low 64 bits
    S CN(cnt);
    LANES(A << CN, (T)((UT)a[i] << k), "<< vector count"); LANES(P >> CN, (T)(q[i] >> k), ">> vector count");
  }
  if constexpr(std::is_same<T, float>::value)
  {
    LANES(A.floor(), floorf(a[i]), "floor"); LANES(A.ceil(), ceilf(a[i]), "ceil");
    S C(a[3], a[2], a[1], a[0]); LANES(C, a[3 - i], "component constructor");
    static const int s1[4] = { 2, 0, 3, 3 }; { S Z = A.template Shuffle<2, 0, 3, 3>(); LANES(Z, a[s1[i]], "shuffle"); }
    static const int s2[4] = { 3, 2, 1, 0 }; { S Z = S::template Shuffle<0x1B>(A); LANES(Z, a[s2[i]], "shuffle 1B"); }
    sseVeci I((BSS_SSE_M128)A); BSS_ALIGN(16) int io[4]; I.Set(io); for(int i = 0; i < 4; ++i) CHECK(io[i] == (int)a[i], "sse:convert", "float to int");
    sseVeci R((BSS_SSE_M128)A, (char)1); R.Set(io); for(int i = 0; i < 4; ++i) CHECK(io[i] == (int)lrintf(a[i]), "sse:convert", "float to int, rounding");
  }
  if constexpr(std::is_same<T, int32_t>::value)
  {
    S C(a[3], a[2], a[1], a[0]); LANES(C, a[3 - i], "component constructor");
    static const int s1[4] = { 2, 0, 3, 3 }; { S Z = A.template Shuffle<2, 0, 3, 3>(); LANES(Z, a[s1[i]], "shuffle"); }
    sseVec Q((BSS_SSE_M128i)A); BSS_ALIGN(16) float fo[4]; Q.Set(fo); for(int i = 0; i < 4; ++i) CHECK(fo[i] == (float)a[i], "sse:convert", "int to float");
  }
  if constexpr(sizeof(T) == 8) { S C(a[1], a[0]); LANES(C, a[1 - i], "component constructor"); LANES(A.Swap(), a[1 - i], "swap"); }
  if constexpr(std::is_same<T, int16_t>::value) { S C(a[7], a[6], a[5], a[4], a[3], a[2], a[1], a[0]); LANES(C, a[7 - i], "component constructor"); }
  if constexpr(std::is_same<T, char>::value) { S C(a[15], a[14], a[13], a[12], a[11], a[10], a[9], a[8], a[7], a[6], a[5], a[4], a[3], a[2], a[1], a[0]); LANES(C, a[15 - i], "component constructor"); }
  mon::nontrivial();
}

// built in three parts (PART), each of them a binary of its own, to keep compilation short
#ifndef PART
#define PART 0
#endif
void mon_case(Rng& r, uint64_t)
{
#if PART == 0
  switch(r.below(13))
  {
  case 0: vecops<float, 2>(r); break; case 1: vecops<float, 3>(r); break; case 2: vecops<float, 4>(r); break; case 3: vecops<float, 5>(r); break;
  case 4: vecops<double, 2>(r); break; case 5: vecops<double, 3>(r); break; case 6: vecops<double, 4>(r); break; case 7: vecops<double, 6>(r); break;
  case 8: vecops<int, 2>(r); break; case 9: vecops<int, 3>(r); break; case 10: vecops<int, 4>(r); break; case 11: vecops<int, 7>(r); break;
  case 12: outer<float, 4, 4>(r); outer<float, 2, 3>(r); outer<int, 4, 4>(r); outer<double, 5, 2>(r); outer<int, 3, 4>(r); break;
  }
#elif PART == 1
  switch(r.below(14))
  {
  case 0: matmul<float, 4, 4, 4>(r); matmul<float, 2, 2, 2>(r); break;
  case 1: matmul<float, 3, 3, 3>(r); matmul<float, 3, 4, 4>(r); break;
  case 2: matmul<int, 4, 4, 4>(r); matmul<int, 2, 4, 4>(r); break;
  case 3: matmul<double, 4, 4, 4>(r); matmul<double, 3, 4, 4>(r); break;
  case 4: matmul<double, 2, 3, 4>(r); matmul<float, 5, 3, 2>(r); matmul<int, 2, 5, 3>(r); break;
  case 5: matmul<float, 4, 2, 4>(r); matmul<float, 4, 4, 3>(r); matmul<double, 5, 5, 5>(r); break;
  case 6: matops<float, 2, 2>(r); matops<float, 3, 3>(r); matops<float, 4, 4>(r); break;
  case 7: matops<double, 2, 2>(r); matops<double, 3, 3>(r); matops<double, 4, 4>(r); break;
  case 8: matops<int, 2, 2>(r); matops<int, 3, 3>(r); matops<int, 4, 4>(r); break;
  case 9: matops<float, 2, 3>(r); matops<double, 5, 5>(r); matops<int, 4, 2>(r); matops<float, 3, 4>(r); break;
  case 10: det<float, 2>(r); det<double, 2>(r); det<int, 2>(r); break;
  case 11: det<float, 3>(r); det<double, 3>(r); det<int, 3>(r); break;
  case 12: case 13: det<float, 4>(r); det<double, 4>(r); det<int, 4>(r); break;
  }
#else
  switch(r.below(13))
  {
  case 0: special<float>(r); break; case 1: special<double>(r); break; case 2: special<int>(r); break;
  case 3: transforms<float>(r); break; case 4: transforms<double>(r); break;
  case 5: quaternion(r); break;
  case 6: spline(r); break;
  case 7: sse<float, 4>(r); break; case 8: sse<double, 2>(r); break; case 9: sse<int32_t, 4>(r); break; case 10: sse<int64_t, 2>(r); break; case 11: sse<int16_t, 8>(r); break; case 12: sse<char, 16>(r); break;
  }
#endif
}
