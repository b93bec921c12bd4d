// Monitor for the serialization of the library's own types: whatever a container, vector, matrix, shape or animation
// holds when it is written must be what a fresh one holds after reading it back, in every engine.
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/Array.h"
#include "bss-util/ArraySort.h"
#include "bss-util/ArrayCircular.h"
#include "bss-util/BinaryHeap.h"
#include "bss-util/CompactArray.h"
#include "bss-util/DynArray.h"
#include "bss-util/Hash.h"
#include "bss-util/Map.h"
#include "bss-util/PriorityQueue.h"
#include "bss-util/Queue.h"
#include "bss-util/RandomQueue.h"
#include "bss-util/Stack.h"
#include "bss-util/Variant.h"
#include "bss-util/vector.h"
#include "bss-util/Geometry.h"
#include "bss-util/JSON.h"
#include "bss-util/UBJSON.h"
#include "bss-util/Animation.h"
#include <sstream>
#include <string>
#include <vector>
#include <set>
#include <algorithm>
using namespace bss;
using mon::Rng;

// ---- what a value looks like to its user, as text
typedef std::string S;
static S show(int v) { return std::to_string(v); }
static S show(unsigned char v) { return std::to_string((int)v); }
static S show(short v) { return std::to_string((int)v); }
static S show(int64_t v) { return std::to_string((long long)v); }
static S show(bool v) { return v ? "true" : "false"; }
static S show(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
static S show(float v) { return show((double)v); }
static S show(const Str& v) { return "\"" + S(v.c_str()) + "\""; }
template<class T> static S list(const T* b, const T* e) { S r = "["; for(; b != e; ++b) r += show(*b) + ","; return r + "]"; }

static int num(Rng& r, int) { return r.chance(1, 6) ? (int)r.next() : (int)r.range(-200, 200); }
static unsigned char num(Rng& r, unsigned char) { return (unsigned char)r.next(); }
static short num(Rng& r, short) { return (short)r.next(); }
static int64_t num(Rng& r, int64_t) { return r.chance(1, 3) ? (int64_t)r.next() >> r.below(60) : r.range(-200, 200); }
static double num(Rng& r, double) { return r.range(-4000, 4000) / 8.0; }
static float num(Rng& r, float) { return r.range(-4000, 4000) / 8.0f; }
static bool num(Rng& r, bool) { return r.chance(1, 2); }
static Str num(Rng& r, Str)
{
  Str s;
  for(int i = (int)mon::scale.len(r, r.below(7)); i > 0; --i) { char b[2] = { (char)r.range(' ', '~'), 0 }; s += b; }
  return s;
}
static size_t len(Rng& r) { if(mon::scale.wide > 0) return mon::scale.count(r, 5, 3000); return r.chance(1, 6) ? 0 : r.chance(1, 10) ? r.below(300) : r.below(12); }

struct Item // a small structure as an element
{
  int a = 0;
  double b = 0;
  Str c;
  template<typename Engine> void Serialize(Serializer<Engine>& s, const char*) { s.template EvaluateType<Item>(GenPair("a", a), GenPair("b", b), GenPair("c", c)); }
  bool operator<(const Item& o) const { return a < o.a; }
  bool operator>(const Item& o) const { return a > o.a; }
};
static S show(const Item& v) { return "{" + show(v.a) + "," + show(v.b) + "," + show(v.c) + "}"; }
static Item num(Rng& r, Item) { Item i; i.a = num(r, 0); i.b = num(r, 0.0); i.c = num(r, Str()); return i; }

// ---- one pair (fill, show) for each type
template<class T, class CT, ARRAY_TYPE A> static void fill(Rng& r, Array<T, CT, A>& v) { for(size_t i = len(r); i > 0; --i) v.Add(num(r, T())); }
template<class T, class CT, ARRAY_TYPE A> static S show(const Array<T, CT, A>& v) { return list(v.begin(), v.end()); }
template<class T, class CT, ARRAY_TYPE A> static void fill(Rng& r, DynArray<T, CT, A>& v) { for(size_t i = len(r); i > 0; --i) v.Add(num(r, T())); if(v.Length() && r.chance(1, 3)) v.Remove(0); }
template<class T, class CT, ARRAY_TYPE A> static S show(const DynArray<T, CT, A>& v) { return list(v.begin(), v.end()); }
static void fill(Rng& r, DynArray<bool>& v) { for(size_t i = len(r); i > 0; --i) v.Add(r.chance(1, 2)); }
static S show(const DynArray<bool>& v) { S s = "["; for(size_t i = 0; i < v.Length(); ++i) s += (bool)v[i] ? "1," : "0,"; return s + "]"; }
template<class T, char(*F)(const T&, const T&), class CT, ARRAY_TYPE A> static void fill(Rng& r, ArraySort<T, F, CT, A>& v) { for(size_t i = len(r); i > 0; --i) v.Insert(num(r, T())); }
template<class T, char(*F)(const T&, const T&), class CT, ARRAY_TYPE A> static S show(const ArraySort<T, F, CT, A>& v) { return list(v.begin(), v.end()); }
template<class T, class CT, ARRAY_TYPE A> static void fill(Rng& r, ArrayCircular<T, CT, A>& v)
{
  v.SetCapacity((CT)(1 + r.below(10)));
  for(size_t i = len(r); i > 0; --i) { if(v.Length() && r.chance(1, 4)) v.Pop(); else v.Push(num(r, T())); }
}
template<class T, class CT, ARRAY_TYPE A> static S show(const ArrayCircular<T, CT, A>& v) { S s = "["; for(CT i = 0; i < v.Length(); ++i) s += show(v[i]) + ","; return s + "]"; }
template<class T, class CT, ARRAY_TYPE A> static void fill(Rng& r, Queue<T, CT, A>& v) { for(size_t i = len(r); i > 0; --i) { if(v.Length() && r.chance(1, 4)) v.Pop(); else v.Push(num(r, T())); } }
template<class T, class CT, ARRAY_TYPE A> static S show(const Queue<T, CT, A>& v) { S s = "["; Queue<T, CT, A> c(v); while(!c.Empty()) s += show(c.Pop()) + ","; return s + "]"; }
template<class T, class CT, ARRAY_TYPE A> static void fill(Rng& r, Stack<T, CT, A>& v) { for(size_t i = len(r); i > 0; --i) { if(v.Length() && r.chance(1, 4)) v.Pop(); else v.Push(num(r, T())); } }
template<class T, class CT, ARRAY_TYPE A> static S show(const Stack<T, CT, A>& v) { S s = "["; Stack<T, CT, A> c(v); while(c.Length()) s += show(c.Pop()) + ","; return s + "]"; }
template<class T, class CT, ARRAY_TYPE A> static void fill(Rng& r, RandomQueue<T, CT, A>& v) { for(size_t i = len(r); i > 0; --i) v.Push(num(r, T())); }
template<class T, class CT, ARRAY_TYPE A> static S show(const RandomQueue<T, CT, A>& v)
{
  std::vector<S> e;
  for(auto& x : v) e.push_back(show(x));
  std::sort(e.begin(), e.end());
  S s;
  for(auto& x : e) s += x + ",";
  return s;
}
typedef BinaryHeap<int> HEAP;
static void fill(Rng& r, HEAP& v) { for(size_t i = len(r); i > 0; --i) { if(v.Length() && r.chance(1, 5)) v.Pop(); else v.Insert(num(r, 0)); } }
static S show(const HEAP& v) { S s = "["; HEAP c(v); while(c.Length()) s += show(c.Pop()) + ","; return s + "]"; }
template<class T> static void fill(Rng& r, CompactArray<T>& v) { for(size_t i = len(r); i > 0; --i) v.Add(num(r, T())); }
template<class T> static S show(const CompactArray<T>& v) { S s = "["; for(size_t i = 0; i < v.Length(); ++i) s += show(v[i]) + ","; return s + "]"; }
template<class K, class D, ARRAY_TYPE A> static void fill(Rng& r, Hash<K, D, A>& v)
{
  for(size_t i = len(r); i > 0; --i) v.Insert(num(r, K()), num(r, D()));
}
template<class K, class D, ARRAY_TYPE A> static S show(const Hash<K, D, A>& v)
{
  std::vector<S> e;
  for(auto p : v) e.push_back(show(std::get<0>(p)) + ":" + show(std::get<1>(p)));
  std::sort(e.begin(), e.end());
  S s;
  for(auto& x : e) s += x + ",";
  return s;
}
template<class K, ARRAY_TYPE A> static void fillset(Rng& r, Hash<K, void, A>& v) { for(size_t i = len(r); i > 0; --i) v.Insert(num(r, K())); }
static void fill(Rng& r, Hash<int>& v) { fillset(r, v); }
static void fill(Rng& r, Hash<Str, void, ARRAY_SAFE>& v) { fillset(r, v); }
template<class H> static S showset(const H& v)
{
  std::vector<S> e;
  for(auto& p : v) e.push_back(show(p));
  std::sort(e.begin(), e.end());
  S s;
  for(auto& x : e) s += x + ",";
  return s;
}
static S show(const Hash<int>& v) { return showset(v); }
static S show(const Hash<Str, void, ARRAY_SAFE>& v) { return showset(v); }
template<class K, class D, char(*F)(const K&, const K&), class CT, ARRAY_TYPE A> static void fill(Rng& r, Map<K, D, F, CT, A>& v)
{ // keys are unique, as each names one value in the document
  for(size_t i = len(r); i > 0; --i) { K k = num(r, K()); if(v.Get(k) == (CT)-1) v.Insert(k, num(r, D())); }
}
template<class K, class D, char(*F)(const K&, const K&), class CT, ARRAY_TYPE A> static S show(const Map<K, D, F, CT, A>& v)
{
  S s;
  for(size_t i = 0; i < v.Length(); ++i) s += show(v.KeyIndex(i)) + ":" + show(v.DataIndex(i)) + ",";
  return s;
}
typedef PriorityQueue<int, int> PQ;
static void fill(Rng& r, PQ& v)
{
  std::set<int> used;
  for(size_t i = len(r); i > 0; --i) { int k = num(r, 0); if(used.insert(k).second) v.Push(k, num(r, 0)); }
}
static S show(const PQ& v) { S s; PQ c(v); while(!c.Empty()) { auto p = c.Pop(); s += show(p.first) + ":" + show(p.second) + ","; } return s; }
template<class T, int N> static void fill(Rng& r, Vector<T, N>& v) { for(int i = 0; i < N; ++i) v.v[i] = num(r, T()); }
template<class T, int N> static S show(const Vector<T, N>& v) { return list(v.v, v.v + N); }
template<class T, int N, int M> static void fill(Rng& r, Matrix<T, N, M>& v) { for(int i = 0; i < N * M; ++i) (&v.v[0][0])[i] = num(r, T()); }
template<class T, int N, int M> static S show(const Matrix<T, N, M>& v) { return list(&v.v[0][0], &v.v[0][0] + N * M); }
template<class T, int N> static void fill(Rng& r, NSphere<T, N>& v) { for(int i = 0; i <= N; ++i) v.v[i] = num(r, T()); }
template<class T, int N> static S show(const NSphere<T, N>& v) { return list(v.v, v.v + N + 1); }
template<class T, int N> static void fill(Rng& r, LineN<T, N>& v) { for(int i = 0; i < N * 2; ++i) v.v[i] = num(r, T()); }
template<class T, int N> static S show(const LineN<T, N>& v) { return list(v.v, v.v + N * 2); }
template<class T> static void fill(Rng& r, Rect<T>& v) { for(int i = 0; i < 4; ++i) v.ltrb[i] = num(r, T()); }
template<class T> static S show(const Rect<T>& v) { return show(v.left) + "," + show(v.top) + "," + show(v.right) + "," + show(v.bottom); }
template<class T> static void fill(Rng& r, Triangle<T>& v) { for(int i = 0; i < 3; ++i) fill(r, v.v[i]); }
template<class T> static S show(const Triangle<T>& v) { return show(v.v[0]) + show(v.v[1]) + show(v.v[2]); }
template<class T> static void fill(Rng& r, Ellipse<T>& v) { for(int i = 0; i < 4; ++i) v.v[i] = num(r, T()); }
template<class T> static S show(const Ellipse<T>& v) { return show(v.x) + "," + show(v.y) + "," + show(v.a) + "," + show(v.b); }
template<class T> static void fill(Rng& r, CircleSector<T>& v) { v.x = num(r, T()); v.y = num(r, T()); v.outer = num(r, T()); v.inner = num(r, T()); v.min = num(r, T()); v.range = num(r, T()); }
template<class T> static S show(const CircleSector<T>& v) { return show(v.x) + "," + show(v.y) + "," + show(v.outer) + "," + show(v.inner) + "," + show(v.min) + "," + show(v.range); }
template<class T> static void fill(Rng& r, Polygon<T>& v) { std::vector<Vector<T, 2>> p(1 + r.below(8)); for(auto& x : p) fill(r, x); v.SetVertices(p.data(), (uint16_t)p.size()); }
template<class T> static S show(const Polygon<T>& v) { S s; for(size_t i = 0; i < v.GetCount(); ++i) s += show(v[i]); return s; }
typedef Variant<int, Str, double> VAR;
static void fill(Rng& r, VAR& v) { switch(r.below(3)) { case 0: v = num(r, 0); break; case 1: v = num(r, Str()); break; case 2: v = num(r, 0.0); break; } }
static S show(const VAR& v) { return v.is<int>() ? "i" + show(v.get<int>()) : v.is<Str>() ? "s" + show(v.get<Str>()) : v.is<double>() ? "d" + show(v.get<double>()) : S("none"); }
typedef AniData<int> AD;
typedef AniDataInterval<int> AI;
typedef Animation<AD, AI> ANI;
static void fill(Rng& r, AD& v) { for(size_t i = len(r); i > 0; --i) v.Add(r.below(80) / 8.0, num(r, 0)); }
static S show(const AD& v) { S s; for(auto& f : v.Frames()) s += show(f.time) + ":" + show(f.value) + ","; return s + show(v.End()); }
static void fill(Rng& r, AI& v) { for(size_t i = len(r); i > 0; --i) v.Add(r.below(80) / 8.0, num(r, 0), r.below(20) / 8.0); }
static S show(const AI& v) { S s; for(auto& f : v.Frames()) s += show(f.time) + ":" + show(f.value) + "+" + show(f.data) + ","; return s + show(v.End()); }
static void fill(Rng& r, ANI& v) { fill(r, v.Get<AD>()); fill(r, v.Get<AI>()); v.SetLength(r.chance(1, 2) ? -1.0 : r.below(80) / 8.0); v.SetLoop(r.chance(1, 2) ? -1.0 : r.below(8) / 8.0); }
static S show(const ANI& v) { return show(v.Get<AD>()) + "|" + show(v.Get<AI>()) + "|" + show(v.GetLength()) + "|" + show(v.GetLoop()); }
// nested
template<class T> static S shownest(const T& v) { S s = "["; for(size_t i = 0; i < v.Length(); ++i) s += show(v[i]) + ";"; return s + "]"; }
typedef DynArray<DynArray<int>, size_t, ARRAY_SAFE> NEST;
static void fill(Rng& r, NEST& v) { for(size_t i = r.below(6); i > 0; --i) { DynArray<int> d; fill(r, d); v.Add(d); } }
static S show(const NEST& v) { return shownest(v); }
typedef DynArray<Vector<float, 2>> VECS;
static void fill(Rng& r, VECS& v) { for(size_t i = len(r); i > 0; --i) { Vector<float, 2> x; fill(r, x); v.Add(x); } }
static S show(const VECS& v) { return shownest(v); }

template<class T> struct Box
{ // the neighbours show whether the value took exactly its own part of the document
  int before = 0;
  T v;
  Str after;
  template<typename Engine> void Serialize(Serializer<Engine>& s, const char*) { s.template EvaluateType<Box>(GenPair("before", before), GenPair("v", v), GenPair("after", after)); }
};

template<class E> static void pretty(Serializer<E>&, bool) {}
static void pretty(Serializer<JSONEngine>& s, bool on) { if(on) s.engine.pretty = 1; }

template<class E, class T> static void trip(Rng& r, const char* engine, const char* type, const Box<T>& a, bool expand)
{
  std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
  {
    Serializer<E> s;
    pretty(s, expand);
    s.Serialize(a, ss, 0);
  }
  Box<T> b;
  {
    Serializer<E> s;
    s.Parse(b, ss, 0);
  }
  S x = show(a.v), y = show(b.v);
  if(x != y)
  {
    S doc = ss.str();
    if(doc.size() > 300) doc.resize(300);
    CHECK(false, "serialize:value", "%s: a %s that holds %.600s came back as %.600s (document %s)", engine, type, x.c_str(), y.c_str(), doc.c_str());
  }
  ++mon::g.checks;
  CHECK(b.before == a.before, "serialize:before", "%s: the value before a %s is %d, expected %d", engine, type, b.before, a.before);
  CHECK(show(b.after) == show(a.after), "serialize:after", "%s: the value after a %s is %s, expected %s", engine, type, show(b.after).c_str(), show(a.after).c_str());
}

template<class T> static void type(Rng& r, const char* name)
{
  Box<T> a;
  a.before = num(r, 0);
  a.after = num(r, Str());
  fill(r, a.v);
  S s = show(a.v);
  if(s.size() > 400) s.resize(400);
  mon::op("%s %s", name, s.c_str());
  mon::ev(name);
  trip<JSONEngine>(r, "JSON", name, a, r.chance(1, 3));
  trip<UBJSONEngine>(r, "UBJSON", name, a, false);
}

void mon_case(Rng& r, uint64_t)
{
  const char* big = mon::scale.roll(r, 200);
  if(big) mon::ev(big);
  switch(r.below(40))
  {
  case 0: type<Array<int>>(r, "Array<int>"); break;
  case 1: type<Array<Str, size_t, ARRAY_SAFE>>(r, "Array<Str>"); break;
  case 2: type<Array<unsigned char>>(r, "Array<unsigned char>"); break;
  case 3: type<ArraySort<int>>(r, "ArraySort<int>"); break;
  case 4: type<ArraySort<Str, CompT<Str>, size_t, ARRAY_SAFE>>(r, "ArraySort<Str>"); break;
  case 5: type<ArrayCircular<int>>(r, "ArrayCircular<int>"); break;
  case 6: type<ArrayCircular<Str, ptrdiff_t, ARRAY_SAFE>>(r, "ArrayCircular<Str>"); break;
  case 7: type<Queue<int>>(r, "Queue<int>"); break;
  case 8: type<Queue<Str, ptrdiff_t, ARRAY_SAFE>>(r, "Queue<Str>"); break;
  case 9: type<Stack<int>>(r, "Stack<int>"); break;
  case 10: type<Stack<Str, size_t, ARRAY_SAFE>>(r, "Stack<Str>"); break;
  case 11: type<RandomQueue<int>>(r, "RandomQueue<int>"); break;
  case 12: type<HEAP>(r, "BinaryHeap<int>"); break;
  case 13: type<CompactArray<int>>(r, "CompactArray<int>"); break;
  case 14: type<CompactArray<short>>(r, "CompactArray<short>"); break;
  case 15: type<DynArray<int>>(r, "DynArray<int>"); break;
  case 16: type<DynArray<double>>(r, "DynArray<double>"); break;
  case 17: type<DynArray<Item, size_t, ARRAY_SAFE>>(r, "DynArray<Item>"); break;
  case 18: type<DynArray<bool>>(r, "DynArray<bool>"); break;
  case 19: type<Hash<int, int>>(r, "Hash<int, int>"); break;
  case 20: type<Hash<Str, double, ARRAY_SAFE>>(r, "Hash<Str, double>"); break;
  case 21: type<Hash<int>>(r, "Hash<int>"); break;
  case 22: type<Hash<Str, void, ARRAY_SAFE>>(r, "Hash<Str>"); break;
  case 23: type<Map<int, int>>(r, "Map<int, int>"); break;
  case 24: type<Map<Str, Item, CompT<Str>, size_t, ARRAY_SAFE>>(r, "Map<Str, Item>"); break;
  case 25: type<PQ>(r, "PriorityQueue<int, int>"); break;
  case 26: type<Vector<float, 2>>(r, "Vector 2"); type<Vector<double, 3>>(r, "Vector 3"); type<Vector<int, 4>>(r, "Vector 4"); type<Vector<float, 6>>(r, "Vector 6"); break;
  case 27: type<Matrix<float, 2, 2>>(r, "Matrix 2x2"); type<Matrix<double, 3, 3>>(r, "Matrix 3x3"); type<Matrix<float, 4, 4>>(r, "Matrix 4x4"); type<Matrix<float, 2, 5>>(r, "Matrix 2x5"); break;
  case 28: type<Circle<float>>(r, "Circle"); type<NSphere<double, 3>>(r, "Sphere 3"); type<NSphere<float, 5>>(r, "Sphere 5"); break;
  case 29: type<Line<float>>(r, "Line"); type<LineN<double, 3>>(r, "Line 3"); type<LineN<float, 4>>(r, "Line 4"); break;
  case 30: type<Rect<float>>(r, "Rect"); type<Rect<int>>(r, "Rect<int>"); break;
  case 31: type<Triangle<float>>(r, "Triangle"); type<Ellipse<double>>(r, "Ellipse"); type<CircleSector<float>>(r, "CircleSector"); break;
  case 32: type<Polygon<float>>(r, "Polygon"); break;
  case 33: type<VAR>(r, "Variant"); break;
  case 34: type<AD>(r, "AniData"); break;
  case 35: type<AI>(r, "AniDataInterval"); break;
  case 36: type<ANI>(r, "Animation"); break;
  case 37: type<NEST>(r, "DynArray<DynArray<int>>"); break;
  case 38: type<VECS>(r, "DynArray<Vector>"); break;
  case 39: type<DynArray<int64_t>>(r, "DynArray<int64_t>"); break;
  }
  mon::nontrivial();
}
