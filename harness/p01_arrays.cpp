// Monitor for the dynamic arrays: every operation is mirrored on a reference sequence and compared; elements are
// lifetime-tracked; the heap is balanced after each case.
#include "mon.h"
#include "bss-util/DynArray.h"
#include "bss-util/Array.h"
#include <vector>
#include <algorithm>
using namespace bss;
using mon::Rng;

struct Pod12 { int a; int b; int c; Pod12() {} Pod12(int v) : a(v), b(~v), c(v ^ 0x5a5a) {} };
template<class T> struct Conv;
template<> struct Conv<int> { static int make(int v) { return v; } static int val(const int& v) { return v; } };
template<> struct Conv<uint8_t> { static uint8_t make(int v) { return (uint8_t)v; } static int val(const uint8_t& v) { return v; } };
template<> struct Conv<double> { static double make(int v) { return v * 0.5; } static int val(const double& v) { return (int)(v * 2); } };
template<> struct Conv<Pod12> { static Pod12 make(int v) { return Pod12(v); } static int val(const Pod12& v) { CHECK(v.b == ~v.a && v.c == (v.a ^ 0x5a5a), "array:torn-element", "element bytes mixed: %d %d %d", v.a, v.b, v.c); return v.a; } };
template<> struct Conv<mon::Trk> { static mon::Trk make(int v) { return mon::Trk(v); } static int val(const mon::Trk& v) { return v.get(); } };
template<> struct Conv<mon::TrkR> { static mon::TrkR make(int v) { return mon::TrkR(v); } static int val(const mon::TrkR& v) { return v.get(); } };
struct MoveOnly
{
  mon::Trk t;
  MoveOnly() {}
  MoveOnly(int v) : t(v) {}
  MoveOnly(MoveOnly&&) = default;
  MoveOnly& operator=(MoveOnly&&) = default;
  MoveOnly(const MoveOnly&) = delete;
  MoveOnly& operator=(const MoveOnly&) = delete;
};
template<> struct Conv<MoveOnly> { static MoveOnly make(int v) { return MoveOnly(v); } static int val(const MoveOnly& v) { return v.t.get(); } };

static int rv(Rng& r) { return (int)r.below(256); }

template<class A, class T>
static void compare(A& a, const std::vector<int>& m, size_t len, const char* what)
{
  const A& ca = a;
  CHECK(len == m.size(), "array:length", "%s: length %zu, expected %zu", what, len, m.size());
  CHECK(a.Empty() == m.empty(), "array:empty", "%s: Empty() is %d with %zu elements", what, (int)a.Empty(), m.size());
  size_t n = 0;
  for(const T* p = ca.begin(); p != ca.end(); ++p, ++n)
  {
    if(n >= m.size()) mon::fail("array:iter-long", "%s: iteration runs past the %zu elements", what, m.size());
    CHECK(Conv<T>::val(*p) == m[n], "array:element", "%s: element %zu is %d, expected %d", what, n, Conv<T>::val(*p), m[n]);
  }
  CHECK(n == m.size(), "array:iter-short", "%s: iteration stops after %zu of %zu", what, n, m.size());
  CHECK((size_t)(a.end() - a.begin()) == m.size() && a.begin() == ca.begin() && (const T*)ca == ca.begin() && (T*)a == a.begin(), "array:iter-range", "%s: begin and end span %td of %zu elements", what, a.end() - a.begin(), m.size());
  if(!m.empty())
  {
    CHECK(Conv<T>::val(a.Front()) == m.front() && Conv<T>::val(ca.Back()) == m.back() && Conv<T>::val(ca.Front()) == m.front() && Conv<T>::val(a.Back()) == m.back(), "array:front-back", "%s: Front/Back are not the ends", what);
    size_t i = m.size() / 2;
    CHECK(Conv<T>::val(a[i]) == m[i] && Conv<T>::val(ca[i]) == m[i], "array:index", "%s: [%zu] differs from the element", what, i);
    auto s = ca.GetSlice();
    CHECK((size_t)s.length == m.size() && Conv<T>::val(s[i]) == m[i] && Conv<T>::val(s.Front()) == m.front() && Conv<T>::val(s.Back()) == m.back(), "array:slice", "%s: GetSlice does not view the elements", what);
    const auto& cs = s;
    size_t k = 0;
    for(auto& e : cs) { CHECK(k < m.size() && Conv<T>::val(e) == m[k], "array:slice", "%s: element %zu of the slice", what, k); ++k; }
    CHECK(k == m.size() && s.end() - s.begin() == (ptrdiff_t)k && Conv<T>::val(cs[i]) == m[i] && Conv<T>::val(cs.Front()) == m.front() && Conv<T>::val(cs.Back()) == m.back(), "array:slice", "%s: iterating over the slice", what);
  }
}

// T: element, COPY: element may be copied, SIMPLE: growth leaves new elements unspecified
template<class T, class CT, ARRAY_TYPE AT, bool COPY>
struct Dyn
{
  typedef DynArray<T, CT, AT> A;
  static void fill(A& a, std::vector<int>& m, size_t from, Rng& r)
  {
    for(size_t i = from; i < m.size(); ++i)
    {
      if(AT == ARRAY_SIMPLE) { m[i] = rv(r); a[i] = Conv<T>::make(m[i]); }
      else m[i] = 0;
    }
  }
  static void run(Rng& r, int steps, size_t maxlen)
  {
    A* a[2] = { new A(), new A((CT)r.below(8)) };
    std::vector<int> m[2];
    for(int s = 0; s < steps; ++s)
    {
      int k = (int)r.below(2), o = 1 - k;
      A& x = *a[k];
      std::vector<int>& v = m[k];
      int what = (int)r.below(COPY ? 26 : 14);
      const char* nm = "?";
      int val = rv(r);
      if(v.size() >= maxlen && (what < 3 || what == 5 || what == 6)) what = 4;
      switch(what)
      {
      case 0: { nm = "Add&&"; size_t at = x.Add(Conv<T>::make(val)); CHECK(at == v.size(), "array:add-index", "Add returned %zu, expected %zu", at, v.size()); v.push_back(val); break; }
      case 1: { nm = "AddConstruct"; size_t at = x.AddConstruct(Conv<T>::make(val)); CHECK(at == v.size(), "array:add-index", "AddConstruct returned %zu, expected %zu", at, v.size()); v.push_back(val); break; }
      case 2: { nm = "AddMany"; int n = (int)r.below(9); for(int i = 0; i < n && v.size() < maxlen; ++i) { int q = rv(r); x.Add(Conv<T>::make(q)); v.push_back(q); } break; }
      case 3: nm = "Remove"; if(!v.empty()) { size_t i = r.below(v.size()); if(r.chance(1, 5)) i = v.size() - 1; if(r.chance(1, 5)) i = 0; mon::note(i); x.Remove((CT)i); v.erase(v.begin() + i); } break;
      case 4: nm = "RemoveLast"; { int n = 1 + (int)r.below(4); while(n-- && !v.empty()) { x.RemoveLast(); v.pop_back(); } } break;
      case 5: case 6: { nm = "Insert&&"; size_t i = r.below(v.size() + 1); if(r.chance(1, 6)) i = v.size(); if(r.chance(1, 6)) i = 0; mon::note(i); x.Insert(Conv<T>::make(val), (CT)i); v.insert(v.begin() + i, val); break; }
      case 7: { nm = "SetLength"; size_t n = r.below(std::min<size_t>(maxlen, v.size() * 2 + 6)); size_t old = v.size(); mon::note(n); x.SetLength((CT)n); v.resize(n, 0); CHECK(x.Capacity() >= n, "array:capacity", "capacity %zu below length %zu", (size_t)x.Capacity(), n); if(n > old) fill(x, v, old, r); break; }
      case 8: { nm = "SetCapacity"; size_t n = r.below(std::min<size_t>(maxlen, v.size() * 2 + 8)); mon::note(n); x.SetCapacity((CT)n); CHECK(x.Capacity() >= n && x.Capacity() >= v.size(), "array:capacity", "capacity %zu after asking for %zu", (size_t)x.Capacity(), n); break; }
      case 9: nm = "Clear"; if(r.chance(1, 4)) { x.Clear(); v.clear(); } break;
      case 10: { nm = "MoveConstruct"; A* n = new A(std::move(x)); CHECK(x.Length() == 0, "array:moved-from", "moved-from array still reports %zu elements", (size_t)x.Length()); delete a[k]; a[k] = n; break; }
      case 11: { nm = "MoveAssign"; *a[o] = std::move(x); CHECK(x.Length() == 0, "array:moved-from", "moved-from array still reports %zu elements", (size_t)x.Length()); m[o] = v; v.clear(); break; }
      case 12: { nm = "Overwrite"; if(!v.empty()) { size_t i = r.below(v.size()); x[i] = Conv<T>::make(val); v[i] = val; } break; }
      case 13: { nm = "ReuseMovedFrom"; A n(std::move(x)); x.Add(Conv<T>::make(val)); compare<A, T>(n, v, n.Length(), "moved-to"); v.clear(); v.push_back(val); break; }
      default:
        if constexpr(COPY)
        {
          switch(what)
          {
          case 14: { nm = "Add&"; T t(Conv<T>::make(val)); const T& ct = t; size_t at = x.Add(ct); CHECK(at == v.size(), "array:add-index", "Add returned %zu", at); if(v.size() < maxlen) {} v.push_back(val); CHECK(Conv<T>::val(t) == val, "array:argument-changed", "Add(const&) changed its argument"); break; }
          case 15: { nm = "Insert&"; T t(Conv<T>::make(val)); const T& ct = t; size_t i = r.below(v.size() + 1); mon::note(i); x.Insert(ct, (CT)i); v.insert(v.begin() + i, val); CHECK(Conv<T>::val(t) == val, "array:argument-changed", "Insert(const&) changed its argument"); break; }
          case 16: { nm = "CopyConstruct"; A n(x); compare<A, T>(n, v, n.Length(), "copy"); n.Add(Conv<T>::make(1)); if(!v.empty()) n[0] = Conv<T>::make((v[0] + 1) & 255); break; }
          case 17: { nm = "CopyAssign"; *a[o] = x; m[o] = v; break; }
          case 18: { nm = "SelfAssign"; A& y = x; x = y; break; }
          case 19: { nm = "+="; if(v.size() + m[o].size() <= maxlen) { x += *a[o]; v.insert(v.end(), m[o].begin(), m[o].end()); } break; }
          case 20: { nm = "self+="; if(v.size() * 2 <= maxlen) { A& y = x; x += y; std::vector<int> c(v); v.insert(v.end(), c.begin(), c.end()); } break; }
          case 21: { nm = "+"; if(v.size() + m[o].size() <= maxlen) { A n(x + *a[o]); std::vector<int> c(v); c.insert(c.end(), m[o].begin(), m[o].end()); compare<A, T>(n, c, n.Length(), "sum"); } break; }
          case 22: { nm = "Set"; std::vector<T> src; std::vector<int> sv; size_t n = r.below(10); if(r.chance(1, 8)) n = r.below(std::min<size_t>(maxlen, 120)); for(size_t i = 0; i < n; ++i) { sv.push_back(rv(r)); src.push_back(Conv<T>::make(sv.back())); } if(r.chance(1, 2)) x.Set(src.data(), (CT)n); else x.Set(Slice<const T, CT>(src.data(), (CT)n)); v = sv; break; }
          case 23: { nm = "=Slice"; Slice<const T, CT> s(a[o]->begin(), a[o]->Length()); x = s; v = m[o]; break; }
          case 24: { nm = "SliceConstruct"; A n(Slice<const T, CT>(x.begin(), x.Length())); compare<A, T>(n, v, n.Length(), "slice copy"); break; }
          case 25: { nm = "InitList"; T t1(Conv<T>::make(val)), t2(Conv<T>::make(val ^ 1)), t3(Conv<T>::make(val ^ 2)); A n({ t1, t2, t3 }); compare<A, T>(n, std::vector<int>{ val, val ^ 1, val ^ 2 }, n.Length(), "init list"); break; }
          }
        }
      }
      mon::op("%d:%s v=%d len=%zu", k, nm, val, v.size());
      mon::feature(what * 1000003ull + m[k].size() * 131 + (size_t)a[k]->Capacity());
      compare<A, T>(*a[0], m[0], a[0]->Length(), nm);
      compare<A, T>(*a[1], m[1], a[1]->Length(), nm);
      CHECK(a[k]->Capacity() >= a[k]->Length(), "array:capacity", "capacity below length");
    }
    delete a[0];
    delete a[1];
  }
};

template<class T, class CT, ARRAY_TYPE AT, bool COPY>
struct Arr
{
  typedef Array<T, CT, AT> A;
  static void fill(A& a, std::vector<int>& m, size_t from, Rng& r)
  {
    for(size_t i = from; i < m.size(); ++i)
    {
      if(AT == ARRAY_SIMPLE) { m[i] = rv(r); a[i] = Conv<T>::make(m[i]); }
      else m[i] = 0;
    }
  }
  static void run(Rng& r, int steps, size_t maxlen)
  {
    A* a[2];
    std::vector<int> m[2];
    for(int k = 0; k < 2; ++k) { size_t n = r.below(5); a[k] = new A((CT)n); m[k].resize(n); fill(*a[k], m[k], 0, r); }
    for(int s = 0; s < steps; ++s)
    {
      int k = (int)r.below(2), o = 1 - k;
      A& x = *a[k];
      std::vector<int>& v = m[k];
      int what = (int)r.below(COPY ? 21 : 10);
      const char* nm = "?";
      int val = rv(r);
      if(v.size() >= maxlen && (what < 2 || what == 3)) what = 4;
      switch(what)
      {
      case 0: case 1: { nm = "Add&&"; size_t at = x.Add(Conv<T>::make(val)); CHECK(at == v.size(), "array:add-index", "Add returned %zu", at); v.push_back(val); break; }
      case 2: nm = "Remove"; if(!v.empty()) { size_t i = r.below(v.size()); mon::note(i); x.Remove((CT)i); v.erase(v.begin() + i); } break;
      case 3: { nm = "Insert&&"; size_t i = r.below(v.size() + 1); if(r.chance(1, 6)) i = v.size(); mon::note(i); x.Insert(Conv<T>::make(val), (CT)i); v.insert(v.begin() + i, val); break; }
      case 4: nm = "RemoveLast"; if(!v.empty()) { x.RemoveLast(); v.pop_back(); } break;
      case 5: { nm = "SetCapacity"; size_t n = r.below(std::min<size_t>(maxlen, v.size() * 2 + 6)), old = v.size(); mon::note(n); x.SetCapacity((CT)n); v.resize(n, 0); if(n > old) fill(x, v, old, r); break; }
      case 6: { nm = "SetCapacityDiscard"; size_t n = r.below(std::min<size_t>(maxlen, 12)); mon::note(n); if(n != v.size()) { x.SetCapacityDiscard((CT)n); v.assign(n, 0); fill(x, v, 0, r); } break; }
      case 7: { nm = "MoveConstruct"; A* n = new A(std::move(x)); CHECK(x.Capacity() == 0, "array:moved-from", "moved-from array still reports elements"); delete a[k]; a[k] = n; break; }
      case 8: { nm = "MoveAssign"; *a[o] = std::move(x); CHECK(x.Capacity() == 0, "array:moved-from", "moved-from array still reports elements"); m[o] = v; v.clear(); break; }
      case 9: nm = "Clear"; if(r.chance(1, 4)) { x.Clear(); v.clear(); } break;
      default:
        if constexpr(COPY)
        {
          switch(what)
          {
          case 10: { nm = "Add&"; T t(Conv<T>::make(val)); size_t at = x.Add((const T&)t); CHECK(at == v.size(), "array:add-index", "Add(const&) returned %zu, expected %zu", at, v.size()); v.push_back(val); CHECK(Conv<T>::val(t) == val, "array:argument-changed", "Add(const&) changed its argument"); break; }
          case 11: { nm = "Insert&"; T t(Conv<T>::make(val)); size_t i = r.below(v.size() + 1); mon::note(i); x.Insert((const T&)t, (CT)i); v.insert(v.begin() + i, val); CHECK(Conv<T>::val(t) == val, "array:argument-changed", "Insert(const&) changed its argument"); break; }
          case 12: { nm = "CopyConstruct"; A n(x); compare<A, T>(n, v, n.Capacity(), "copy"); if(!v.empty()) n[0] = Conv<T>::make((v[0] + 1) & 255); break; }
          case 13: { nm = "CopyAssign"; *a[o] = x; m[o] = v; break; }
          case 14: { nm = "SelfAssign"; A& y = x; x = y; break; }
          case 15: { nm = "+="; if(v.size() + m[o].size() <= maxlen) { x += *a[o]; v.insert(v.end(), m[o].begin(), m[o].end()); } break; }
          case 16: { nm = "self+="; if(v.size() * 2 <= maxlen) { A& y = x; x += y; std::vector<int> c(v); v.insert(v.end(), c.begin(), c.end()); } break; }
          case 17: { nm = "+"; if(v.size() + m[o].size() <= maxlen) { A n(x + *a[o]); std::vector<int> c(v); c.insert(c.end(), m[o].begin(), m[o].end()); compare<A, T>(n, c, n.Capacity(), "sum"); } break; }
          case 18: { nm = "Set"; std::vector<T> src; std::vector<int> sv; size_t n = r.below(10); for(size_t i = 0; i < n; ++i) { sv.push_back(rv(r)); src.push_back(Conv<T>::make(sv.back())); } if(r.chance(1, 2)) x.Set(src.data(), (CT)n); else x.Set(Slice<const T, CT>(src.data(), (CT)n)); v = sv; break; }
          case 19: { nm = "=Slice"; Slice<const T, CT> sl(a[o]->begin(), a[o]->Capacity()); x = sl; v = m[o]; break; }
          case 20: { nm = "InitList"; T t1(Conv<T>::make(val)), t2(Conv<T>::make(val ^ 1)); A n({ t1, t2 }); compare<A, T>(n, std::vector<int>{ val, val ^ 1 }, n.Capacity(), "init list"); break; }
          }
        }
      }
      mon::op("%d:%s v=%d len=%zu", k, nm, val, v.size());
      mon::feature(what * 7919ull + m[k].size() * 131 + 77);
      compare<A, T>(*a[0], m[0], a[0]->Capacity(), nm);
      compare<A, T>(*a[1], m[1], a[1]->Capacity(), nm);
    }
    delete a[0];
    delete a[1];
  }
};

// ArbitraryArray: an array of equally sized byte records
static void run_arbitrary(Rng& r, int steps)
{
  typedef ArbitraryArray<uint32_t> A;
  uint32_t el = 1 + (uint32_t)r.below(16);
  A* a = new A((uint32_t)r.below(12), el);
  typedef std::vector<uint8_t> Rec;
  std::vector<Rec> m;
  struct R16 { uint8_t b[16]; };
  struct R4 { uint8_t b[4]; };
  for(int s = 0; s < steps; ++s)
  {
    int what = (int)r.below(13);
    const char* nm = "?";
    switch(what)
    {
    case 0: case 1: case 2:
    {
      nm = "Add16";
      R16 x;
      Rec rec(el, 0);
      for(int i = 0; i < 16; ++i) x.b[i] = (uint8_t)r.next();
      uint32_t at = a->Add(x);
      CHECK(at == m.size(), "arbitrary:add-index", "Add returned %u, expected %zu", at, m.size());
      for(uint32_t i = 0; i < el; ++i) rec[i] = x.b[i];
      m.push_back(rec);
      break;
    }
    case 3: nm = "Remove"; if(!m.empty()) { size_t i = r.below(m.size()); mon::note(i); a->Remove((uint32_t)i); m.erase(m.begin() + i); } break;
    case 4: nm = "RemoveLast"; if(!m.empty()) { a->RemoveLast(); m.pop_back(); } break;
    case 5:
    {
      nm = "SetElement(size)";
      uint32_t n = 1 + (uint32_t)r.below(16);
      mon::note(n);
      a->SetElement(n);
      for(auto& rec : m) rec.resize(n, 0);
      el = n;
      break;
    }
    case 6:
    {
      nm = "SetElement(data)";
      uint32_t n = 1 + (uint32_t)r.below(16), c = (uint32_t)r.below(6);
      std::vector<uint8_t> src(n * c + 1);
      for(auto& b : src) b = (uint8_t)r.next();
      a->SetElement(src.data(), n, c);
      el = n;
      m.clear();
      for(uint32_t i = 0; i < c; ++i) m.push_back(Rec(src.begin() + i * n, src.begin() + (i + 1) * n));
      break;
    }
    case 7: { nm = "Copy"; A* n = new A(*a); delete a; a = n; break; }
    case 8: { nm = "Assign"; A* n = new A(3, 2); if(r.chance(1, 2)) *n = *a; else *n = std::move(*a); delete a; a = n; break; }
    case 9: nm = "Clear"; if(r.chance(1, 4)) { a->Clear(); m.clear(); } break;
    case 10: { nm = "SetLength"; size_t n = r.below(m.size() + 6), old = m.size(); mon::note(n); a->SetLength((uint32_t)n); m.resize(n, Rec(el, 0)); for(size_t i = old; i < n; ++i) { for(auto& b : m[i]) b = (uint8_t)r.next(); memcpy((*a)[(uint32_t)i], m[i].data(), el); } break; }
    case 11: { nm = "SetElement(typed)"; R4 src[3]; for(auto& q : src) for(auto& b : q.b) b = (uint8_t)r.next(); if(r.chance(1, 2)) a->SetElement(src); else a->SetElement((const R4*)src, 3u); el = 4; m.clear(); for(auto& q : src) m.push_back(Rec(q.b, q.b + 4)); break; }
    case 12: { nm = "Move"; A* n = new A(std::move(*a)); delete a; a = n; break; }
    }
    mon::op("%s el=%u n=%zu", nm, el, m.size());
    CHECK(a->Length() == m.size() && a->Empty() == m.empty(), "arbitrary:length", "%s: length %u, expected %zu", nm, a->Length(), m.size());
    CHECK(a->Element() == el, "arbitrary:element-size", "%s: element size %u, expected %u", nm, a->Element(), el);
    for(size_t i = 0; i < m.size(); ++i)
      CHECK(!memcmp((*a)[(uint32_t)i], m[i].data(), el) && ((const A*)a)->Get((uint32_t)i) == a->Get((uint32_t)i) && (*(const A*)a)[(uint32_t)i] == a->Get((uint32_t)i), "arbitrary:element", "%s: record %zu differs", nm, i);
  }
  delete a;
}

static void run_misc(Rng& r)
{
  { // 2-d and 3-d views of a flat block address distinct cells in row-major order
    int z = 1 + (int)r.below(5), y = 1 + (int)r.below(5), x = 1 + (int)r.below(7);
    std::vector<int> buf(z * y * x);
    for(size_t i = 0; i < buf.size(); ++i) buf[i] = (int)i;
    ArrayMultiRef<int, int, int, int> ref(buf.data(), z, y, x);
    for(int i = 0; i < z; ++i)
      for(int j = 0; j < y; ++j)
        for(int k = 0; k < x; ++k)
          CHECK(ref(i, j, k) == (i * y + j) * x + k, "multiref:index", "(%d,%d,%d) of %dx%dx%d addresses %d", i, j, k, z, y, x, ref(i, j, k));
    ArrayMultiRef<int, int, int> ref2(buf.data(), z * y, x);
    for(int j = 0; j < z * y; ++j)
      for(int k = 0; k < x; ++k)
        CHECK(ref2(j, k) == j * x + k, "multiref:index", "2-d index wrong");
    mon::op("multiref %d %d %d", z, y, x);
  }
  { // ranges inserted into and removed from a plain array
    std::vector<int> b(r.below(20)), src(r.below(12));
    for(int& x : b) x = rv(r);
    for(int& x : src) x = rv(r);
    size_t at = r.below(b.size() + 1), n = b.size();
    std::vector<int> want(b), buf(b);
    want.insert(want.begin() + at, src.begin(), src.end());
    buf.resize(n + src.size() + 1, -7);
    InsertRangeSimple<int>(buf.data(), n, at, src.data(), src.size());
    CHECK(std::equal(want.begin(), want.end(), buf.begin()) && buf[want.size()] == -7, "range:insert", "%zu elements at %zu of %zu", src.size(), at, n);
    if(!want.empty())
    {
      size_t cut = r.below(want.size()), k = r.below(want.size() - cut + 1);
      RemoveRangeSimple<int>(buf.data(), want.size(), cut, k);
      want.erase(want.begin() + cut, want.begin() + cut + k);
      CHECK(std::equal(want.begin(), want.end(), buf.begin()), "range:remove", "%zu elements at %zu", k, cut);
    }
    mon::op("range %zu at %zu of %zu", src.size(), at, n);
  }
  { // variable-size stack arrays, on both sides of the size where they move to the heap
    size_t n = r.chance(1, 2) ? r.below(50) : (0xFFFF / sizeof(mon::Trk)) - 2 + r.below(5);
    int64_t l0 = mon::live;
    {
      VARARRAY(mon::Trk, arr, n);
      CHECK(arr.Length() == n && (size_t)(mon::live - l0) == n, "vararray:construct", "%lld elements constructed, expected %zu", (long long)(mon::live - l0), n);
      for(size_t i = 0; i < n; ++i) arr[i] = mon::Trk((int)i);
      size_t c = 0;
      for(auto& t : arr) { CHECK(t.get() == (int)c, "vararray:element", "element %zu is %d", c, t.get()); ++c; }
      CHECK(c == n, "vararray:iteration", "iteration visited %zu of %zu", c, n);
      const auto& carr = arr;
      CHECK((size_t)(carr.end() - carr.begin()) == n && arr.GetSlice().length == n && !(!arr) && arr == arr.begin() && !(arr != arr.begin()), "vararray:access", "the const view spans %td of %zu", carr.end() - carr.begin(), n);
      if(n) CHECK(arr.Front().get() == 0 && carr.Front().get() == 0 && arr.Back().get() == (int)n - 1 && carr.Back().get() == (int)n - 1 && arr->get() == 0 && carr->get() == 0 && (*arr).get() == 0 && (*carr).get() == 0 && ((mon::Trk*)arr)[n - 1].get() == (int)n - 1 && ((const mon::Trk*)carr)[n - 1].get() == (int)n - 1, "vararray:access", "the ends are wrong");
    }
    CHECK(mon::live == l0, "vararray:destroy", "elements not destroyed at end of scope");
    mon::op("vararray %zu", n);
  }
  {
    std::vector<int> b(1 + r.below(9));
    for(size_t i = 0; i < b.size(); ++i) b[i] = rv(r);
    Slice<int, size_t> s(b.data(), b.size());
    for(size_t i = 0; i < b.size(); ++i)
    {
      CHECK(s.length == b.size() - i && s.Front() == b[i] && s.Back() == b.back() && s[0] == b[i] && s.Valid() && !(!s), "slice:advance", "advancing a slice lost its place");
      if(i & 1) ++s;
      else { Slice<int, size_t> old = s++; CHECK(old.length == b.size() - i && old.Front() == b[i], "slice:postfix", "postfix ++ returned the wrong slice"); }
    }
    CHECK(!s && !s.Valid(), "slice:end", "exhausted slice still valid");
  }
}

void mon_case(Rng& r, uint64_t c)
{
  bool big = (c % 40) == 17;
  int steps = big ? 60 : 20 + (int)r.below(120);
  size_t maxlen = big ? 3000 : 10 + r.below(120);
  const char* kind = "";
  switch(c % 16)
  {
  case 0: kind = "DynArray<int,simple>"; Dyn<int, size_t, ARRAY_SIMPLE, true>::run(r, steps, maxlen); break;
  case 1: kind = "DynArray<Trk,safe>"; Dyn<mon::Trk, size_t, ARRAY_SAFE, true>::run(r, steps, maxlen); break;
  case 2: kind = "DynArray<TrkR,construct>"; Dyn<mon::TrkR, uint32_t, ARRAY_CONSTRUCT, true>::run(r, steps, maxlen); break;
  case 3: kind = "DynArray<MoveOnly,move>"; Dyn<MoveOnly, size_t, ARRAY_MOVE, false>::run(r, steps, maxlen); break;
  case 4: kind = "DynArray<Pod12,simple,u32>"; Dyn<Pod12, uint32_t, ARRAY_SIMPLE, true>::run(r, steps, maxlen); break;
  case 5: kind = "DynArray<uint8,simple,u16>"; Dyn<uint8_t, uint16_t, ARRAY_SIMPLE, true>::run(r, steps, maxlen); break;
  case 6: kind = "DynArray<Trk,safe,u16>"; Dyn<mon::Trk, uint16_t, ARRAY_SAFE, true>::run(r, steps, maxlen); break;
  case 7: kind = "Array<int,simple>"; Arr<int, size_t, ARRAY_SIMPLE, true>::run(r, steps, std::min<size_t>(maxlen, 300)); break;
  case 8: kind = "Array<Trk,safe>"; Arr<mon::Trk, size_t, ARRAY_SAFE, true>::run(r, steps, std::min<size_t>(maxlen, 300)); break;
  case 9: kind = "Array<TrkR,construct>"; Arr<mon::TrkR, uint32_t, ARRAY_CONSTRUCT, true>::run(r, steps, std::min<size_t>(maxlen, 300)); break;
  case 10: kind = "Array<MoveOnly,move>"; Arr<MoveOnly, size_t, ARRAY_MOVE, false>::run(r, steps, std::min<size_t>(maxlen, 300)); break;
  case 11: kind = "Array<Pod12,simple,u16>"; Arr<Pod12, uint16_t, ARRAY_SIMPLE, true>::run(r, steps, std::min<size_t>(maxlen, 300)); break;
  case 12: kind = "ArbitraryArray"; run_arbitrary(r, steps); break;
  case 13: kind = "misc"; run_misc(r); break;
  case 14: kind = "DynArray<double,simple>"; Dyn<double, size_t, ARRAY_SIMPLE, true>::run(r, steps, maxlen); break;
  case 15: kind = "DynArray<Trk,safe>growth"; Dyn<mon::Trk, size_t, ARRAY_SAFE, true>::run(r, steps, 400); break;
  }
  mon::op("kind %s", kind);
  mon::ev(kind);
  mon::nontrivial();
}
