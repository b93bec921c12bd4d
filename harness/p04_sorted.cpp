// Monitor for ordered lookup: ArraySort, Map, and the binary searches they are built on.
#include "mon.h"
#include <wchar.h>
#include "bss-util/ArraySort.h"
#include "bss-util/Map.h"
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>
using namespace bss;
using mon::Rng;

template<class T> static int V(const T& t) { return (int)t; }
static int big = 0; // elements to start with; when large, everything is compared every 16 operations only

template<class A, class T>
static void cmp(A& a, const std::multiset<int>& m, const char* what)
{
  const A& ca = a;
  CHECK((size_t)a.Length() == m.size() && a.Empty() == m.empty(), "sorted:length", "%s: length %zu, expected %zu", what, (size_t)a.Length(), m.size());
  size_t n = 0;
  auto it = m.begin();
  for(const T* p = ca.begin(); p != ca.end(); ++p, ++n, ++it)
    CHECK(n < m.size() && V(*p) == *it, "sorted:element", "%s: element %zu is %d, expected %d", what, n, V(*p), n < m.size() ? *it : -1);
  CHECK(n == m.size(), "sorted:iterate", "%s: iteration visited %zu of %zu", what, n, m.size());
  if(n) CHECK(V(ca.Front()) == *m.begin() && V(ca.Back()) == *m.rbegin(), "sorted:front-back", "%s", what);
}

template<class T, class CT, ARRAY_TYPE AT, bool INV>
static void run_sort(Rng& r, int steps, int range)
{
  typedef ArraySort<T, INV ? &CompTInv<T> : &CompT<T>, CT, AT> A;
  A* a = new A((CT)r.below(5));
  A* b = new A();
  std::multiset<int> m, mb; // stored negated when INV so that the model is always ascending in container order
  auto sgn = [](int v) { return INV ? -v : v; };
  auto check = [&](A& x, std::multiset<int>& mm, const char* nm) {
    const A& cx = x;
    CHECK((size_t)x.Length() == mm.size() && x.Empty() == mm.empty(), "sorted:length", "%s: length %zu, expected %zu", nm, (size_t)x.Length(), mm.size());
    size_t n = 0;
    auto it = mm.begin();
    for(const T* p = cx.begin(); p != cx.end(); ++p, ++n, ++it)
      CHECK(n < mm.size() && sgn(V(*p)) == *it, "sorted:element", "%s: element %zu is %d, out of order or lost", nm, n, V(*p));
    CHECK(n == mm.size(), "sorted:iterate", "%s", nm);
    CHECK(x.end() - x.begin() == (ptrdiff_t)mm.size() && (mm.empty() || (x.begin() == cx.begin() && &x[0] == x.begin() && &cx[0] == cx.begin())), "sorted:iterate", "%s: begin/end disagree", nm);
    CHECK(x.Capacity() >= x.Length(), "sorted:capacity", "%s: capacity %zu below length", nm, (size_t)x.Capacity());
    auto sl = cx.GetSlice();
    CHECK(sl.length == x.Length() && (mm.empty() || sl.start == x.begin()), "sorted:slice", "%s: the slice is not the contents", nm);
    if(!mm.empty())
      CHECK(sgn(V(cx.Front())) == *mm.begin() && sgn(V(x.Front())) == *mm.begin() && sgn(V(cx.Back())) == *mm.rbegin() && sgn(V(x.Back())) == *mm.rbegin(), "sorted:front-back", "%s", nm);
  };
  for(int i = 0; i < big; ++i) { int v = (int)r.range(0, range); a->Insert(T(v)); m.insert(sgn(v)); }
  for(int s = 0; s < steps; ++s)
  {
    int v = (int)r.range(0, range);
    const char* nm = "?";
    switch(r.below(11))
    {
    case 0: case 1: case 2: { nm = "Insert&&"; CT at = a->Insert(T(v)); m.insert(sgn(v)); CHECK((size_t)at < m.size() && V((*a)[at]) == v, "sorted:insert-index", "Insert(%d) returned index %zu", v, (size_t)at); break; }
    case 3: { nm = "Insert&"; T t(v); CT at = a->Insert((const T&)t); m.insert(sgn(v)); CHECK((size_t)at < m.size() && V((*a)[at]) == v, "sorted:insert-index", "Insert(%d) returned index %zu", v, (size_t)at); break; }
    case 4: nm = "Remove"; if(!m.empty()) { size_t i = r.below(m.size()); auto it = m.begin(); std::advance(it, i); mon::note(i); CHECK(a->Remove((CT)i), "sorted:remove", "Remove(%zu) of %zu failed", i, m.size()); m.erase(it); } else CHECK(!a->Remove(0), "sorted:remove", "Remove on empty succeeded"); break;
    case 5: nm = "Replace"; if(!m.empty()) { size_t i = r.below(m.size()); auto it = m.begin(); std::advance(it, i); m.erase(it); T t(v); CT at = a->ReplaceData((CT)i, t); m.insert(sgn(v)); mon::note(i); CHECK((size_t)at < m.size() && V((*a)[at]) == v, "sorted:replace-index", "ReplaceData(%zu,%d) returned index %zu", i, v, (size_t)at); } break;
    case 6: nm = "Discard"; if(r.chance(1, 3)) { size_t n = r.below(4); size_t left = n > m.size() ? 0 : m.size() - n; a->Discard((CT)n); while(m.size() > left) m.erase(std::prev(m.end())); } break;
    case 7: if(r.chance(1, 2)) { nm = "SetCapacity"; size_t c = m.size() + r.below(9); a->SetCapacity((CT)c); CHECK((size_t)a->Capacity() >= c, "sorted:capacity", "capacity %zu after asking for %zu", (size_t)a->Capacity(), c); break; }
      nm = "Clear"; if(r.chance(1, 8)) { a->Clear(); m.clear(); } break;
    case 8: nm = "CopyAssign"; *b = *a; mb = m; break;
    case 9: nm = "MoveAssign"; if(r.chance(1, 2)) { *b = std::move(*a); mb = m; m.clear(); } break;
    case 10: { nm = "CopyConstruct"; A n(*a); check(n, m, nm); A n2(std::move(n)); check(n2, m, nm); break; }
    }
    mon::op("sort %s v=%d len=%zu", nm, v, m.size());
    if(!big || s % 16 == 0) { check(*a, m, nm); check(*b, mb, nm); }
    for(int q = 0; q < 3; ++q)
    {
      int key = (int)r.range(-1, range + 1);
      T k(key);
      CT f = a->Find(k);
      bool has = m.count(sgn(key)) > 0;
      CHECK(has ? ((size_t)f < m.size() && V((*a)[f]) == key) : f == (CT)-1, "sorted:find", "Find(%d) = %zu with %zu copies present", key, (size_t)f, m.count(sgn(key)));
      auto ub = m.upper_bound(sgn(key));
      size_t nb = std::distance(m.begin(), ub); // number of elements not after key
      CT before = a->FindNear(k, true);
      CHECK(nb == 0 ? before == (CT)-1 : (size_t)before == nb - 1, "sorted:find-before", "FindNear(%d,before) = %zu, expected %zd", key, (size_t)before, (ssize_t)nb - 1);
      size_t lb = std::distance(m.begin(), m.lower_bound(sgn(key)));
      CT after = a->FindNear(k, false);
      CHECK(lb == m.size() ? after == (CT)-1 : (size_t)after == lb, "sorted:find-after", "FindNear(%d,after) = %zu, expected %zu of %zu", key, (size_t)after, lb, m.size());
    }
  }
  delete a;
  delete b;
}

template<class D, ARRAY_TYPE AT>
static void run_map(Rng& r, int steps, int range)
{
  typedef Map<int, D, CompT<int>, size_t, AT> M;
  M* a = new M();
  M* b = new M((size_t)r.below(4));
  std::map<int, int> m, mb;
  auto check = [&](M& x, std::map<int, int>& mm, const char* nm) {
    CHECK(x.Length() == mm.size(), "map:length", "%s: length %zu, expected %zu", nm, x.Length(), mm.size());
    size_t i = 0;
    for(auto& p : mm)
    {
      CHECK(x.KeyIndex(i) == p.first && V(x.DataIndex(i)) == p.second, "map:element", "%s: entry %zu is (%d,%d), expected (%d,%d)", nm, i, x.KeyIndex(i), V(x.DataIndex(i)), p.first, p.second);
      ++i;
    }
    const M& cx = x;
    i = 0;
    for(auto& e : cx) { CHECK(i < mm.size() && &e == &cx[i] && &e == &x[i] && &std::get<1>(e) == &cx(i), "map:iterate", "%s: iteration at %zu", nm, i); ++i; }
    CHECK(i == mm.size() && (size_t)(x.end() - x.begin()) == i, "map:iterate", "%s: iteration visited %zu of %zu", nm, i, mm.size());
    auto sl = cx.GetSlice();
    CHECK(sl.length == mm.size() && (mm.empty() || sl.start == x.begin()), "map:slice", "%s", nm);
    if(!mm.empty())
      CHECK(std::get<0>(x.Front()) == mm.begin()->first && std::get<0>(cx.Front()) == mm.begin()->first && V(std::get<1>(x.Back())) == mm.rbegin()->second && V(std::get<1>(cx.Back())) == mm.rbegin()->second, "map:front-back", "%s", nm);
  };
  if(big) range = big * 3;
  for(int i = 0; i < big; ++i) { int k = (int)r.range(0, range), v = (int)r.below(100000); if(!m.count(k)) { a->Insert(k, D(v)); m[k] = v; } }
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.range(0, range), v = (int)r.below(100000);
    const char* nm = "?";
    switch(r.below(13))
    {
    case 10: nm = "Replace&&"; if(!m.empty() && !m.count(k)) { size_t i = r.below(m.size()); auto it = m.begin(); std::advance(it, i); m.erase(it); size_t at = a->Replace(i, k, D(v)); m[k] = v; CHECK(at < m.size() && a->KeyIndex(at) == k && V(a->DataIndex(at)) == v, "map:replace", "Replace(%zu,%d) returned %zu", i, k, at); } break;
    case 11: nm = "Copy"; { M n(*a); check(n, m, nm); M n2(std::move(n)); check(n2, m, nm); if(r.chance(1, 6)) { a->Clear(); m.clear(); } break; }
    case 12: nm = "Discard"; if(r.chance(1, 2)) { size_t n = r.below(4); size_t left = n > m.size() ? 0 : m.size() - n; a->Discard(n); while(m.size() > left) m.erase(std::prev(m.end())); } break;
    case 0: case 1: case 2: nm = "Insert"; if(!m.count(k)) { size_t at = r.chance(1, 2) ? a->Insert(k, D(v)) : [&] { D d(v); return a->Insert(k, (const D&)d); }(); m[k] = v; CHECK(at < m.size() && a->KeyIndex(at) == k && V(a->DataIndex(at)) == v, "map:insert-index", "Insert(%d) returned %zu", k, at); } break;
    case 3: { nm = "Remove"; size_t i = a->Remove(k); CHECK((i != (size_t)-1) == (m.count(k) > 0), "map:remove", "Remove(%d) returned %zd", k, (ssize_t)i); m.erase(k); break; }
    case 4: { nm = "Set"; D d(v); size_t i = a->Set(k, d); if(m.count(k)) { CHECK(i < m.size() && a->KeyIndex(i) == k, "map:set", "Set(%d) returned %zu", k, i); m[k] = v; } break; }
    case 5: nm = "ReplaceKey"; if(!m.empty() && !m.count(k)) { size_t i = r.below(m.size()); auto it = m.begin(); std::advance(it, i); int d = it->second; m.erase(it); size_t at = a->ReplaceKey(i, k); m[k] = d; CHECK(at < m.size() && a->KeyIndex(at) == k && V(a->DataIndex(at)) == d, "map:replacekey", "ReplaceKey(%zu,%d) returned %zu", i, k, at); } break;
    case 6: nm = "Replace"; if(!m.empty() && !m.count(k)) { size_t i = r.below(m.size()); auto it = m.begin(); std::advance(it, i); m.erase(it); D d(v); size_t at = a->Replace(i, k, (const D&)d); m[k] = v; CHECK(at < m.size() && a->KeyIndex(at) == k && V(a->DataIndex(at)) == v, "map:replace", "Replace(%zu,%d) returned %zu", i, k, at); } break;
    case 7: nm = "Assign"; if(r.chance(1, 3)) { *b = std::move(*a); mb = m; m.clear(); } else { *b = *a; mb = m; } break;
    case 8: nm = "RemoveIndex"; if(!m.empty()) { size_t i = r.below(m.size()); auto it = m.begin(); std::advance(it, i); a->RemoveIndex(i); m.erase(it); } break;
    case 9: nm = "Write"; if(m.count(k)) { size_t i = a->Get(k); if(i < m.size()) (*a)(i) = D(v); m[k] = v; } break;
    }
    mon::op("map %s k=%d len=%zu", nm, k, m.size());
    if(!big || s % 16 == 0) { check(*a, m, nm); check(*b, mb, nm); }
    for(int q = 0; q < 3; ++q)
    {
      int key = (int)r.range(-1, range + 1);
      size_t g = a->Get(key);
      auto it = m.find(key);
      CHECK(it == m.end() ? g == (size_t)-1 : (g < m.size() && a->KeyIndex(g) == key && V((*a)(g)) == it->second), "map:get", "Get(%d) = %zd", key, (ssize_t)g);
      if(it != m.end()) CHECK(V(a->GetData(key)) == it->second, "map:getdata", "GetData(%d) = %d, expected %d", key, V(a->GetData(key)), it->second);
      size_t nb = std::distance(m.begin(), m.upper_bound(key)), lb = std::distance(m.begin(), m.lower_bound(key));
      CHECK(a->GetNear(key, true) == nb - 1, "map:near-before", "GetNear(%d,before) = %zd, expected %zd", key, (ssize_t)a->GetNear(key, true), (ssize_t)nb - 1);
      CHECK(a->GetNear(key, false) == (lb == m.size() ? (size_t)-1 : lb), "map:near-after", "GetNear(%d,after) = %zd, expected %zu", key, (ssize_t)a->GetNear(key, false), lb);
    }
  }
  delete a;
  delete b;
}

static void run_strmap(Rng& r, int steps)
{
  // case-insensitive string keys compare as one key
  static const char* words[] = { "alpha", "Beta", "GAMMA", "delta", "epsilon", "Zeta", "eta", "theta", "iota", "a", "aa", "Aab", "" };
  typedef Map<const char*, int, CompIStr<const char*>> M;
  M a;
  std::map<std::string, int> m;
  auto lower = [](std::string s) { for(auto& c : s) c = (char)tolower(c); return s; };
  std::vector<std::string*> keep;
  for(int s = 0; s < steps; ++s)
  {
    std::string* w = new std::string(words[r.below(13)]);
    keep.push_back(w);
    for(auto& c : *w) if(r.chance(1, 2)) c = (char)(r.chance(1, 2) ? toupper(c) : tolower(c));
    int v = (int)r.below(1000);
    std::string l = lower(*w);
    size_t g = a.Get(w->c_str());
    CHECK((g != (size_t)-1) == (m.count(l) > 0), "map:istr-get", "Get(\"%s\") = %zd", w->c_str(), (ssize_t)g);
    if(g != (size_t)-1) CHECK(a(g) == m[l], "map:istr-data", "data of \"%s\"", w->c_str());
    if(r.chance(1, 3)) { a.Remove(w->c_str()); m.erase(l); }
    else if(g == (size_t)-1) { a.Insert(w->c_str(), v); m[l] = v; }
    CHECK(a.Length() == m.size(), "map:istr-length", "length");
    size_t i = 0;
    for(auto& p : m) { CHECK(lower(a.KeyIndex(i)) == p.first, "map:istr-order", "entry %zu is %s", i, a.KeyIndex(i)); ++i; }
    mon::op("istr %s", w->c_str());
  }
  for(auto w : keep) delete w;
}

template<class CT>
static void run_search(Rng& r)
{
  size_t n = r.below(sizeof(CT) == 1 ? 100 : r.chance(1, 10) ? 5000 : 60);
  int range = 1 + (int)r.below(n * 2 + 3);
  std::vector<int> v(n + 1);
  for(size_t i = 0; i < n; ++i) v[i] = (int)r.below(range);
  std::sort(v.begin(), v.begin() + n);
  mon::op("search n=%zu range=%d", n, range);
  for(int q = 0; q < 40; ++q)
  {
    int key = (int)r.range(-1, range + 1);
    size_t lb = std::lower_bound(v.begin(), v.begin() + n, key) - v.begin(), ub = std::upper_bound(v.begin(), v.begin() + n, key) - v.begin();
    CT b = BinarySearchBefore<int, CT, CompT<int>>(v.data(), (CT)n, key);
    CHECK(b == (CT)(ub - 1), "search:before", "BinarySearchBefore(%d) = %zu, expected %zd", key, (size_t)b, (ssize_t)ub - 1);
    CT a = BinarySearchAfter<int, CT, CompT<int>>(v.data(), (CT)n, key);
    CHECK(a == (CT)lb, "search:after", "BinarySearchAfter(%d) = %zu, expected %zu", key, (size_t)a, lb);
    CT e = BinarySearchExact<int, int, CT, CompT<int>>(v.data(), key, 0, (CT)n);
    CHECK(lb == ub ? e == (CT)-1 : (e >= lb && e < ub), "search:exact", "BinarySearchExact(%d) = %zu", key, (size_t)e);
    size_t f = r.below(n + 1), l = f + r.below(n - f + 1);
    size_t slb = std::lower_bound(v.begin() + f, v.begin() + l, key) - v.begin(), sub = std::upper_bound(v.begin() + f, v.begin() + l, key) - v.begin();
    CHECK((BinarySearchAfter<int, CT, CompT<int>>(v.data(), key, (CT)f, (CT)l)) == (CT)slb, "search:after-range", "range [%zu,%zu) key %d", f, l, key);
    CHECK((BinarySearchBefore<int, CT, CompT<int>>(v.data(), key, (CT)f, (CT)l)) == (CT)(sub - 1), "search:before-range", "range [%zu,%zu) key %d", f, l, key);
    CT se = BinarySearchExact<int, int, CT, CompT<int>>(v.data(), key, (CT)f, (CT)l);
    CHECK(slb == sub ? se == (CT)-1 : (se >= slb && se < sub), "search:exact-range", "range [%zu,%zu) key %d", f, l, key);
  }
}

static void run_search_arr(Rng& r)
{
  int v[23];
  for(auto& x : v) x = (int)r.below(30);
  std::sort(v, v + 23);
  for(int key = -1; key < 31; ++key)
  {
    size_t lb = std::lower_bound(v, v + 23, key) - v, ub = std::upper_bound(v, v + 23, key) - v;
    CHECK((BinarySearchBefore<int, uint32_t, CompT<int>, 23>(v, key)) == (uint32_t)(ub - 1), "search:before-array", "key %d", key);
    CHECK((BinarySearchAfter<int, uint32_t, CompT<int>, 23>(v, key)) == (uint32_t)lb, "search:after-array", "key %d", key);
    uint32_t e = BinarySearchExact<int, uint32_t, CompT<int>, 23>(v, key);
    CHECK(lb == ub ? e == (uint32_t)-1 : (e >= lb && e < ub), "search:exact-array", "key %d = %u", key, e);
  }
}
// the comparators the containers are used with, against what they say they compare
template<class T> static void comp_values(const T& a, const T& b)
{
  int e = a < b ? -1 : b < a ? 1 : 0;
  CHECK(CompT<T>(a, b) == e, "comp:CompT", "%d instead of %d", (int)CompT<T>(a, b), e);
  CHECK(CompTInv<T>(a, b) == -e, "comp:CompTInv", "%d instead of %d", (int)CompTInv<T>(a, b), -e);
  CHECK(CompT_LT<T>(a, b) == (e < 0 ? -1 : 0), "comp:CompT_LT", "%d for order %d", (int)CompT_LT<T>(a, b), e);
  CHECK(CompT_GT<T>(a, b) == (e > 0 ? 1 : 0), "comp:CompT_GT", "%d for order %d", (int)CompT_GT<T>(a, b), e);
  CHECK(CompT_EQ<T>(a, b) == (e == 0) && CompT_NEQ<T>(a, b) == (e != 0), "comp:CompT_EQ", "wrong for order %d", e);
}
template<class W> static int text_order(const W& a, const W& b, bool fold)
{
  auto f = [&](uint32_t c) -> int64_t { return fold && c >= 'A' && c <= 'Z' ? c + 32 : c; };
  auto u = [](auto c) -> uint32_t { return sizeof(c) == 1 ? (uint8_t)c : (uint32_t)c; };
  for(size_t i = 0; ; ++i)
  {
    int64_t x = i < a.size() ? f(u(a[i])) : -1, y = i < b.size() ? f(u(b[i])) : -1;
    if(x != y) return x < y ? -1 : 1;
    if(x < 0) return 0;
  }
}
static void run_comp(Rng& r)
{
  for(int k = 0; k < 20; ++k)
  {
    auto num = [&]() -> int64_t { static const int64_t X[] = { 0, -1, 1, INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, 127, 128, -128, 255, 256 }; return r.chance(1, 2) ? X[r.below(12)] : r.chance(1, 2) ? (int64_t)r.below(5) : (int64_t)r.next(); };
    int64_t a = num(), b = r.chance(1, 4) ? a : num(), c = num(), d = r.chance(1, 3) ? c : num();
    comp_values<int64_t>(a, b);
    comp_values<uint64_t>(a, b);
    comp_values<int>((int)a, (int)b);
    comp_values<uint8_t>((uint8_t)a, (uint8_t)b);
    comp_values<short>((short)a, (short)b);
    comp_values<double>((double)a / 3, (double)b / 3);
    typedef std::pair<int64_t, double> P;
    P p(a, (double)c), q(b, (double)d);
    int e1 = a < b ? -1 : a > b, e2 = (double)c < (double)d ? -1 : (double)c > (double)d;
    CHECK(CompTFirst(p, q) == e1 && CompTSecond(p, q) == e2, "comp:pair", "order %d of the firsts or %d of the seconds is wrong", e1, e2);
    CHECK(CompTBoth(p, q) == (e1 ? e1 : e2), "comp:both", "%d for orders %d and %d", (int)CompTBoth(p, q), e1, e2);
    CHECK((CompTFirst<int64_t, double, &CompTInv<int64_t>>(p, q)) == -e1, "comp:first-inverted", "order %d", e1);
    CHECK((CompTBoth<int64_t, double, &CompTInv<int64_t>, &CompTInv<double>>(p, q)) == -(e1 ? e1 : e2), "comp:both-inverted", "orders %d and %d", e1, e2);
    typedef std::tuple<int64_t, double> T;
    T t(a, (double)c), u(b, (double)d);
    CHECK((CompTuple<T>(t, u)) == e1 && (CompTuple<T, 1>(t, u)) == e2, "comp:tuple", "order %d of the firsts or %d of the seconds is wrong", e1, e2);
    auto text = [&] { std::string s; for(int n = (int)r.below(5); n > 0; --n) s += "abAB_[`{zZ0\xE9\x80\x7F"[r.below(14)]; return s; };
    std::string s = text(), z = r.chance(1, 3) ? s : r.chance(1, 4) ? s + text() : text();
    if(r.chance(1, 3)) for(auto& x : z) if(r.chance(1, 2) && x > 64 && (x | 32) >= 'a' && (x | 32) <= 'z') x ^= 32;
    bool ascii = true;
    for(char x : s + z) ascii = ascii && x > 0;
    const char *cs = s.c_str(), *cz = z.c_str();
    int o = text_order(s, z, false), oi = text_order(s, z, true);
    auto sg = [](int x) { return (x > 0) - (x < 0); };
    CHECK(sg(CompStr<const char*>(cs, cz)) == o && CompStrLT<const char*>(cs, cz) == (o < 0), "comp:CompStr", "\"%s\" and \"%s\" have order %d", cs, cz, o);
    CHECK(sg(CompIStr<const char*>(cs, cz)) == oi && CompIStrLT<const char*>(cs, cz) == (oi < 0), "comp:CompIStr", "\"%s\" and \"%s\" have order %d", cs, cz, oi);
    if(ascii)
    {
      std::wstring ws(s.begin(), s.end()), wz(z.begin(), z.end());
      const wchar_t *wcs = ws.c_str(), *wcz = wz.c_str();
      CHECK(sg(CompStrW<const wchar_t*>(wcs, wcz)) == o, "comp:CompStrW", "\"%s\" and \"%s\" have order %d", cs, cz, o);
      CHECK(sg(CompIStrW<const wchar_t*>(wcs, wcz)) == oi, "comp:CompIStrW", "\"%s\" and \"%s\" have order %d", cs, cz, oi);
    }
    {
      std::wstring ws, wz;
      static const wchar_t W[] = { L'a', L'A', 0xE9, 0x100, 0x17F0, 0x3042, 0x1F600, L'z' };
      for(int n = (int)r.below(3); n > 0; --n) { ws += W[r.below(8)]; wz += r.chance(1, 2) ? ws.back() : W[r.below(8)]; }
      if(r.chance(1, 3)) ws += W[r.below(8)];
      int wo = text_order(ws, wz, false);
      const wchar_t *wcs = ws.c_str(), *wcz = wz.c_str();
      CHECK(sg(CompStrW<const wchar_t*>(wcs, wcz)) == wo, "comp:CompStrW", "wide texts have order %d", wo);
    }
    mon::op("compared %lld %lld \"%s\" \"%s\"", (long long)a, (long long)b, cs, cz);
  }
  // and a sorted array of texts or of pairs ordered by them
  std::vector<std::string> own;
  own.reserve(64);
  std::vector<const char*> m;
  ArraySort<const char*, CompStr<const char*>> arr;
  ArraySort<const char*, CompIStr<const char*>> iarr;
  ArraySort<std::pair<int, int>, CompTBoth<int, int>> parr;
  std::multiset<std::pair<int, int>> pm;
  for(int n = (int)r.below(40); n > 0; --n)
  {
    std::string s;
    for(int k = (int)r.below(4); k > 0; --k) s += "aAbBz"[r.below(5)];
    own.push_back(s);
    m.push_back(own.back().c_str());
    arr.Insert(m.back());
    iarr.Insert(m.back());
    std::pair<int, int> p((int)r.below(5), (int)r.below(5));
    parr.Insert(p);
    pm.insert(p);
  }
  CHECK(arr.Length() == m.size() && iarr.Length() == m.size() && parr.Length() == pm.size(), "comp:length", "%zu, %zu and %zu of %zu", (size_t)arr.Length(), (size_t)iarr.Length(), (size_t)parr.Length(), m.size());
  std::multiset<std::string> all(own.begin(), own.end()), seen;
  for(size_t i = 0; i < m.size(); ++i) seen.insert(iarr[i]);
  CHECK(seen == all, "comp:content", "a sorted array of texts without case does not hold what was inserted");
  size_t i = 0;
  for(auto& s : all) { CHECK(s == arr[i], "comp:order", "text %zu is \"%s\" instead of \"%s\"", i, arr[i], s.c_str()); ++i; }
  for(i = 1; i < m.size(); ++i) CHECK(text_order(std::string(iarr[i - 1]), std::string(iarr[i]), true) <= 0, "comp:order", "\"%s\" before \"%s\"", iarr[i - 1], iarr[i]);
  i = 0;
  for(auto& p : pm) { CHECK(parr[i] == p, "comp:order", "pair %zu is (%d, %d) instead of (%d, %d)", i, parr[i].first, parr[i].second, p.first, p.second); ++i; }
}

void mon_case(Rng& r, uint64_t c)
{
  int steps = 20 + (int)r.below(120);
  int range = r.chance(1, 2) ? 6 + (int)r.below(10) : 500;
  big = r.chance(1, 200) ? 200 + (int)r.below(1500) : 0;
  if(big) mon::ev("large");
  switch(c % 13)
  {
  case 0: run_sort<int, size_t, ARRAY_SIMPLE, false>(r, steps, range); mon::ev("ArraySort<int>"); break;
  case 1: run_sort<mon::Trk, size_t, ARRAY_SAFE, false>(r, steps, range); mon::ev("ArraySort<tracked>"); break;
  case 2: run_sort<int, uint32_t, ARRAY_SIMPLE, true>(r, steps, range); mon::ev("ArraySort<int,descending>"); break;
  case 3: run_sort<mon::TrkR, uint16_t, ARRAY_CONSTRUCT, false>(r, steps, range); mon::ev("ArraySort<relocatable>"); break;
  case 4: run_map<int, ARRAY_SIMPLE>(r, steps, range); mon::ev("Map<int,int>"); break;
  case 5: run_map<mon::Trk, ARRAY_SAFE>(r, steps, range); mon::ev("Map<int,tracked>"); break;
  case 6: run_map<mon::TrkR, ARRAY_CONSTRUCT>(r, steps, range); mon::ev("Map<int,relocatable>"); break;
  case 7: run_strmap(r, steps); mon::ev("Map<istr>"); break;
  case 8: run_search<size_t>(r); run_search_arr(r); mon::ev("search<size_t>"); break;
  case 9: run_search<uint32_t>(r); mon::ev("search<u32>"); break;
  case 10: run_search<uint8_t>(r); mon::ev("search<u8>"); break;
  case 12: run_comp(r); mon::ev("comparators"); break;
  case 11: run_search<uint16_t>(r); mon::ev("search<u16>"); break;
  }
  mon::nontrivial();
}
