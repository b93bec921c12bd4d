// Monitor for the hash tables: a map/set model, over many key kinds and deliberately colliding hash functions.
#include "mon.h"
#include "bss-util/Hash.h"
#include <vector>
#include <array>
#include <map>
#include <set>
#include <string>
#include <algorithm>
using namespace bss;
using mon::Rng;

template<class T> static int V(const T& t) { return (int)t; }
// GET of a hash of class type is a pointer to the stored value
static int G(int v) { return v; }
static int G(const mon::Trk* p) { return p ? p->get() : -1; }
static int G(const mon::TrkR* p) { return p ? p->get() : -1; }

static std::vector<std::string> pool; // stable storage for C-string keys
struct KInt { typedef int K; static K make(int i) { return i * 37 - 11; } };
struct KU64 { typedef uint64_t K; static K make(int i) { return ((uint64_t)i << 33) ^ (uint64_t)i * 0x9E3779B97F4A7C15ull; } };
struct KI16 { typedef short K; static K make(int i) { return (short)(i * 3); } };
struct KStd { typedef std::string K; static K make(int i) { char b[64]; snprintf(b, 64, i % 3 ? "key%d" : "a considerably longer key number %d", i); return b; } };
struct KStr { typedef Str K; static K make(int i) { char b[64]; snprintf(b, 64, i % 3 ? "k%d" : "another considerably longer key %d", i); return Str(b); } };
struct KPtr { typedef const char* K; static K make(int i) { return pool[i % pool.size()].c_str(); } };
struct KPair { typedef std::pair<int, uint16_t> K; static K make(int i) { return K(i / 7, (uint16_t)(i % 7)); } };
struct KTup { typedef std::tuple<short, int, std::string> K; static K make(int i) { return K((short)(i % 5), i / 5, i % 2 ? "x" : "yy"); } };
// text keys whose default hashes are all equal ("Aa" and "BB" hash alike)
static std::string alike(int i) { std::string s; for(int b = 0; b < 7; ++b) s += (i >> b) & 1 ? "Aa" : "BB"; return s; }
static std::vector<std::string> apool;
struct KAlike { typedef std::string K; static K make(int i) { return alike(i % 128) + std::to_string(i / 128); } };
struct KAPtr { typedef const char* K; static K make(int i) { return apool[i % apool.size()].c_str(); } };
struct KAPair { typedef std::pair<std::string, int> K; static K make(int i) { return K(alike(i % 16), i / 16 % 2 + i / 32 * 7); } };
struct KATup { typedef std::tuple<int, std::string, std::string> K; static K make(int i) { return K(i / 64, alike(i % 8), alike(i / 8 % 8)); } };
struct KLPair { typedef std::pair<int64_t, uint64_t> K; static K make(int i) { return K(((int64_t)(i % 5) << 40) - (i % 3), ((uint64_t)(i / 5) << 48) | (i / 5)); } };
struct KArr { typedef std::array<int, 3> K; static K make(int i) { return K{ { i % 3, i / 3 % 3, i / 9 } }; } };
static std::vector<std::wstring> wpool;
struct KWPtr { typedef const wchar_t* K; static K make(int i) { return wpool[i % wpool.size()].c_str(); } };
struct KWStd { typedef std::wstring K; static K make(int i) { return wpool[i % wpool.size()]; } };
struct KEnum { enum class E : int {}; typedef E K; static K make(int i) { return (E)(i * 3 - 40); } };
struct KTrk { typedef mon::Trk K; static K make(int i) { return K(i); } };

static khint_t clash4(const int& k) { return (khint_t)(k & 3); }
static bool eqint(const int& a, const int& b) { return a == b; }
static khint_t hashtrk(const mon::Trk& k) { return (khint_t)k.get() * 5; }
static bool eqtrk(const mon::Trk& a, const mon::Trk& b) { return a.get() == b.get(); }
static khint_t same(const uint64_t& k) { return 7; }
static bool equ64(const uint64_t& a, const uint64_t& b) { return a == b; }

template<class H, class KM, class D>
static void check_map(H& h, std::map<int, int>& m, int nkeys, Rng& r, const char* nm, bool full)
{
  const H& ch = h;
  CHECK((size_t)h.Length() == m.size(), "hash:length", "%s: length %u, expected %zu", nm, (unsigned)h.Length(), m.size());
  int tries = full ? nkeys : 6;
  for(int t = 0; t < tries; ++t)
  {
    int id = full ? t : (int)r.below(nkeys);
    auto it = m.find(id);
    typename KM::K key = KM::make(id);
    bool has = it != m.end();
    CHECK(h.Exists(key) == has && ch(key) == has, "hash:exists", "%s: key #%d exists=%d, expected %d (of %zu)", nm, id, (int)h.Exists(key), (int)has, m.size());
    khiter_t i = h.Iterator(key);
    CHECK(h.ExistsIter(i) == has, "hash:iterator", "%s: iterator of key #%d", nm, id);
    if(has)
    {
      CHECK(V(h.Value(i)) == it->second && V(ch.Value(i)) == it->second, "hash:value", "%s: key #%d has value %d, expected %d", nm, id, V(h.Value(i)), it->second);
      CHECK(G(h.Get(key)) == it->second && G(ch[key]) == it->second && G(h.GetValue(i)) == it->second, "hash:get", "%s: Get(key #%d) differs", nm, id);
      CHECK(h.PointerValue(i) && V(*h.PointerValue(i)) == it->second, "hash:pointer", "%s: PointerValue(key #%d)", nm, id);
      D out(0);
      CHECK(ch(key, out) && V(out) == it->second, "hash:lookup", "%s: lookup of key #%d", nm, id);
    }
    else
    {
      CHECK(G(h.Get(key)) == -1, "hash:get-missing", "%s: Get of a missing key #%d is not the missing value", nm, id);
      D out(5);
      CHECK(!ch(key, out) && V(out) == 5, "hash:lookup-missing", "%s: lookup of missing key #%d succeeded", nm, id);
      CHECK(!h.PointerValue(i), "hash:pointer-missing", "%s: PointerValue of missing key", nm);
    }
  }
  size_t n = 0;
  std::multiset<int> got, want;
  for(auto kv : h)
  {
    ++n;
    if(n > m.size()) break;
    got.insert(V(std::get<1>(kv)));
    CHECK(h.PointerValue(h.Iterator(std::get<0>(kv))) == &std::get<1>(kv), "hash:iterate-pair", "%s: iteration pairs a key with another key's value", nm);
  }
  for(auto& p : m) want.insert(p.second);
  CHECK(n == m.size() && got == want, "hash:iterate", "%s: iteration yields %zu entries of %zu, or other values", nm, n, m.size());
  {
    size_t cn = 0;
    std::multiset<int> cgot;
    for(auto ci = ch.begin(); !(ci == ch.end()) && cn <= m.size(); ++cn) { if(cn & 1) ++ci; else { auto old = ci++; cgot.insert(V(std::get<1>(*old))); continue; } }
    CHECK(cn == m.size(), "hash:iterate-const", "%s: const iteration yields %zu entries of %zu", nm, cn, m.size());
    std::multiset<int> all;
    for(auto kv : ch) all.insert(V(std::get<1>(kv)));
    CHECK(all == want, "hash:iterate-const", "%s: const iteration yields other values", nm);
    if(cn > 1) { auto q = ch.end(); auto q2 = q--; CHECK(q2 == ch.end() && q != ch.end(), "hash:iterate-back", "%s: it-- from the end", nm); }
  }
  auto b = h.begin(), e = h.end();
  n = 0;
  while(e != b && n <= m.size()) { --e; ++n; }
  CHECK(n == m.size(), "hash:iterate-back", "%s: backward iteration yields %zu of %zu", nm, n, m.size());
}

template<class H, class KM, class D, bool COPY>
static void run_map(Rng& r, int steps, int nkeys)
{
  H* h[2] = { new H((khint_t)r.below(40)), new H() };
  std::map<int, int> m[2];
  int mode = (int)r.below(3);
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k;
    H& x = *h[k];
    auto& v = m[k];
    int id = (int)r.below(nkeys), val = (int)r.below(1000000);
    const char* nm = "?";
    int what = (int)r.below(16);
    if(mode == 0 && what > 8 && r.chance(1, 2)) what = 0; // growth
    if(mode == 1 && what > 8 && r.chance(1, 2)) what = 4 + (int)r.below(2) * -4; // churn
    typename KM::K key = KM::make(id);
    switch(what)
    {
    case 0: case 1: { nm = "Insert&&"; khiter_t i = x.Insert(key, D(val)); v[id] = val; CHECK(x.ExistsIter(i) && V(x.Value(i)) == val, "hash:insert", "Insert returned an iterator that does not hold the value"); break; }
    case 2: { nm = "Insert&"; D d(val); x.Insert(key, (const D&)d); v[id] = val; CHECK(V(d) == val, "hash:argument", "Insert changed its argument"); break; }
    case 3: { nm = "InsertMoveKey"; if(r.chance(1, 2)) x.Insert(KM::make(id), D(val)); else { D d(val); x.Insert(KM::make(id), (const D&)d); CHECK(V(d) == val, "hash:argument", "Insert changed its argument"); } v[id] = val; break; }
    case 4: case 5: case 6: { nm = "Remove"; bool has = v.count(id); CHECK(x.Remove(key) == has, "hash:remove", "Remove of key #%d returned %d", id, (int)!has); v.erase(id); break; }
    case 7: { nm = "Set"; bool has = v.count(id); D d(val); CHECK((r.chance(1, 2) ? x.Set(key, D(val)) : x.Set(key, (const D&)d)) == has, "hash:set", "Set of key #%d returned %d", id, (int)!has); if(has) v[id] = val; break; }
    case 8: { nm = "SetValue"; bool has = v.count(id); D d(val); CHECK((r.chance(1, 2) ? x.SetValue(x.Iterator(key), (const D&)d) : x.SetValue(x.Iterator(key), D(val))) == has, "hash:setvalue", "SetValue of key #%d returned %d", id, (int)!has); if(has) v[id] = val; break; }
    case 9: { nm = "RemoveIter"; bool has = v.count(id); CHECK(x.RemoveIter(x.Iterator(key)) == has, "hash:removeiter", "RemoveIter of key #%d returned %d", id, (int)!has); v.erase(id); break; }
    case 10: nm = "Clear"; if(r.chance(1, 6)) { x.Clear(); v.clear(); } break;
    case 11: { nm = "SetCapacity"; khint_t c = (khint_t)r.below(r.chance(1, 30) ? 20000 : 300); x.SetCapacity(c); CHECK(x.Capacity() >= c, "hash:capacity", "capacity %u after asking for %u", (unsigned)x.Capacity(), (unsigned)c); break; }
    case 12: { nm = "MoveAssign"; if(r.chance(1, 2)) { *h[o] = std::move(x); m[o] = v; v.clear(); } break; }
    case 13: { nm = "MoveConstruct"; H* n = new H(std::move(x)); CHECK(x.Length() == 0, "hash:moved-from", "moved-from table not empty"); delete h[k]; h[k] = n; break; }
    case 14: { nm = "CopyAssign"; if constexpr(COPY) { if(r.chance(1, 4)) { H& y = x; x = y; } else { *h[o] = x; m[o] = v; } } break; }
    case 15: { nm = "CopyConstruct"; if constexpr(COPY) { H n(x); check_map<H, KM, D>(n, v, nkeys, r, "copy", false); n.Insert(key, D(val + 1)); n.Remove(KM::make((int)r.below(nkeys))); } break; }
    }
    mon::op("hash%d %s key#%d len=%zu cap=%u", k, nm, id, m[k].size(), (unsigned)h[k]->Capacity());
    mon::feature(what * 1315423911ull + m[k].size() * 64 + h[k]->Capacity());
    check_map<H, KM, D>(*h[k], m[k], nkeys, r, nm, (s % 16) == 0);
    if(what >= 12) check_map<H, KM, D>(*h[o], m[o], nkeys, r, nm, true);
  }
  check_map<H, KM, D>(*h[0], m[0], nkeys, r, "end", true);
  check_map<H, KM, D>(*h[1], m[1], nkeys, r, "end", true);
  delete h[0];
  delete h[1];
}

template<class H, class KM>
static void run_set(Rng& r, int steps, int nkeys)
{
  H* h[2] = { new H(), new H((khint_t)r.below(20)) };
  std::set<int> m[2];
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k;
    int id = (int)r.below(nkeys);
    typename KM::K key = KM::make(id);
    const char* nm = "?";
    switch(r.below(8))
    {
    case 0: case 1: case 2: { nm = "Insert"; khiter_t it = h[k]->Insert(key); m[k].insert(id); CHECK(h[k]->ExistsIter(it) && it == h[k]->Iterator(key), "set:insert", "Insert of a key returned an iterator to something else"); break; }
    case 3: { nm = "Insert&&"; khiter_t it = h[k]->Insert(KM::make(id)); m[k].insert(id); CHECK(h[k]->ExistsIter(it) && it == h[k]->Iterator(key), "set:insert", "Insert of a key returned an iterator to something else"); break; }
    case 4: case 5: { nm = "Remove"; bool has = m[k].count(id); CHECK(h[k]->Remove(key) == has, "hashset:remove", "Remove(#%d)", id); m[k].erase(id); break; }
    case 6: nm = "CopyAssign"; *h[o] = *h[k]; m[o] = m[k]; break;
    case 7: nm = "MoveAssign"; if(r.chance(1, 3)) { *h[o] = std::move(*h[k]); m[o] = m[k]; m[k].clear(); } break;
    }
    mon::op("set%d %s #%d len=%zu", k, nm, id, m[k].size());
    for(int j = 0; j < 2; ++j)
    {
      CHECK((size_t)h[j]->Length() == m[j].size(), "hashset:length", "%s: length %u, expected %zu", nm, (unsigned)h[j]->Length(), m[j].size());
      for(int t = 0; t < 5; ++t) { int q = (int)r.below(nkeys); CHECK(h[j]->Exists(KM::make(q)) == (m[j].count(q) > 0), "hashset:exists", "%s: #%d", nm, q); }
      size_t n = 0;
      for(auto& kk : *h[j]) { CHECK(h[j]->Exists(kk), "hashset:iterate", "%s: iteration yields an unknown key", nm); if(++n > m[j].size()) break; }
      CHECK(n == m[j].size(), "hashset:iterate", "%s: iteration yields %zu of %zu", nm, n, m[j].size());
    }
  }
  for(int q = 0; q < nkeys; ++q) CHECK(h[0]->Exists(KM::make(q)) == (m[0].count(q) > 0) && h[1]->Exists(KM::make(q)) == (m[1].count(q) > 0), "hashset:exists", "end: #%d", q);
  delete h[0];
  delete h[1];
}

// case-insensitive tables: keys that differ only in ASCII case are one key
template<class K>
static void run_ins(Rng& r, int steps)
{
  typedef HashIns<K, int, ARRAY_SAFE> H;
  H* h = new H();
  std::map<std::string, int> m;
  auto lower = [](std::string s) { for(auto& c : s) c = (char)tolower(c); return s; };
  std::set<std::string> hold; // keys that are pointers have to stay where they are
  std::set<std::wstring> whold;
  auto mkkey = [&](const std::string& s) -> K {
    std::wstring w(s.begin(), s.end());
    if constexpr(std::is_same_v<K, std::wstring>) return w;
    else if constexpr(std::is_same_v<K, const char*>) return hold.insert(s).first->c_str();
    else if constexpr(std::is_same_v<K, const wchar_t*>) return whold.insert(w).first->c_str();
    else return K(s.c_str());
  };
  for(int s = 0; s < steps; ++s)
  {
    std::string w;
    int n = (int)r.below(4);
    for(int i = 0; i < n; ++i) w += "aAbBzZ@[`{1"[r.below(11)];
    if(r.chance(1, 5)) w += "LongSuffixBeyondTheSmallStringBuffer";
    std::string l = lower(w);
    K key = mkkey(w);
    int v = (int)r.below(1000);
    bool has = m.count(l) > 0;
    CHECK((*h)(key) == has, "hashins:exists", "\"%s\" exists=%d", w.c_str(), (int)!has);
    if(has) CHECK((*h)[key] == m[l], "hashins:get", "\"%s\"", w.c_str());
    switch(r.below(3))
    {
    case 0: case 1: h->Insert(key, v); m[l] = v; break;
    case 2: CHECK(h->Remove(key) == has, "hashins:remove", "\"%s\"", w.c_str()); m.erase(l); break;
    }
    mon::op("ins %s", w.c_str());
    if(r.chance(1, 12))
    { // copies and moves keep the case-insensitive lookup
      H n(*h), n2;
      n2 = n;
      H n3(std::move(n));
      for(auto& p : m) { K kk = mkkey(p.first); int o = -5; CHECK(n2(kk) && n2[kk] == p.second && n3(kk, o) && o == p.second, "hashins:copy", "\"%s\" is not in the copy", p.first.c_str()); }
      CHECK((size_t)n2.Length() == m.size() && (size_t)n3.Length() == m.size(), "hashins:copy", "copies have another length");
      n2 = std::move(n3);
      *h = n2;
    }
    CHECK((size_t)h->Length() == m.size(), "hashins:length", "length %u, expected %zu", (unsigned)h->Length(), m.size());
  }
  delete h;
}

void mon_case(Rng& r, uint64_t c)
{
  if(pool.empty()) for(int i = 0; i < 700; ++i) { char b[40]; snprintf(b, 40, "pooled key %d", i); pool.push_back(b); }
  bool big = (c % 51) == 23;
  int steps = big ? 1500 : 30 + (int)r.below(200);
  int nk = big ? 600 : 5 + (int)r.below(60);
  if(wpool.empty()) for(int i = 0; i < 700; ++i) { wchar_t b[40]; swprintf(b, 40, i % 4 ? L"w%d" : L"\u00e9 longer wide key %d", i); wpool.push_back(b); }
  if(apool.empty()) for(int i = 0; i < 700; ++i) apool.push_back(KAlike::make(i));
  switch(c % 26)
  {
  case 19: run_ins<std::wstring>(r, steps); mon::ev("map<wide, case-insensitive>"); break;
  case 20: if(r.chance(1, 2)) run_ins<const char*>(r, steps); else run_ins<const wchar_t*>(r, steps); mon::ev("map<cstr, case-insensitive>"); break;
  case 21: run_map<Hash<std::pair<std::string, int>, mon::Trk, ARRAY_SAFE>, KAPair, mon::Trk, true>(r, steps, nk); mon::ev("map<pair of alike text>"); break;
  case 22: run_map<Hash<std::tuple<int, std::string, std::string>, int, ARRAY_SAFE>, KATup, int, true>(r, steps, nk); mon::ev("map<tuple of alike text>"); break;
  case 23: run_map<Hash<std::pair<int64_t, uint64_t>, int>, KLPair, int, true>(r, steps, nk); mon::ev("map<pair of 64 bit>"); break;
  case 24: run_map<Hash<std::array<int, 3>, int>, KArr, int, true>(r, steps, nk); mon::ev("map<array>"); break;
  case 25: if(r.chance(1, 2)) run_map<Hash<std::string, int, ARRAY_SAFE>, KAlike, int, true>(r, steps, std::min(nk, 128)); else run_map<Hash<const char*, int>, KAPtr, int, true>(r, steps, std::min(nk, 128)); mon::ev("map<alike text>"); break;
  case 15: run_map<Hash<const wchar_t*, int>, KWPtr, int, true>(r, steps, nk); mon::ev("map<wide cstr,int>"); break;
  case 16: run_map<Hash<std::wstring, int, ARRAY_SAFE>, KWStd, int, true>(r, steps, nk); mon::ev("map<wstring,int>"); break;
  case 17: run_set<Hash<std::pair<int, uint16_t>>, KPair>(r, steps, nk); mon::ev("set<pair>"); break;
  case 18: run_map<Hash<KEnum::E, mon::Trk, ARRAY_SAFE>, KEnum, mon::Trk, true>(r, steps, nk); mon::ev("map<enum,tracked>"); break;
  case 0: run_map<Hash<int, int>, KInt, int, true>(r, steps, nk); mon::ev("map<int,int>"); break;
  case 1: run_map<Hash<uint64_t, mon::Trk, ARRAY_SAFE>, KU64, mon::Trk, true>(r, steps, nk); mon::ev("map<u64,tracked,safe>"); break;
  case 2: run_map<Hash<std::string, int, ARRAY_SAFE>, KStd, int, true>(r, steps, nk); mon::ev("map<string,int>"); break;
  case 3: run_map<Hash<Str, mon::Trk, ARRAY_SAFE>, KStr, mon::Trk, true>(r, steps, nk); mon::ev("map<Str,tracked>"); break;
  case 4: run_map<Hash<const char*, int>, KPtr, int, true>(r, steps, nk); mon::ev("map<cstr,int>"); break;
  case 5: run_map<Hash<int, mon::TrkR, ARRAY_CONSTRUCT>, KInt, mon::TrkR, true>(r, steps, nk); mon::ev("map<int,relocatable>"); break;
  case 6: run_map<Hash<std::pair<int, uint16_t>, int>, KPair, int, true>(r, steps, nk); mon::ev("map<pair,int>"); break;
  case 7: run_map<Hash<std::tuple<short, int, std::string>, int, ARRAY_SAFE>, KTup, int, true>(r, steps, nk); mon::ev("map<tuple,int>"); break;
  case 8: run_map<Hash<int, int, ARRAY_SIMPLE, clash4, eqint>, KInt, int, true>(r, steps, std::min(nk, 60)); mon::ev("map<int,int,colliding>"); break;
  case 9: run_map<Hash<uint64_t, mon::Trk, ARRAY_SAFE, same, equ64>, KU64, mon::Trk, true>(r, steps, std::min(nk, 40)); mon::ev("map<u64,tracked,all-colliding>"); break;
  case 10: run_map<Hash<mon::Trk, mon::Trk, ARRAY_MOVE, hashtrk, eqtrk>, KTrk, mon::Trk, false>(r, steps, nk); mon::ev("map<tracked,tracked,move>"); break;
  case 11: run_set<Hash<int>, KInt>(r, steps, nk); mon::ev("set<int>"); break;
  case 12: run_set<Hash<std::string, void, ARRAY_SAFE>, KStd>(r, steps, nk); mon::ev("set<string>"); break;
  case 13: run_set<Hash<short>, KI16>(r, steps, nk); mon::ev("set<short>"); break;
  case 14: if(r.chance(1, 2)) run_ins<Str>(r, steps); else run_ins<std::string>(r, steps); mon::ev("map<case-insensitive>"); break;
  }
  mon::nontrivial();
}
