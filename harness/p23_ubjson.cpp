// Monitor for UBJSON: values and structures written and read, against an independent encoder and decoder of the binary format.
#include "mon.h"
#include "bss-util/UBJSON.h"
#include "bss-util/Hash.h"
#include <string>
#include <set>
#include <vector>
#include <sstream>
#include <memory>
#include <cmath>
#include <algorithm>
#include <new>
using namespace bss;
using mon::Rng;
typedef std::string S;
static int64_t live = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); ++live; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); ++live; return p; }
void operator delete(void* p) noexcept { if(p) --live; free(p); }
void operator delete(void* p, size_t) noexcept { if(p) --live; free(p); }
void operator delete[](void* p) noexcept { if(p) --live; free(p); }
void operator delete[](void* p, size_t) noexcept { if(p) --live; free(p); }

struct V
{
  char t = 'Z'; int64_t i = 0; double d = 0; S s; std::vector<V> a; std::vector<std::pair<S, V>> o;
  bool operator==(const V& b) const
  {
    if(t != b.t) return false;
    switch(t) { case 'i': case 'U': case 'I': case 'l': case 'L': case 'C': return i == b.i; case 'd': case 'D': return !memcmp(&d, &b.d, 8); case 'S': case 'H': return s == b.s; case '[': return a == b.a; case '{': return o == b.o; }
    return true;
  }
};
static S show(const S& s) { S o; char b[8]; for(unsigned char c : s) { if(c < 32 || c > 126) { snprintf(b, sizeof b, "{%02x}", c); o += b; } else o += (char)c; if(o.size() > (getenv("MON_LONG") ? 3500u : 500u)) break; } return o; }
static S dump(const V& v)
{
  S o(1, v.t);
  switch(v.t) { case 'i': case 'U': case 'I': case 'l': case 'L': case 'C': o += std::to_string(v.i); break; case 'd': case 'D': o += std::to_string(v.d); break; case 'S': case 'H': o += "'" + v.s + "'"; break;
  case '[': for(auto& q : v.a) o += dump(q) + ","; o += "]"; break; case '{': for(auto& q : v.o) o += q.first + ":" + dump(q.second) + ","; o += "}"; }
  return o;
}
static S rkey(Rng& r) { static const char* p[] = { "a", "b", "cc", "", "a key long enough to live on the heap", "key", "\xc3\xa9" }; if(mon::scale.longs > 0 && r.chance(1, 4)) return S(mon::scale.len(r, 5), 'k'); return p[r.below(7)]; }
static S rstr(Rng& r) { S s; for(size_t n = mon::scale.len(r, r.below(r.chance(1, 8) ? 300 : 12)); n > 0; --n) s += (char)(r.chance(1, 10) ? r.next() : r.range('a', 'z')); return s; }
static void fit(Rng& r, V& v, char t)
{
  v.t = t;
  switch(t)
  {
  case 'i': v.i = (int8_t)r.next(); break;
  case 'U': v.i = (uint8_t)r.next(); break;
  case 'I': v.i = (int16_t)(r.next() >> (r.chance(1, 3) ? 9 : 0)); break;
  case 'l': v.i = (int32_t)r.next() >> r.below(31); break;
  case 'L': v.i = (int64_t)r.next() >> r.below(63); break;
  case 'C': v.i = (int64_t)r.range(32, 126); break;
  case 'd': v.d = (float)((r.unit() - .5) * std::pow(10, (double)r.range(-20, 20))); break;
  case 'D': v.d = (r.unit() - .5) * std::pow(10, (double)r.range(-200, 200)); break;
  case 'S': v.s = rstr(r); break;
  case 'H': v.s = std::to_string(r.next()) + (r.chance(1, 2) ? "00000" : ""); break;
  }
}
static V gen(Rng& r, int depth, char want = 0)
{
  static const char T[] = "ZTFiUIlLdDCSHS[{[{";
  V v;
  char t = want ? want : T[r.below(depth > 0 ? 18 : 14)];
  if(mon::scale.deep > 0 && !want) { --mon::scale.deep; t = r.chance(1, 2) ? '[' : '{'; fit(r, v, t); V in = gen(r, 0); if(t == '[') v.a.push_back(in); else v.o.push_back({ rkey(r), in }); return v; }
  fit(r, v, t);
  if(t == '[' || t == '{')
  {
    size_t n = mon::scale.count(r, r.below(r.chance(1, 10) ? 40 : 5));
    char same = r.chance(1, 2) ? T[r.below(depth > 0 ? 18 : 14)] : 0;
    if(depth <= 0) n = 0;
    for(size_t i = 0; i < n; ++i) { V k = gen(r, depth - 1, same); if(t == '[') v.a.push_back(k); else v.o.push_back({ rkey(r), k }); }
  }
  return v;
}
static void be(S& o, uint64_t v, int n) { while(n-- > 0) o += (char)(v >> (8 * n)); }
static void len(Rng& r, S& o, uint64_t n)
{
  for(;;) switch(r.below(5))
  {
  case 0: if(n < 128) { o += 'i'; be(o, n, 1); return; } break;
  case 1: if(n < 256) { o += 'U'; be(o, n, 1); return; } break;
  case 2: if(n < 32768) { o += 'I'; be(o, n, 2); return; } break;
  case 3: o += 'l'; be(o, n, 4); return;
  case 4: o += 'L'; be(o, n, 8); return;
  }
}
static void enc(Rng& r, S& o, const V& v, bool typed)
{
  if(!typed) { while(r.chance(1, 15)) o += 'N'; o += v.t; }
  switch(v.t)
  {
  case 'i': case 'U': case 'C': be(o, v.i, 1); break;
  case 'I': be(o, v.i, 2); break;
  case 'l': be(o, v.i, 4); break;
  case 'L': be(o, v.i, 8); break;
  case 'd': { float f = (float)v.d; uint32_t u; memcpy(&u, &f, 4); be(o, u, 4); break; }
  case 'D': { uint64_t u; memcpy(&u, &v.d, 8); be(o, u, 8); break; }
  case 'S': case 'H': len(r, o, v.s.size()); o += v.s; break;
  case '[': case '{':
  {
    bool arr = v.t == '[';
    size_t n = arr ? v.a.size() : v.o.size();
    char t = 0;
    bool same = n > 0;
    for(size_t i = 0; i < n; ++i) { char k = arr ? v.a[i].t : v.o[i].second.t; if(!i) t = k; else if(t != k) same = false; }
    int mode = (int)r.below(same ? 3 : 2); // 0 open, 1 counted, 2 typed
    if(mode == 2) { o += '$'; o += t; }
    if(mode >= 1) { o += '#'; len(r, o, n); }
    for(size_t i = 0; i < n; ++i)
    {
      if(!arr) { while(r.chance(1, 15)) o += 'N'; len(r, o, v.o[i].first.size()); o += v.o[i].first; }
      enc(r, o, arr ? v.a[i] : v.o[i].second, mode == 2);
    }
    if(mode == 0) o += arr ? ']' : '}';
    break;
  }
  }
}
struct Dec
{
  const S& t; size_t p = 0; const char* err = 0;
  explicit Dec(const S& s) : t(s) {}
  bool bad(const char* e) { if(!err) err = e; return false; }
  bool be(uint64_t& v, int n) { if(p + n > t.size()) return bad("cut off"); v = 0; while(n-- > 0) v = v << 8 | (unsigned char)t[p++]; return true; }
  bool num(char c, int64_t& i) { uint64_t v; int n = c == 'i' || c == 'U' || c == 'C' ? 1 : c == 'I' ? 2 : c == 'l' ? 4 : 8; if(!be(v, n)) return false; i = c == 'i' ? (int8_t)v : c == 'I' ? (int16_t)v : c == 'l' ? (int32_t)v : (int64_t)v; return true; }
  bool len(int64_t& n) { if(p >= t.size()) return bad("cut off"); char c = t[p++]; if(!strchr("iUIlL", c) || !c) return bad("a length is not an integer"); return num(c, n) && (n >= 0 || bad("a length is negative")) && (n <= 10000000 || bad("a length is too large")); }
  bool str(S& s) { int64_t n; if(!len(n)) return false; if(p + n > t.size()) return bad("cut off"); s = t.substr(p, n); p += n; return true; }
  bool val(V& v, char ty)
  {
    if(!ty) { if(p >= t.size()) return bad("cut off"); ty = t[p++]; }
    v.t = ty;
    switch(ty)
    {
    case 'Z': case 'T': case 'F': return true;
    case 'i': case 'U': case 'I': case 'l': case 'L': case 'C': return num(ty, v.i);
    case 'd': { uint64_t u; if(!be(u, 4)) return false; uint32_t w = (uint32_t)u; float f; memcpy(&f, &w, 4); v.d = f; return true; }
    case 'D': { uint64_t u; if(!be(u, 8)) return false; memcpy(&v.d, &u, 8); return true; }
    case 'S': case 'H': return str(v.s);
    case '[': case '{':
    {
      char kt = 0; int64_t n = -1;
      if(p < t.size() && t[p] == '$') { ++p; if(p >= t.size()) return bad("cut off"); kt = t[p++]; if(p >= t.size() || t[p] != '#') return bad("a type without a count"); }
      if(p < t.size() && t[p] == '#') { ++p; if(!len(n)) return false; }
      for(int64_t k = 0; n < 0 || k < n; ++k)
      {
        if(n < 0) { if(p >= t.size()) return bad("cut off"); if(t[p] == (ty == '[' ? ']' : '}')) { ++p; break; } }
        if(ty == '[') { v.a.push_back({}); if(!val(v.a.back(), kt)) return false; }
        else { v.o.push_back({}); if(!str(v.o.back().first) || !val(v.o.back().second, kt)) return false; }
      }
      return true;
    }
    }
    return bad("an unknown type");
  }
};
static V fromlib(const UBJSONTuple& t)
{
  V v;
  v.t = t.Type;
  switch(t.Type)
  {
  case 'i': case 'C': v.i = t.Int8; break;
  case 'U': v.i = t.UInt8; break;
  case 'I': v.i = t.Int16; break;
  case 'l': v.i = t.Int32; break;
  case 'L': v.i = t.Int64; break;
  case 'd': v.d = t.Float; break;
  case 'D': v.d = t.Double; break;
  case 'S': case 'H': CHECK(t.Length >= 0 && !t.String[t.Length], "ubj:terminated", "a string is not terminated"); v.s.assign(t.String, t.Length); break;
  case '[': for(auto& q : t.Array) v.a.push_back(fromlib(q)); break;
  case '{': for(auto& q : t.Object) v.o.push_back({ S(q.first.c_str(), q.first.size()), fromlib(q.second) }); break;
  default: break;
  }
  return v;
}
static void values(Rng& r)
{
  V v = gen(r, (int)r.below(4));
  S t;
  enc(r, t, v, false);
  mon::op("read %s", show(t).c_str());
  std::istringstream in(t + "tail");
  std::unique_ptr<UBJSONTuple> x(new UBJSONTuple());
  if(r.chance(1, 2)) x->Parse(in, UBJSONTuple::TYPE_NONE);
  else { Serializer<UBJSONEngine> e; e.Parse(*x, in); }
  V g = fromlib(*x);
  CHECK(g == v, "ubj:read", "read %s instead of %s", show(dump(g)).c_str(), show(dump(v)).c_str());
  CHECK((size_t)in.tellg() == t.size(), "ubj:read-extent", "reading stopped at byte %lld of %zu", (long long)in.tellg(), t.size());
  for(size_t n = r.below(3); n > 0; --n)
  {
    mon::op("copy or move");
    if(r.chance(1, 2)) { UBJSONTuple c(*x); CHECK(fromlib(c) == v, "ubj:copy", "a copy differs"); if(r.chance(1, 2)) x.reset(new UBJSONTuple(c)); }
    else { UBJSONTuple c(std::move(*x)); x.reset(new UBJSONTuple(std::move(c))); }
    CHECK(fromlib(*x) == v, "ubj:copy", "a copied or moved value differs");
  }
  std::ostringstream out;
  if(r.chance(1, 2)) x->Write(out, UBJSONTuple::TYPE_NONE);
  else { Serializer<UBJSONEngine> e; e.Serialize(*x, out); }
  S w = out.str();
  V d;
  Dec dec(w);
  CHECK(dec.val(d, 0) && dec.p == w.size(), "ubj:write-syntax", "what was written is malformed (%s at %zu): %s", dec.err ? dec.err : "surplus bytes", dec.p, show(w).c_str());
  CHECK(d == v, "ubj:write", "wrote %s instead of %s", show(dump(d)).c_str(), show(dump(v)).c_str());
}
template<class T> static void number1(Rng& r, T n)
{
  UBJSONTuple t(UBJSONTuple::TYPE_NONE, n);
  V v = fromlib(t);
  if(std::is_floating_point<T>::value) CHECK(v.d == (double)n && v.t == (sizeof(T) == 4 ? 'd' : 'D'), "ubj:number", "a float became %s", dump(v).c_str());
  else if(v.t == 'H') CHECK(v.s == std::to_string(n), "ubj:number", "%s became %s", std::to_string(n).c_str(), dump(v).c_str());
  else CHECK(strchr("iUIlL", v.t) && std::to_string(v.i) == std::to_string(n), "ubj:number", "%s became %s", std::to_string(n).c_str(), dump(v).c_str());
  std::stringstream ss;
  Serializer<UBJSONEngine> e;
  e.Serialize(n, ss);
  T back = (T)17;
  Serializer<UBJSONEngine> e2;
  e2.Parse(back, ss);
  CHECK(back == n, "ubj:number", "%s reads back as %s", std::to_string(n).c_str(), std::to_string(back).c_str());
}
static void numbers(Rng& r)
{
  uint64_t n = r.next() >> r.below(64);
  if(r.chance(1, 4)) n = ~n;
  mon::op("number %llx", (unsigned long long)n);
  number1<int8_t>(r, (int8_t)n); number1<uint8_t>(r, (uint8_t)n); number1<char>(r, (char)n); number1<int16_t>(r, (int16_t)n); number1<uint16_t>(r, (uint16_t)n);
  number1<int32_t>(r, (int32_t)n); number1<uint32_t>(r, (uint32_t)n); number1<int64_t>(r, (int64_t)n); number1<uint64_t>(r, n);
  number1<float>(r, (float)(int64_t)n); number1<double>(r, (double)(int64_t)n / 3);
}
// ---- structures
enum Small : char { SMALL_A = -3, SMALL_B = 100 };
enum Big : int64_t { BIG_A = -5000000000ll, BIG_B = 7 };
struct Sub { int64_t a = 0; Str s; std::vector<double> d; bool t = false;
  template<typename Engine> void Serialize(Serializer<Engine>& e, const char*) { e.template EvaluateType<Sub>(GenPair("a", a), GenPair("s", s), GenPair("d", d), GenPair("t", t)); }
  bool operator==(const Sub& o) const { return a == o.a && s == o.s && d == o.d && t == o.t; } };
struct Rec
{
  typedef Variant<Sub, double> VAR;
  int64_t i = 0; uint64_t u = 0; int8_t c = 0; double d = 0; float f = 0; Str s; std::string s2; bool b = false; Sub sub; Small sm = SMALL_A;
  std::vector<uint8_t> v8; std::vector<char> vc; std::vector<int> vi; DynArray<uint8_t> d8; DynArray<int64_t> di; DynArray<bool> db; std::vector<uint16_t> v16; DynArray<uint32_t> d32; std::vector<uint64_t> v64; std::vector<int8_t> vi8; std::vector<Small> vs; std::vector<Big> vb;
  int fix[3] = { 0, 0, 0 }; std::array<uint8_t, 4> f8 = { 0, 0, 0, 0 }; std::vector<Str> vst; std::vector<std::vector<int>> vv; DynArray<Sub, size_t, ARRAY_SAFE> subs; std::tuple<short, Str, double> tup; std::vector<VAR> var;
  template<typename Engine> void Serialize(Serializer<Engine>& e, const char*)
  {
    e.template EvaluateType<Rec>(GenPair("i", i), GenPair("u", u), GenPair("c", c), GenPair("d", d), GenPair("f", f), GenPair("s", s), GenPair("s2", s2), GenPair("b", b), GenPair("sub", sub), GenPair("sm", sm), GenPair("v8", v8), GenPair("vc", vc), GenPair("vi", vi),
      GenPair("d8", d8), GenPair("di", di), GenPair("db", db), GenPair("v16", v16), GenPair("d32", d32), GenPair("v64", v64), GenPair("vi8", vi8), GenPair("vs", vs), GenPair("vb", vb), GenPair("fix", fix), GenPair("f8", f8), GenPair("vst", vst), GenPair("vv", vv), GenPair("subs", subs), GenPair("tup", tup), GenPair("var", var));
  }
};
template<class A, class B> static bool eqa(const A& a, const B& b, size_t na, size_t nb) { if(na != nb) return false; for(size_t i = 0; i < na; ++i) if(!(a[i] == b[i])) return false; return true; }
static const char* differ(const Rec& v, const Rec& w)
{
  if(w.i != v.i) return "i"; if(w.u != v.u) return "u"; if(w.c != v.c) return "c"; if(w.d != v.d) return "d"; if(w.f != v.f) return "f"; if(w.s != v.s) return "s"; if(w.s2 != v.s2) return "s2"; if(w.b != v.b) return "b"; if(!(w.sub == v.sub)) return "sub"; if(w.sm != v.sm) return "sm";
  if(w.v8 != v.v8) return "v8"; if(w.vc != v.vc) return "vc"; if(w.vi != v.vi) return "vi"; if(w.v16 != v.v16) return "v16"; if(w.v64 != v.v64) return "v64"; if(w.vi8 != v.vi8) return "vi8"; if(w.vs != v.vs) return "vs"; if(w.vb != v.vb) return "vb"; if(w.vst != v.vst) return "vst"; if(w.vv != v.vv) return "vv"; if(w.f8 != v.f8) return "f8";
  if(!eqa(v.d8, w.d8, v.d8.Length(), w.d8.Length())) return "d8"; if(!eqa(v.di, w.di, v.di.Length(), w.di.Length())) return "di"; if(!eqa(v.d32, w.d32, v.d32.Length(), w.d32.Length())) return "d32"; if(!eqa(v.subs, w.subs, v.subs.Length(), w.subs.Length())) return "subs";
  if(v.db.Length() != w.db.Length()) return "db"; for(size_t i = 0; i < v.db.Length(); ++i) if((bool)v.db[i] != (bool)w.db[i]) return "db";
  if(memcmp(v.fix, w.fix, sizeof v.fix)) return "fix"; if(v.tup != w.tup) return "tup";
  if(v.var.size() != w.var.size()) return "var";
  for(size_t i = 0; i < v.var.size(); ++i) { if(v.var[i].tag() != w.var[i].tag()) return "var"; if(v.var[i].is<Sub>() ? !(v.var[i].get<Sub>() == w.var[i].get<Sub>()) : v.var[i].get<double>() != w.var[i].get<double>()) return "var"; }
  return 0;
}
static double rd(Rng& r) { return (r.unit() - .5) * std::pow(10, (double)r.range(-9, 12)); }
static void rsub(Rng& r, Sub& s) { s.a = (int64_t)r.next() >> r.below(63); S q = rstr(r); s.s.assign(q.data(), q.size()); s.t = r.chance(1, 2); for(size_t n = r.below(4); n > 0; --n) s.d.push_back(rd(r)); }
static void rrec(Rng& r, Rec& v)
{
  v.i = (int64_t)r.next() >> r.below(63); v.u = r.next() >> r.below(64); v.c = (int8_t)r.next(); v.d = rd(r); v.f = (float)rd(r); S q = rstr(r); v.s.assign(q.data(), q.size()); v.s2 = rstr(r); v.b = r.chance(1, 2); rsub(r, v.sub); v.sm = r.chance(1, 2) ? SMALL_A : SMALL_B;
  auto N = [&] { return mon::scale.count(r, r.below(r.chance(1, 8) ? 20 : 4)); };
  for(size_t n = N(); n > 0; --n) v.v8.push_back((uint8_t)r.next());
  for(size_t n = N(); n > 0; --n) v.vc.push_back((char)r.next());
  for(size_t n = N(); n > 0; --n) v.vi.push_back((int)r.next() >> r.below(31));
  for(size_t n = N(); n > 0; --n) v.d8.Add((uint8_t)r.next());
  for(size_t n = N(); n > 0; --n) v.di.Add((int64_t)r.next() >> r.below(63));
  for(size_t n = N(); n > 0; --n) v.db.Add(r.chance(1, 2));
  for(size_t n = N(); n > 0; --n) v.v16.push_back((uint16_t)r.next());
  for(size_t n = N(); n > 0; --n) v.d32.Add((uint32_t)r.next());
  for(size_t n = N(); n > 0; --n) v.v64.push_back(r.next() >> r.below(64));
  for(size_t n = N(); n > 0; --n) v.vi8.push_back((int8_t)r.next());
  for(size_t n = N(); n > 0; --n) v.vs.push_back(r.chance(1, 2) ? SMALL_A : SMALL_B);
  for(size_t n = N(); n > 0; --n) v.vb.push_back(r.chance(1, 2) ? BIG_A : BIG_B);
  for(auto& x : v.fix) x = (int)r.next();
  for(auto& x : v.f8) x = (uint8_t)r.next();
  for(size_t n = N(); n > 0; --n) v.vst.push_back(Str(rstr(r).c_str()));
  for(size_t n = N(); n > 0; --n) { v.vv.push_back({}); for(size_t k = N(); k > 0; --k) v.vv.back().push_back((int)r.next()); }
  for(size_t n = N(); n > 0; --n) { v.subs.AddConstruct(); rsub(r, v.subs.Back()); }
  v.tup = std::make_tuple((short)r.next(), Str(rstr(r).c_str()), rd(r));
  for(size_t n = N(); n > 0; --n) if(r.chance(1, 2)) { Sub s; rsub(r, s); v.var.push_back(Rec::VAR(s)); } else v.var.push_back(Rec::VAR(rd(r)));
}
static const std::set<S> INTS = { "i", "u", "c", "sm", "v8", "vc", "vi", "d8", "di", "v16", "d32", "v64", "vi8", "vs", "vb", "fix", "f8" }, BOOLS = { "b", "db" }, REALS = { "d", "f" };
static void records(Rng& r)
{
  Rec v;
  rrec(r, v);
  std::stringstream ss;
  { Serializer<UBJSONEngine> e; e.Serialize(v, ss); }
  S out = ss.str();
  mon::op("record -> %s", show(out).c_str());
  V d;
  Dec dec(out);
  CHECK(dec.val(d, 0) && dec.p == out.size(), "ubj:record-syntax", "a record was written malformed (%s at %zu): %s", dec.err ? dec.err : "surplus bytes", dec.p, show(out).c_str());
  CHECK(d.t == '{' && d.o.size() == 29, "ubj:record-write", "a record of 29 members was written with %zu", d.o.size());
  for(auto& q : d.o)
  {
    if(q.first == "s") CHECK(q.second.t == 'S' && q.second.s.size() == v.s.size() && !memcmp(q.second.s.data(), v.s.data(), v.s.size()), "ubj:record-write", "a string was written as %s", dump(q.second).c_str());
    if(q.first == "vi") { bool ok = q.second.t == '[' && q.second.a.size() == v.vi.size(); for(size_t i = 0; ok && i < v.vi.size(); ++i) ok = q.second.a[i].i == v.vi[i]; CHECK(ok, "ubj:record-write", "integers were written as %s", dump(q.second).c_str()); }
    if(q.first == "v16") { bool ok = q.second.t == '[' && q.second.a.size() == v.v16.size(); for(size_t i = 0; ok && i < v.v16.size(); ++i) ok = q.second.a[i].i == v.v16[i]; CHECK(ok, "ubj:record-write", "16-bit integers were written as %s", dump(q.second).c_str()); }
  }
  { Rec w; Serializer<UBJSONEngine> e; e.Parse(w, ss); const char* m = differ(v, w); CHECK(!m, "ubj:record-roundtrip", "member %s does not read back from %s", m, show(out).c_str()); }
  // the same data in another encoding: members in another order, unknown members among them, containers spelled differently, surplus elements in fixed-size arrays
  for(auto& q : d.o) if((q.first == "fix" || q.first == "f8" || q.first == "tup") && r.chance(1, 3)) for(size_t n = 1 + r.below(3); n > 0; --n) q.second.a.push_back(r.chance(1, 2) || q.second.a.empty() ? gen(r, 2) : gen(r, 0, q.second.a[0].t));
  for(size_t n = r.below(4); n > 0; --n) d.o.push_back({ r.chance(1, 2) ? "unknown" : "ii", gen(r, 2) });
  for(size_t i = d.o.size(); i > 1; --i) std::swap(d.o[i - 1], d.o[r.below(i)]);
  for(auto& q : d.o)
  { // integers may come in any type that holds them
    auto widen = [&](V& x) { static const char W[] = "iUIlL"; if(!strchr(W, x.t) || !r.chance(1, 4)) return; char t = W[r.below(5)]; int64_t i = x.i; if((t == 'i' && i == (int8_t)i) || (t == 'U' && i == (uint8_t)i) || (t == 'I' && i == (int16_t)i) || (t == 'l' && i == (int32_t)i) || t == 'L') x.t = t; };
    widen(q.second);
    if(q.second.t == '[') for(auto& x : q.second.a) widen(x);
    // numbers may also come as booleans, reals, characters or text, booleans as integers
    auto other = [&](V& x)
    {
      if(!r.chance(1, 6)) return;
      if(INTS.count(q.first) && x.t && strchr("iUIlL", x.t)) switch(r.below(4))
      {
      case 0: if(x.i == 0 || x.i == 1) { x.t = x.i ? 'T' : 'F'; mon::ev("numbers_as_booleans"); } break;
      case 1: x.t = 'H'; x.s = std::to_string(x.i); mon::ev("numbers_as_text"); break;
      case 2: if((int64_t)(float)x.i == x.i && std::abs((double)x.i) < 1e15) { x.t = r.chance(1, 2) ? 'd' : 'D'; x.d = (double)x.i; mon::ev("integers_as_reals"); } break;
      case 3: if(x.i >= 0 && x.i < 128) { x.t = 'C'; mon::ev("integers_as_characters"); } break;
      }
      else if(BOOLS.count(q.first) && (x.t == 'T' || x.t == 'F')) { bool v = x.t == 'T'; x.t = "iUIlLC"[r.below(6)]; x.i = 0; while(v && !x.i) { V y; fit(r, y, x.t); x.i = x.t == 'l' && r.chance(1, 2) ? 0x10000 : x.t == 'I' && r.chance(1, 2) ? 0x100 : x.t == 'L' && r.chance(1, 2) ? (int64_t)1 << 32 : y.i; } mon::ev("booleans_as_integers"); }
      else if(REALS.count(q.first) && (x.t == 'd' || x.t == 'D')) { char b[64]; snprintf(b, 64, "%.17g", x.d); x.t = 'H'; x.s = b; mon::ev("numbers_as_text"); }
    };
    other(q.second);
    if(q.second.t == '[') for(auto& x : q.second.a) other(x);
  }
  S t;
  enc(r, t, d, false);
  mon::op("re-encoded %s", show(t).c_str());
  Rec w;
  std::istringstream in(t + "tail");
  Serializer<UBJSONEngine> e;
  e.Parse(w, in);
  const char* m = differ(v, w);
  CHECK(!m, "ubj:record-read", "member %s is misread from %s", m, show(t).c_str());
  CHECK((size_t)in.tellg() == t.size(), "ubj:read-extent", "reading a record stopped at byte %lld of %zu", (long long)in.tellg(), t.size());
}
static void strings(Rng& r) // a string member takes whatever value it is given
{
  mon::scale.deep = 0;
  V v = gen(r, 0);
  if(strchr("TF", v.t)) return;
  S t;
  enc(r, t, v, false);
  mon::op("string from %s", show(t).c_str());
  std::istringstream in(t);
  Str s("before");
  Serializer<UBJSONEngine> e;
  e.Parse(s, in);
  S want = v.t == 'Z' ? "before" : v.t == 'C' ? S(1, (char)v.i) : v.t == 'S' || v.t == 'H' ? v.s : v.t == 'd' ? std::to_string((float)v.d) : v.t == 'D' ? std::to_string(v.d) : std::to_string(v.i);
  CHECK(S(s.c_str(), s.size()) == want, "ubj:to-string", "%s read into a string gives [%s]", show(dump(v)).c_str(), show(S(s.c_str(), s.size())).c_str());
}
static void junk(Rng& r)
{
  V v = gen(r, 3);
  S t;
  enc(r, t, v, false);
  for(size_t n = 1 + r.below(5); n > 0; --n)
  {
    size_t at = r.below(t.size() + 1);
    switch(r.below(4)) { case 0: t.resize(at); break; case 1: if(at < t.size()) t[at] = "[]{}$#iUIdDCSHTFZN\0\xff"[r.below(20)]; break; case 2: t.insert(at, 1, "[]{}$#iUIdDCSHTFZN"[r.below(18)]); break; case 3: if(at < t.size()) t.erase(at, 1 + r.below(3)); break; }
  }
  for(char& c : t) if(c == 'l' || c == 'L') c = 'U'; // no lengths in the gigabytes
  if(t.size() > 1) for(size_t i = 0; i + 1 < t.size(); ++i) if(t[i] == '$' && strchr("ZTFN", t[i + 1])) t[i + 1] = 'U';
  mon::op("junk %s", show(t).c_str());
  std::istringstream in(t);
  try { UBJSONTuple x; x.Parse(in, UBJSONTuple::TYPE_NONE); mon::ev("junk_accepted"); UBJSONTuple y(x); UBJSONTuple z(std::move(y)); std::ostringstream o; z.Write(o, UBJSONTuple::TYPE_NONE); }
  catch(const std::exception& e) { mon::ev("junk_rejected"); }
}
void mon_case(Rng& r, uint64_t c)
{
  static bool warm = false;
  if(!warm) { warm = true; Rec v; std::stringstream ss; Serializer<UBJSONEngine> e; e.Serialize(v, ss); Serializer<UBJSONEngine> e2; Rec w; e2.Parse(w, ss); std::istringstream i2("{i\1aU\1}"); Rec x; Serializer<UBJSONEngine> e3; e3.Parse(x, i2); Sub s; Rec::VAR q(s); std::stringstream s3; Serializer<UBJSONEngine> e4; std::vector<Rec::VAR> vv; vv.push_back(q); e4.Serialize(vv, s3); std::vector<Rec::VAR> vw; Serializer<UBJSONEngine> e5; e5.Parse(vw, s3); try { throw std::runtime_error("warm"); } catch(std::exception&) {} }
  const char* big = mon::scale.roll(r, 120);
  if(big) mon::ev(big);
  int64_t before = live;
  switch(r.below(8)) { case 0: case 1: case 2: values(r); break; case 3: numbers(r); break; case 4: case 5: records(r); break; case 6: strings(r); break; case 7: junk(r); break; }
  CHECK(live == before, "ubj:leak", "%lld blocks are still allocated", (long long)(live - before));
  mon::nontrivial();
}
