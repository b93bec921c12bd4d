// Monitor for JSON: an independent generator and a strict independent parser judge what the library reads and writes.
#include "mon.h"
#include "bss-util/JSON.h"
#include "bss-util/Hash.h"
#include <vector>
#include <string>
#include <map>
#include <sstream>
#include <cmath>
#include <limits.h>
using namespace bss;
using mon::Rng;

struct J
{
  int k = 0; // 0 null 1 bool 2 int 3 double 4 string 5 array 6 object
  bool b = false; int64_t i = 0; double d = 0; std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  double num() const { return k == 2 ? (double)i : d; }
};
static bool numeq(const J& x, const J& y)
{
  if(x.k == 2 && y.k == 2) return x.i == y.i;
  return x.num() == y.num();
}
static bool same(const J& x, const J& y, bool exactkind)
{
  bool xn = x.k == 2 || x.k == 3, yn = y.k == 2 || y.k == 3;
  if(xn && yn) return (!exactkind || x.k == y.k) && numeq(x, y);
  if(x.k != y.k) return false;
  switch(x.k)
  {
  case 1: return x.b == y.b;
  case 4: return x.s == y.s;
  case 5: if(x.a.size() != y.a.size()) return false; for(size_t i = 0; i < x.a.size(); ++i) if(!same(x.a[i], y.a[i], exactkind)) return false; return true;
  case 6: if(x.o.size() != y.o.size()) return false; for(size_t i = 0; i < x.o.size(); ++i) if(x.o[i].first != y.o[i].first || !same(x.o[i].second, y.o[i].second, exactkind)) return false; return true;
  }
  return true;
}
static unsigned codepoint(Rng& r) // anything a string can hold, with the ends of every encoding length and of both surrogate ranges
{
  static const unsigned edge[] = { 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x103FF, 0x10400, 0x107FF, 0x10FC00, 0x10FFFF };
  if(r.chance(1, 4)) return edge[r.below(14)];
  if(r.chance(1, 4)) return (unsigned)r.range(0x10000, 0x10FFFF);
  return r.chance(1, 2) ? 0x1F600 + (unsigned)r.below(50) : (unsigned)r.range(0x800, 0xD7FF);
}
static void utf8(std::string& o, unsigned c)
{
  if(c < 0x80) o += (char)c;
  else if(c < 0x800) { o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 63)); }
  else if(c < 0x10000) { o += (char)(0xE0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | (c >> 18)); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
}
// ---- generating
static std::string rstr(Rng& r, bool key)
{
  std::string s;
  size_t n = mon::scale.len(r, r.below(r.chance(1, 8) ? 40 : 7));
  for(size_t i = 0; i < n; ++i)
    switch(r.below(7))
    {
    case 0: s += "\"\\/,:{}[]"[r.below(9)]; break;
    case 1: s += (char)r.range(1, 31); break;
    case 2: utf8(s, (unsigned)r.range(0x80, 0x7FF)); break;
    case 3: utf8(s, codepoint(r)); break;
    case 4: if(!key && r.chance(1, 4)) s += '\0'; else s += ' '; break;
    default: s += (char)r.range('a', 'z'); break;
    }
  return s;
}
static double rdbl(Rng& r)
{
  switch(r.below(5))
  {
  case 0: return (double)r.range(-1000, 1000);
  case 1: return r.range(-100000, 100000) / 64.0;
  case 2: return (r.unit() - .5) * std::pow(10, (double)r.range(-20, 25));
  case 3: return r.range(-9999, 9999) / 1000.0;
  }
  return (r.unit() - .5) * 3;
}
static int64_t rint(Rng& r) { return r.chance(1, 5) ? (r.chance(1, 2) ? INT64_MAX - (int64_t)r.below(3) : INT64_MIN + (int64_t)r.below(3)) : (int64_t)r.next() >> r.below(63); }
static J gen(Rng& r, int depth)
{
  J j;
  j.k = (int)r.below(depth > 0 ? 9 : 5);
  if(j.k > 6) j.k -= 2;
  if(mon::scale.deep > 0) // a chain of containers with something beside it
  {
    --mon::scale.deep;
    J in = gen(r, 0), side = gen(r, 0);
    if(mon::scale.deep > 0) in = gen(r, 1);
    if(r.chance(1, 2)) { j.k = 5; if(r.chance(1, 3)) j.a.push_back(side); j.a.push_back(in); if(r.chance(1, 3)) j.a.push_back(side); }
    else { j.k = 6; if(r.chance(1, 3)) j.o.push_back({ "side", side }); j.o.push_back({ rstr(r, true), in }); if(r.chance(1, 3)) j.o.push_back({ "other", side }); }
    return j;
  }
  switch(j.k)
  {
  case 1: j.b = r.chance(1, 2); break;
  case 2: j.i = rint(r); break;
  case 3: j.d = rdbl(r); break;
  case 4: j.s = rstr(r, false); break;
  case 5: for(size_t n = mon::scale.count(r, r.below(5)); n > 0; --n) j.a.push_back(gen(r, depth - 1)); break;
  case 6: for(size_t n = mon::scale.count(r, r.below(5)); n > 0; --n) j.o.push_back({ rstr(r, true), gen(r, depth - 1) }); break;
  }
  return j;
}
// ---- emitting JSON text in all the ways the format allows
static void ws(Rng& r, std::string& o, bool on) { if(on && r.chance(1, 3)) for(size_t n = 1 + r.below(3); n > 0; --n) o += " \t\n\r"[r.below(4)]; }
static void estr(Rng& r, std::string& o, const std::string& s)
{
  o += '"';
  char b[16];
  for(size_t i = 0; i < s.size();)
  {
    unsigned char c = s[i];
    size_t len = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    if(c >= 0x80 && !r.chance(1, 3)) { o.append(s, i, len); i += len; continue; }
    unsigned cp = c;
    if(len > 1) { cp = c & (0xFF >> (len + 1)); for(size_t k = 1; k < len; ++k) cp = (cp << 6) | ((unsigned char)s[i + k] & 63); }
    i += len;
    const char* named = strchr("\"\"\\\\//\bb\ff\nn\rr\tt", (int)c);
    static const char* from = "\"\\/\b\f\n\r\t"; static const char* to = "\"\\/bfnrt";
    const char* f = c && c < 0x80 ? strchr(from, (int)c) : 0;
    (void)named;
    if(f && (r.chance(2, 3))) { if(c == '/' && r.chance(1, 2)) o += '/'; else { o += '\\'; o += to[f - from]; } }
    else if(c < 32 || c == '"' || c == '\\' || c >= 0x80 || r.chance(1, 8))
    {
      const char* fmt = r.chance(1, 2) ? "\\u%04x" : "\\u%04X";
      if(cp >= 0x10000) { cp -= 0x10000; snprintf(b, sizeof b, fmt, 0xD800 + (cp >> 10)); o += b; snprintf(b, sizeof b, fmt, 0xDC00 + (cp & 0x3FF)); o += b; }
      else { snprintf(b, sizeof b, fmt, cp); o += b; }
    }
    else o += (char)c;
  }
  o += '"';
}
static void edbl(Rng& r, std::string& o, double d)
{
  char b[64];
  snprintf(b, sizeof b, r.chance(1, 3) ? "%.16e" : r.chance(1, 2) ? "%.17g" : "%.16E", d);
  if(!strpbrk(b, ".eE")) strcat(b, r.chance(1, 2) ? ".0" : "e0");
  if(r.chance(1, 3) && d == std::floor(d) && std::fabs(d) < 1e6) snprintf(b, sizeof b, "%lldE0", (long long)d);
  o += b;
}
static void emit(Rng& r, std::string& o, const J& j, bool w)
{
  switch(j.k)
  {
  case 0: o += "null"; break;
  case 1: o += j.b ? "true" : "false"; break;
  case 2: o += std::to_string(j.i); break;
  case 3: edbl(r, o, j.d); break;
  case 4: if(j.b) o += '"' + j.s + '"'; else estr(r, o, j.s); break;
  case 5:
    o += '['; ws(r, o, w);
    for(size_t i = 0; i < j.a.size(); ++i) { if(i) { o += ','; ws(r, o, w); } emit(r, o, j.a[i], w); ws(r, o, w); }
    o += ']'; break;
  case 6:
    o += '{'; ws(r, o, w);
    for(size_t i = 0; i < j.o.size(); ++i) { if(i) { o += ','; ws(r, o, w); } estr(r, o, j.o[i].first); ws(r, o, w); o += ':'; ws(r, o, w); emit(r, o, j.o[i].second, w); ws(r, o, w); }
    o += '}'; break;
  }
}
// ---- strict reader for what the library writes
struct Strict
{
  const std::string& t; size_t p = 0; const char* err = 0;
  explicit Strict(const std::string& s) : t(s) {}
  int pk() { return p < t.size() ? (unsigned char)t[p] : -1; }
  void sp() { while(pk() == ' ' || pk() == '\t' || pk() == '\n' || pk() == '\r') ++p; }
  bool bad(const char* e) { if(!err) err = e; return false; }
  bool str(std::string& s)
  {
    if(pk() != '"') return bad("string expected");
    ++p;
    for(;;)
    {
      int c = pk();
      if(c < 0) return bad("unterminated string");
      ++p;
      if(c == '"') return true;
      if(c < 32) return bad("raw control character in a string");
      if(c != '\\') { s += (char)c; continue; }
      c = pk(); ++p;
      static const char* to = "\"\\/\b\f\n\r\t"; static const char* from = "\"\\/bfnrt";
      const char* f = c > 0 ? strchr(from, c) : 0;
      if(f) { s += to[f - from]; continue; }
      if(c != 'u') return bad("unknown escape");
      unsigned u[2] = { 0, 0 };
      int k = 0;
      for(;; ++k)
      {
        for(int i = 0; i < 4; ++i) { int h = pk(); ++p; if(h < 0 || !isxdigit(h)) return bad("bad \\u escape"); u[k] = u[k] * 16 + (isdigit(h) ? h - '0' : (h | 32) - 'a' + 10); }
        if(k == 0 && u[0] >= 0xD800 && u[0] < 0xDC00 && pk() == '\\' && p + 1 < t.size() && t[p + 1] == 'u') { p += 2; continue; }
        break;
      }
      utf8(s, k ? 0x10000 + ((u[0] - 0xD800) << 10) + (u[1] - 0xDC00) : u[0]);
    }
  }
  bool val(J& j, int depth = 0)
  {
    sp();
    int c = pk();
    if(c == '{')
    {
      j.k = 6; ++p; sp();
      if(pk() == '}') { ++p; return true; }
      for(;;)
      {
        j.o.push_back({});
        sp();
        if(!str(j.o.back().first)) return false;
        sp();
        if(pk() != ':') return bad("colon expected");
        ++p;
        if(!val(j.o.back().second, depth + 1)) return false;
        sp();
        if(pk() == ',') { ++p; continue; }
        if(pk() != '}') return bad("end of object expected");
        ++p;
        return true;
      }
    }
    if(c == '[')
    {
      j.k = 5; ++p; sp();
      if(pk() == ']') { ++p; return true; }
      for(;;)
      {
        j.a.push_back({});
        if(!val(j.a.back(), depth + 1)) return false;
        sp();
        if(pk() == ',') { ++p; continue; }
        if(pk() != ']') return bad("end of array expected");
        ++p;
        return true;
      }
    }
    if(c == '"') { j.k = 4; return str(j.s); }
    if(!t.compare(p, 4, "true")) { p += 4; j.k = 1; j.b = true; return true; }
    if(!t.compare(p, 5, "false")) { p += 5; j.k = 1; j.b = false; return true; }
    if(!t.compare(p, 4, "null")) { p += 4; j.k = 0; return true; }
    size_t q = p;
    if(pk() == '-') ++p;
    if(!isdigit(pk())) return bad("value expected");
    if(pk() == '0' && p + 1 < t.size() && isdigit((unsigned char)t[p + 1])) return bad("leading zero");
    while(isdigit(pk())) ++p;
    bool fl = false;
    if(pk() == '.') { fl = true; ++p; if(!isdigit(pk())) return bad("digit expected"); while(isdigit(pk())) ++p; }
    if(pk() == 'e' || pk() == 'E') { fl = true; ++p; if(pk() == '+' || pk() == '-') ++p; if(!isdigit(pk())) return bad("digit expected"); while(isdigit(pk())) ++p; }
    std::string n = t.substr(q, p - q);
    errno = 0;
    if(!fl) { j.k = 2; j.i = strtoll(n.c_str(), 0, 10); if(errno) fl = true; }
    if(fl) { j.k = 3; j.d = strtod(n.c_str(), 0); }
    return true;
  }
  bool all(J& j) { if(!val(j)) return false; sp(); return p == t.size() || bad("text after the value"); }
};
// ---- conversions
static JSONValue build(const J& j)
{
  JSONValue v;
  switch(j.k)
  {
  case 1: v = j.b; break;
  case 2: v = j.i; break;
  case 3: v = j.d; break;
  case 4: { Str s; s.assign(j.s); v = s; break; }
  case 5: { v = JSONValue::JSONArray(); auto& a = v.get<JSONValue::JSONArray>(); for(auto& x : j.a) a.Add(build(x)); break; }
  case 6: { v = JSONValue::JSONObject(); auto& a = v.get<JSONValue::JSONObject>(); for(auto& x : j.o) { std::pair<Str, JSONValue> p(Str(x.first), build(x.second)); a.Add(p); } break; }
  }
  return v;
}
static J read(const JSONValue& v)
{
  J j;
  if(v.is<Str>()) { j.k = 4; j.s = v.get<Str>(); }
  else if(v.is<double>()) { j.k = 3; j.d = v.get<double>(); }
  else if(v.is<int64_t>()) { j.k = 2; j.i = v.get<int64_t>(); }
  else if(v.is<bool>()) { j.k = 1; j.b = v.get<bool>(); }
  else if(v.is<JSONValue::JSONArray>()) { j.k = 5; for(auto& x : v.get<JSONValue::JSONArray>()) j.a.push_back(read(x)); }
  else if(v.is<JSONValue::JSONObject>()) { j.k = 6; for(auto& x : v.get<JSONValue::JSONObject>()) j.o.push_back({ x.first, read(x.second) }); }
  return j;
}
static std::string show(const std::string& s)
{
  std::string o;
  char b[8];
  for(unsigned char c : s) { if(c < 32 || c > 126) { snprintf(b, sizeof b, "<%02x>", c); o += b; } else o += (char)c; if(o.size() > (getenv("MON_LONG") ? 40000u : 400u)) break; }
  return o;
}
// ---- values without a schema
static void values(Rng& r)
{
  J j = gen(r, (int)r.below(5));
  bool w = r.chance(1, 2);
  std::string t;
  ws(r, t, w);
  emit(r, t, j, w);
  if(w && r.chance(1, 2) && j.k != 2 && j.k != 3) ws(r, t, w);
  mon::op("parse %s", show(t).c_str());
  {
    JSONValue v;
    std::istringstream ss(t);
    ParseJSON<JSONValue>(v, ss);
    J g = read(v);
    if(!same(g, j, true))
    {
      std::string e;
      Rng rr(1);
      emit(rr, e, g, false);
      mon::fail("json:parse-value", "the text %s parses as %s", show(t).c_str(), show(e).c_str());
    }
    ++mon::g.checks;
  }
  size_t pretty = r.below(3);
  JSONValue v = build(j);
  std::ostringstream o;
  WriteJSON<JSONValue>(v, o, pretty);
  std::string out = o.str();
  mon::op("write pretty %zu -> %s", pretty, show(out).c_str());
  J s;
  Strict p(out);
  CHECK(p.all(s), "json:write-syntax", "what was written is not JSON (%s at %zu): %s", p.err, p.p, show(out).c_str());
  CHECK(same(s, j, false), "json:write-value", "what was written is not the value: %s", show(out).c_str());
  JSONValue back;
  std::istringstream is(out);
  ParseJSON<JSONValue>(back, is);
  CHECK(same(read(back), j, false), "json:roundtrip-value", "the value does not read back from %s", show(out).c_str());
}
// ---- typed objects
enum EN : int { E0, E1, E2 };
struct Sub
{
  int x = 0;
  Str y;
  DynArray<Sub, uint32_t, ARRAY_SAFE> kids;
  template<typename Engine> void Serialize(Serializer<Engine>& s, const char*) { s.template EvaluateType<Sub>(GenPair("x", x), GenPair("y", y), GenPair("kids", kids)); }
};
struct Rec
{
  int64_t a = 0; uint64_t u = 0; uint16_t b = 0; int8_t i8 = 0; uint8_t u8 = 0;
  double c = 0; float f = 0; bool t = false; Str str; std::string std; EN en = E0;
  Sub sub;
  DynArray<int64_t> ints; std::vector<double> dbls; DynArray<Str, uint16_t, ARRAY_SAFE> strs; DynArray<Sub, size_t, ARRAY_SAFE> subs;
  std::array<int, 3> arr = { 0, 0, 0 }; int fix[2] = { 0, 0 };
  std::tuple<short, Str, double> tup;
  Hash<int, int> hash;
  DynArray<bool> bits;
  template<typename Engine> void Serialize(Serializer<Engine>& s, const char*)
  {
    s.template EvaluateType<Rec>(GenPair("a", a), GenPair("u", u), GenPair("b", b), GenPair("i8", i8), GenPair("u8", u8), GenPair("c", c), GenPair("f", f), GenPair("t", t), GenPair("str", str), GenPair("std", std), GenPair("en", en),
      GenPair("sub", sub), GenPair("ints", ints), GenPair("dbls", dbls), GenPair("strs", strs), GenPair("subs", subs), GenPair("arr", arr), GenPair("fix", fix), GenPair("tup", tup), GenPair("hash", hash), GenPair("bits", bits));
  }
};
static J jn(int64_t v) { J j; j.k = 2; j.i = v; return j; }
static J jd(double v) { J j; j.k = 3; j.d = v; return j; }
static J jb(bool v) { J j; j.k = 1; j.b = v; return j; }
static J js(const std::string& v) { J j; j.k = 4; j.s = v; return j; }
static J jsub(const Sub& s)
{
  J j; j.k = 6;
  j.o.push_back({ "x", jn(s.x) });
  j.o.push_back({ "y", js(s.y) });
  J k; k.k = 5;
  for(auto& q : s.kids) k.a.push_back(jsub(q));
  j.o.push_back({ "kids", k });
  return j;
}
static J jrec(Rec& v)
{
  J j; j.k = 6;
  auto add = [&](const char* n, J x) { j.o.push_back({ n, x }); };
  auto arr = [] { J x; x.k = 5; return x; };
  add("a", jn(v.a));
  add("u", v.u > (uint64_t)INT64_MAX ? jd((double)v.u) : jn((int64_t)v.u));
  add("b", jn(v.b)); add("i8", jn(v.i8)); add("u8", jn(v.u8));
  add("c", jd(v.c)); add("f", jd(v.f)); add("t", jb(v.t)); add("str", js(v.str)); add("std", js(v.std)); add("en", jn((int)v.en));
  add("sub", jsub(v.sub));
  J x = arr(); for(auto q : v.ints) x.a.push_back(jn(q)); add("ints", x);
  x = arr(); for(auto q : v.dbls) x.a.push_back(jd(q)); add("dbls", x);
  x = arr(); for(auto& q : v.strs) x.a.push_back(js(q)); add("strs", x);
  x = arr(); for(auto& q : v.subs) x.a.push_back(jsub(q)); add("subs", x);
  x = arr(); for(auto q : v.arr) x.a.push_back(jn(q)); add("arr", x);
  x = arr(); for(auto q : v.fix) x.a.push_back(jn(q)); add("fix", x);
  x = arr(); x.a = { jn(std::get<0>(v.tup)), js(std::get<1>(v.tup)), jd(std::get<2>(v.tup)) }; add("tup", x);
  x.k = 6; x.a.clear();
  std::map<int, int> m;
  for(auto q : v.hash) m[std::get<0>(q)] = std::get<1>(q);
  for(auto& q : m) x.o.push_back({ std::to_string(q.first), jn(q.second) });
  add("hash", x);
  x = arr(); for(size_t i = 0; i < v.bits.Length(); ++i) x.a.push_back(jb(v.bits[i])); add("bits", x);
  return j;
}
static void rsub(Rng& r, Sub& s, int depth)
{
  s.x = (int)rint(r);
  s.y = rstr(r, true).c_str();
  if(depth > 0) for(size_t n = r.below(3); n > 0; --n) { s.kids.AddConstruct(); rsub(r, s.kids.Back(), depth - 1); }
}
static void rrec(Rng& r, Rec& v)
{
  v.a = rint(r); v.u = r.next() >> r.below(64); v.b = (uint16_t)r.next(); v.i8 = (int8_t)r.next(); v.u8 = (uint8_t)r.next();
  v.c = rdbl(r); v.f = (float)(r.range(-100000, 100000) / 64.0) * (r.chance(1, 3) ? 1.1f : 1); v.t = r.chance(1, 2); v.str.assign(rstr(r, false)); v.std = rstr(r, false); v.en = (EN)r.below(3);
  rsub(r, v.sub, 2);
  for(size_t n = mon::scale.count(r, r.below(5)); n > 0; --n) v.ints.Add(rint(r));
  for(size_t n = r.below(5); n > 0; --n) v.dbls.push_back(rdbl(r));
  for(size_t n = mon::scale.count(r, r.below(5)); n > 0; --n) v.strs.Add(Str(rstr(r, true).c_str()));
  for(size_t n = r.below(3); n > 0; --n) { v.subs.AddConstruct(); rsub(r, v.subs.Back(), 1); }
  for(auto& q : v.arr) q = (int)rint(r);
  for(auto& q : v.fix) q = (int)rint(r);
  v.tup = std::make_tuple((short)r.next(), Str(rstr(r, true).c_str()), rdbl(r));
  for(size_t n = mon::scale.count(r, r.below(5)); n > 0; --n) v.hash.Insert((int)r.range(-20, 20), (int)rint(r));
  for(size_t n = 1 + r.below(20); n > 0; --n) v.bits.Add(r.chance(1, 2));
}
static void sorthash(J& j) { for(auto& p : j.o) if(p.first == "hash") std::sort(p.second.o.begin(), p.second.o.end(), [](auto& a, auto& b) { return atoi(a.first.c_str()) < atoi(b.first.c_str()); }); }
static const char* differ(const J& a, const J& b)
{
  for(size_t i = 0; i < a.o.size() && i < b.o.size(); ++i) if(a.o[i].first != b.o[i].first || !same(a.o[i].second, b.o[i].second, false)) return a.o[i].first.c_str();
  return "(count)";
}
static void records(Rng& r)
{
  Rec v;
  rrec(r, v);
  J j = jrec(v);
  size_t pretty = r.below(3);
  std::ostringstream o;
  WriteJSON<Rec>(v, o, pretty);
  std::string out = o.str();
  mon::op("record pretty %zu -> %s", pretty, show(out).c_str());
  J s;
  Strict p(out);
  CHECK(p.all(s), "json:record-syntax", "what was written is not JSON (%s at %zu): ...%s", p.err, p.p, show(out.substr(p.p > 60 ? p.p - 60 : 0, 120)).c_str());
  sorthash(s);
  for(auto& q : s.o) if(q.first == "f" && (q.second.k == 2 || q.second.k == 3)) q.second = jd((float)q.second.num());
  CHECK(same(s, j, false), "json:record-write", "member %s was not written with its value: %s", differ(s, j), show(out).c_str());
  Rec back;
  std::istringstream is(out);
  ParseJSON<Rec>(back, is);
  J g = jrec(back);
  CHECK(same(g, j, false), "json:record-roundtrip", "member %s did not read back from %s", differ(g, j), show(out).c_str());
  CHECK(back.u == v.u && back.c == v.c && back.f == v.f, "json:record-roundtrip", "a number did not read back exactly (%llu/%.17g/%.9g became %llu/%.17g/%.9g)", (unsigned long long)v.u, v.c, v.f, (unsigned long long)back.u, back.c, back.f);
  // members in any order, unknown ones among them, any spacing, numbers given as text
  J m = j;
  if(v.u > (uint64_t)INT64_MAX) { m.o[1].second = jn(5); j.o[1].second = jn(5); }
  for(size_t i = m.o.size(); i > 1; --i) std::swap(m.o[i - 1], m.o[r.below(i)]);
  for(size_t n = r.below(4); n > 0; --n) m.o.insert(m.o.begin() + r.below(m.o.size() + 1), { "zz" + rstr(r, true), gen(r, 2) });
  for(auto& q : m.o) if((q.first == "a" || q.first == "b") && r.chance(1, 4)) { q.second = js(std::to_string(q.second.i)); q.second.b = true; }
  for(auto& q : m.o) if(q.first == "t" && r.chance(1, 3)) q.second = jn(v.t ? 1 + (int64_t)r.below(30) : 0); // a number for a boolean
  for(auto& q : m.o) if(q.first == "bits" && r.chance(1, 3)) for(auto& z : q.second.a) if(r.chance(1, 2)) z = jn(z.b ? 1 + (int64_t)r.below(30) : 0);
  for(auto& q : m.o) if((q.first == "arr" || q.first == "fix") && r.chance(1, 4)) q.second.a.push_back(gen(r, 1)); // more elements than there is room for
  for(auto& q : m.o) if((q.first == "b" || q.first == "c" || q.first == "en" || q.first == "t") && r.chance(1, 8)) // not of the right kind: its value is anyone's guess, but the others are not
    {
      q.second = r.chance(1, 2) ? J() : gen(r, 1);
      for(auto& k : j.o) if(k.first == q.first) k.second = J();
    }
  std::string t;
  ws(r, t, true);
  emit(r, t, m, true);
  mon::op("record parse %s", show(t).c_str());
  Rec any;
  std::istringstream as(t);
  ParseJSON<Rec>(any, as);
  g = jrec(any);
  for(size_t i = 0; i < j.o.size(); ++i) if(j.o[i].second.k == 0) g.o[i].second = J();
  if(getenv("MON_LONG") && !same(g, j, false)) fprintf(stderr, "%s\n", t.c_str());
  CHECK(same(g, j, false), "json:record-parse", "member %s was not read from %s", differ(g, j), show(t).c_str());
}
// ---- anything at all: must come back, inside its buffers
static void junk(Rng& r)
{
  std::string t;
  J j = gen(r, 3);
  if(r.chance(1, 2)) { Rec v; rrec(r, v); j = jrec(v); }
  emit(r, t, j, r.chance(1, 2));
  for(size_t n = r.below(6); n > 0; --n)
  {
    size_t at = r.below(t.size() + 1);
    switch(r.below(4))
    {
    case 0: t.resize(at); break;
    case 1: if(at < t.size()) t[at] = "\"\\{}[],:u0-e.\0 tn\xff"[r.below(19)]; break;
    case 2: t.insert(at, 1, "\"\\{}[],:u0-e. "[r.below(14)]); break;
    case 3: if(at < t.size()) t.erase(at, 1 + r.below(3)); break;
    }
  }
  mon::op("junk %s", show(t).c_str());
  { JSONValue v; std::istringstream s(t); ParseJSON<JSONValue>(v, s); read(v); }
  { Rec v; std::istringstream s(t); ParseJSON<Rec>(v, s); jrec(v); }
}
void mon_case(Rng& r, uint64_t c)
{
  const char* big = mon::scale.roll(r, 120);
  if(big) mon::ev(big);
  switch(r.below(5))
  {
  case 0: case 1: values(r); break;
  case 2: case 3: records(r); break;
  case 4: junk(r); break;
  }
  mon::nontrivial();
}
