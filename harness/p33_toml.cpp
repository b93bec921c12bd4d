// Monitor for TOML: a structure that is written comes back with the same values, and a document that any TOML writer
// could have produced (tables in any spelling, quoted and literal strings, comments, line breaks inside of arrays,
// inline tables, arrays of tables) is read into the values it spells, both into structures and into the generic value.
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/TOML.h"
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <tuple>
#include <fstream>
#include <unistd.h>
#include <stdlib.h>
using namespace bss;
using mon::Rng;
typedef std::string S;

typedef std::chrono::system_clock::time_point When; // dates are kept to the second
static S show(bool v) { return v ? "true" : "false"; }
template<class T> static typename std::enable_if<std::is_integral<T>::value, S>::type show(T v) { return std::is_signed<T>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v); }
static S show(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
static S show(float v) { return show((double)v); }
static S show(const S& v) { S r = "\""; for(unsigned char c : v) { char b[8]; snprintf(b, 8, c >= 32 && c < 127 ? "%c" : "\\x%02x", c); r += b; } return r + "\""; }
static S show(const Str& v) { return show(S(v.c_str(), v.size())); }
static S show(When v) { return "@" + show((long long)std::chrono::duration_cast<std::chrono::nanoseconds>(v.time_since_epoch()).count()); }
static When moment(long long secs) { return When(std::chrono::duration_cast<When::duration>(std::chrono::seconds(secs))); }
static When when(Rng& r) { return moment(r.chance(1, 4) ? r.range(-50000, 50000) * 86400ll : r.range(-2000000000ll, 8000000000ll)); }
template<class T> static S show(const std::vector<T>& v);
template<class T, ARRAY_TYPE A> static S show(const DynArray<T, size_t, A>& v);
template<class T> static S showlist(const T& v) { S r = "["; for(auto& i : v) r += show(i) + ","; return r + "]"; }
template<class T> static S show(const std::vector<T>& v) { return showlist(v); }
template<class T, ARRAY_TYPE A> static S show(const DynArray<T, size_t, A>& v) { return showlist(v); }

static S text(Rng& r, bool multi)
{
  S s;
  for(int i = (int)mon::scale.len(r, r.chance(1, 8) ? r.below(60) : r.below(8)); i > 0; --i)
  {
    switch(r.below(13))
    {
    case 8: s += multi ? "\r\f\v\x7f\x01"[r.below(5)] : 'y'; break;
    case 0: s += '"'; break;
    case 1: s += '\\'; break;
    case 2: s += "\t"; break;
    case 3: s += multi ? "\n" : " "; break;
    case 4: s += "\xC3\xA9"; break;
    case 5: s += "[]{},=#."[r.below(8)]; break;
    case 6: s += r.chance(1, 4) ? "''" : "'"; break;
    case 7: s += multi ? "\b" : "x"; break;
    default: s += (char)r.range(' ', '~');
    }
  }
  return s;
}
static double real(Rng& r)
{
  switch(r.below(5))
  {
  case 0: return r.range(-1000, 1000);
  case 1: return r.range(-4000, 4000) / 8.0;
  case 2: return (double)(int64_t)r.next() / 4294967296.0 / 3.0;
  case 3: return ldexp((double)r.range(-1000000, 1000000), (int)r.range(-200, 200));
  default: return (double)r.range(-100000, 100000) * 0.001;
  }
}

struct Leaf
{
  int a = 0; double d = 0; Str s; bool b = false; When w;
  template<typename E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Leaf>(GenPair("a", a), GenPair("d", d), GenPair("s", s), GenPair("b", b), GenPair("w", w)); }
  void fill(Rng& r) { a = (int)r.next() >> r.below(31); d = real(r); s = text(r, true).c_str(); b = r.chance(1, 2); w = when(r); }
};
static S show(const Leaf& v) { return "{" + show(v.a) + "," + show(v.d) + "," + show(v.s) + "," + show(v.b) + "," + show(v.w) + "}"; }
struct Mid
{
  short n = 0; Leaf leaf; std::vector<int> v; std::vector<Leaf> leaves; Str name;
  template<typename E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Mid>(GenPair("n", n), GenPair("leaf", leaf), GenPair("v", v), GenPair("leaves", leaves), GenPair("name", name)); }
  void fill(Rng& r)
  {
    n = (short)r.next(); leaf.fill(r); name = text(r, true).c_str();
    for(size_t i = r.below(5); i > 0; --i) v.push_back((int)r.range(-500, 500));
    for(size_t i = r.below(3); i > 0; --i) { leaves.emplace_back(); leaves.back().fill(r); }
  }
};
static S show(const Mid& v) { return "{" + show(v.n) + "," + show(v.leaf) + "," + show(v.v) + "," + show(v.leaves) + "," + show(v.name) + "}"; }
typedef Hash<Str, int, ARRAY_SAFE> COUNTS;
typedef Hash<Str, Leaf, ARRAY_SAFE> NAMED;
static S show(const COUNTS& v) { std::map<S, S> m; for(auto [k, x] : const_cast<COUNTS&>(v)) m[show(k)] = show(x); S r = "{"; for(auto& p : m) r += p.first + ":" + p.second + ","; return r + "}"; }
static S show(const NAMED& v) { std::map<S, S> m; for(auto [k, x] : const_cast<NAMED&>(v)) m[show(k)] = show(x); S r = "{"; for(auto& p : m) r += p.first + ":" + p.second + ","; return r + "}"; }
static S keyname(Rng& r) { S s; if(r.chance(1, 3)) s = text(r, true); for(int i = (int)r.below(5); i > 0; --i) s += "abcXYZ019_-"[r.below(11)]; return s; }
struct Root
{
  int64_t i = 0; uint64_t u = 0; unsigned char c = 0; float f = 0; double d = 0; bool t = false;
  When w; std::vector<When> times;
  Str s;
  DynArray<double> reals; std::vector<Str> strs; std::vector<std::vector<int>> nested; std::vector<std::vector<std::vector<Str>>> deep; bool flags[3] = { false, false, false };
  COUNTS counts; NAMED named;
  std::tuple<short, Str, double> tup;
  Mid mid; Leaf leaf; std::vector<Leaf> leaves; DynArray<Mid, size_t, ARRAY_SAFE> mids;
  template<typename E> void Serialize(Serializer<E>& e, const char*)
  {
    e.template EvaluateType<Root>(GenPair("i", i), GenPair("u", u), GenPair("c", c), GenPair("w", w), GenPair("times", times), GenPair("f", f), GenPair("d", d), GenPair("t", t), GenPair("s", s), GenPair("reals", reals), GenPair("strs", strs), GenPair("nested", nested), GenPair("deep", deep), GenPair("flags", flags), GenPair("tup", tup), GenPair("mid", mid), GenPair("leaf", leaf), GenPair("leaves", leaves), GenPair("mids", mids), GenPair("counts", counts), GenPair("named", named));
  }
  void fill(Rng& r)
  {
    i = (int64_t)r.next() >> r.below(63); u = r.next() >> r.below(63); c = (unsigned char)r.next(); f = (float)r.range(-4000, 4000) / 7; d = real(r); t = r.chance(1, 2);
    s = text(r, true).c_str();
    w = when(r); for(size_t k = r.below(4); k > 0; --k) times.push_back(when(r));
    for(size_t k = mon::scale.count(r, r.below(5)); k > 0; --k) reals.Add(real(r));
    for(size_t k = mon::scale.count(r, r.below(5)); k > 0; --k) strs.push_back(text(r, true).c_str());
    for(size_t k = r.below(4); k > 0; --k) { nested.emplace_back(); for(size_t j = r.below(4); j > 0; --j) nested.back().push_back((int)r.range(-99, 99)); }
    for(size_t k = r.below(3); k > 0; --k) { deep.emplace_back(); for(size_t j = r.below(3); j > 0; --j) { deep.back().emplace_back(); for(size_t l = r.below(3); l > 0; --l) deep.back().back().push_back(text(r, true).c_str()); } }
    for(bool& b : flags) b = r.chance(1, 2);
    std::get<0>(tup) = (short)r.next(); std::get<1>(tup) = text(r, true).c_str(); std::get<2>(tup) = real(r);
    mid.fill(r); leaf.fill(r);
    for(size_t k = mon::scale.count(r, r.below(4)); k > 0; --k) counts.Insert(keyname(r).c_str(), (int)r.range(-99, 99));
    for(size_t k = r.below(3); k > 0; --k) { Leaf l; l.fill(r); named.Insert(keyname(r).c_str(), l); }
    for(size_t k = mon::scale.count(r, r.below(4), 200); k > 0; --k) { leaves.emplace_back(); leaves.back().fill(r); }
    for(size_t k = r.below(3); k > 0; --k) { Mid m; m.fill(r); mids.Add(m); }
  }
};
static S show(const Root& v)
{
  S fl; for(bool b : v.flags) fl += show(b) + ",";
  return "i=" + show(v.i) + " u=" + show(v.u) + " c=" + show(v.c) + " f=" + show(v.f) + " d=" + show(v.d) + " t=" + show(v.t) + " s=" + show(v.s) + " w=" + show(v.w) + " times=" + show(v.times) + " reals=" + show(v.reals) + " strs=" + show(v.strs) + " nested=" + show(v.nested) + " deep=" + show(v.deep) + " flags=" + fl
    + " tup=" + show(std::get<0>(v.tup)) + "," + show(std::get<1>(v.tup)) + "," + show(std::get<2>(v.tup)) + " mid=" + show(v.mid) + " leaf=" + show(v.leaf) + " leaves=" + show(v.leaves) + " mids=" + show(v.mids) + " counts=" + show(v.counts) + " named=" + show(v.named);
}

// ---- an independent writer with all the freedom the format gives
struct Writer
{
  Rng& r; S out; bool strange = false, quoted = false; // numbers may be given as strings, which a numeric member takes as the number
  Writer(Rng& rng) : r(rng) {}
  S quote(const S& s) { if(!quoted || !r.chance(1, 8)) return s; mon::ev("quoted_numbers"); return "\"" + s + (r.chance(1, 4) ? " apples\"" : "\""); }
  S ws() { S s; for(int i = (int)r.below(3); i > 0; --i) s += r.chance(1, 4) ? '\t' : ' '; return s; }
  S nlws() { S s = ws(); while(r.chance(1, 4)) { if(r.chance(1, 3)) s += "# a comment, with ] and } \"quotes\""; s += r.chance(1, 5) ? "\r\n" : "\n"; s += ws(); } return s; }
  S eol() { S s = ws(); if(r.chance(1, 5)) s += "# note = [1]"; s += r.chance(1, 6) ? "\r\n" : "\n"; while(r.chance(1, 6)) s += r.chance(1, 2) ? "# k = 1\n" : "\n"; return s; }
  static bool controls(const S& v) { for(unsigned char c : v) if((c < 32 && c != '\t') || c == 127) return true; return false; }
  static bool hard(const S& v) { for(unsigned char c : v) if((c < 32 && c != '\t' && c != '\n') || c == 127) return true; return false; }
  static bool bare(const S& k) { for(char c : k) if(!isalnum((unsigned char)c) && c != '_' && c != '-') return false; return !k.empty(); }
  S key(const S& k)
  {
    if(!bare(k)) return !controls(k) && k.find('\'') == S::npos && r.chance(1, 3) ? "'" + k + "'" : "\"" + basic(k, false) + "\"";
    return plainkey(k);
  }
  S plainkey(const S& k) { return r.chance(1, 6) ? "\"" + k + "\"" : r.chance(1, 8) ? "'" + k + "'" : k; }
  S basic(const S& v, bool multi)
  {
    S s;
    for(size_t i = 0; i < v.size(); ++i)
    {
      unsigned char c = (unsigned char)v[i]; char b[16];
      if(c == '"' && multi && !s.empty() && r.chance(1, 2) && i + 1 < v.size() && v[i + 1] != '"' && s.back() != '"') { s += '"'; continue; }
      if(c == '"') s += "\\\"";
      else if(c == '\\') s += "\\\\";
      else if(c == '\b') s += "\\b";
      else if(c == '\n') s += multi && r.chance(1, 2) ? "\n" : "\\n";
      else if(c == '\r') s += "\\r";
      else if(c == '\f' && r.chance(1, 2)) s += "\\f";
      else if(c == '\t') s += r.chance(1, 2) ? "\t" : "\\t";
      else if(c < 32 || c == 127) { snprintf(b, 16, "\\u%04X", c); s += b; }
      else if(c < 127 && r.chance(1, 20)) { snprintf(b, 16, r.chance(1, 2) ? "\\u%04x" : "\\U%08X", c); s += b; }
      else s += (char)c;
      if(multi && r.chance(1, 25) && (i + 1 >= v.size() || (v[i + 1] != ' ' && v[i + 1] != '\t' && v[i + 1] != '\n'))) { s += "\\\n"; s += ws(); }
    }
    return s;
  }
  S str(const S& v)
  {
    bool ctl = controls(v);
    if(!ctl && v.find('\'') == S::npos && r.chance(1, 4)) return "'" + v + "'";
    if(v.find("'''") == S::npos && (v.empty() || v.back() != '\'') && !hard(v) && (v.empty() || v[0] != '\n') && r.chance(1, 6)) return "'''" + S(r.chance(1, 2) ? r.chance(1, 3) ? "\r\n" : "\n" : "") + v + "'''";
    if(r.chance(1, 5)) { S b = basic(v, true); return "\"\"\"" + S(b.empty() || b[0] == '\n' || r.chance(1, 2) ? r.chance(1, 3) ? "\r\n" : "\n" : "") + b + "\"\"\""; }
    return "\"" + basic(v, false) + "\"";
  }
  S date(When v)
  {
    long long t = std::chrono::duration_cast<std::chrono::seconds>(v.time_since_epoch()).count(), off = 0;
    char b[64]; S zone, frac; tm u;
    int kind = (int)r.below(5);
    if(kind == 4 && t % 86400) kind = 0;
    if(kind == 0) { off = r.range(-14 * 60, 14 * 60); snprintf(b, 64, "%c%02lld:%02lld", off < 0 ? '-' : '+', llabs(off) / 60, llabs(off) % 60); zone = b; }
    if(kind == 1) zone = "Z";
    if(kind == 2) zone = r.chance(1, 2) ? "+00:00" : "-00:00";
    if(r.chance(1, 4)) frac = S(".") + S(1 + r.below(12), '0');
    time_t x = (time_t)(t + off * 60); gmtime_r(&x, &u);
    strftime(b, 64, kind == 4 ? "%Y-%m-%d" : "%Y-%m-%dT%H:%M:%S", &u);
    mon::ev("dates_spelled");
    return kind == 4 ? S(b) : b + frac + zone;
  }
  S num(int64_t v) { return quote((v >= 0 && r.chance(1, 10) ? "+" : "") + show(v)); }
  S unum(uint64_t v) { return quote(show(v)); }
  S num(double v) { S s = show(v); if(s.find_first_of(".e") == S::npos) s += r.chance(1, 2) ? ".0" : "e0"; return quote(s); }
  S boolean(bool v) { if(quoted && r.chance(1, 5)) return v ? show((int64_t)(1 + r.below(30))) : "0"; return v ? "true" : "false"; }
  template<class V, class F> S arr(const V& v, F&& f)
  {
    S s = "[" + nlws(); size_t n = v.size(), i = 0;
    for(auto& e : v) { s += f(e) + nlws(); if(++i < n || r.chance(1, 6)) s += "," + nlws(); }
    return s + "]";
  }
  S leafinline(const Leaf& l) { std::vector<S> p = { key("a") + ws() + "=" + ws() + num((int64_t)l.a), key("d") + " = " + num(l.d), key("s") + ws() + "= " + inlinestr(S(l.s.c_str(), l.s.size())), key("b") + " =" + ws() + boolean(l.b), key("w") + ws() + "=" + ws() + date(l.w) }; if(strange && r.chance(1, 4)) p.push_back(key("odd") + ws() + "=" + ws() + anyline(2)); return "{" + ws() + shuffle(p, ",") + ws() + "}"; }
  S inlinestr(const S& v) { return "\"" + basic(v, false) + "\""; }
  S shuffle(std::vector<S> v, const char* sep)
  {
    for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    S s; for(size_t i = 0; i < v.size(); ++i) { if(i) { s += ws(); s += sep; s += ws(); } s += v[i]; } return s;
  }
  S lines(std::vector<S> v) { for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); S s; for(auto& l : v) s += ws() + l + eol(); return s; }
  S pair(const char* k, const S& v) { return key(k) + ws() + "=" + ws() + v; }
  std::vector<S> leafpairs(const Leaf& l) { std::vector<S> p = { pair("a", num((int64_t)l.a)), pair("d", num(l.d)), pair("s", str(S(l.s.c_str(), l.s.size()))), pair("b", boolean(l.b)), pair("w", date(l.w)) }; if(strange && r.chance(1, 4)) p.push_back(pair("odd", any(2))); return p; }
  S leaves(const std::vector<Leaf>& v) { return arr(v, [&](const Leaf& l) { return leafinline(l); }); }
  S head(const S& path, bool array) { return ws() + (array ? "[[" : "[") + path + (array ? "]]" : "]") + eol(); }
  S midbody(const Mid& m, const S& path)
  {
    std::vector<S> p = { pair("n", num((int64_t)m.n)), pair("v", arr(m.v, [&](int x) { return num((int64_t)x); })), pair("name", str(S(m.name.c_str(), m.name.size()))) };
    S tail;
    if(r.chance(1, 2)) p.push_back(pair("leaf", leafinline(m.leaf))); else tail += head(path + "." + key("leaf"), false) + lines(leafpairs(m.leaf));
    if(m.leaves.empty() || r.chance(1, 2)) p.push_back(pair("leaves", leaves(m.leaves)));
    else for(auto& l : m.leaves) tail += head(path + "." + key("leaves"), true) + lines(leafpairs(l));
    if(strange && r.chance(1, 4)) { S t = head(path + "." + key("odd"), r.chance(1, 3)) + lines({ pair("n", any(2)), pair("zz", any(1)) }); tail = r.chance(1, 2) ? t + tail : tail + t; }
    return lines(p) + tail;
  }
  S any(int depth) // any value at all, for a key that nobody asked for
  {
    switch(r.below(depth > 0 ? 8 : 6))
    {
    case 5: return date(when(r));
    case 0: return boolean(r.chance(1, 2));
    case 1: return num((int64_t)r.next() >> r.below(60));
    case 2: return num(r.unit() * 1000);
    case 3: return str("skip, me = [1] # }");
    case 4: return str("a \"b\" \\ 'c'\nd = 1\n");
    case 6: return arr(std::vector<int>(r.below(4)), [&](int) { return any(depth - 1); });
    default: { std::vector<S> c; for(size_t i = r.below(4); i > 0; --i) c.push_back(key("k" + show((int64_t)i)) + ws() + "=" + ws() + anyline(depth - 1)); return "{" + ws() + shuffle(c, ",") + ws() + "}"; }
    }
  }
  S anyline(int depth) { for(;;) { S s = any(depth); if(s.find('\n') == S::npos) return s; } }
  S root(const Root& v, bool unknown)
  {
    std::vector<S> p = { pair("i", num(v.i)), pair("u", unum(v.u)), pair("c", num((int64_t)v.c)), pair("f", num((double)v.f)), pair("d", num(v.d)), pair("t", boolean(v.t)), pair("s", str(S(v.s.c_str(), v.s.size()))),
      pair("w", date(v.w)), pair("times", arr(v.times, [&](When x) { return date(x); })),
      pair("reals", arr2(v.reals)), pair("strs", arr(v.strs, [&](const Str& x) { return str(S(x.c_str(), x.size())); })),
      pair("nested", arr(v.nested, [&](const std::vector<int>& x) { return arr(x, [&](int y) { return num((int64_t)y); }); })),
      pair("deep", arr(v.deep, [&](const std::vector<std::vector<Str>>& x) { return arr(x, [&](const std::vector<Str>& y) { return arr(y, [&](const Str& z) { return str(S(z.c_str(), z.size())); }); }); })),
      pair("flags", arr(std::vector<int>(v.flags, v.flags + 3), [&](int b) { return boolean(b != 0); })),
      pair("tup", "[" + nlws() + num((int64_t)std::get<0>(v.tup)) + "," + nlws() + str(S(std::get<1>(v.tup).c_str(), std::get<1>(v.tup).size())) + ws() + "," + num(std::get<2>(v.tup)) + nlws() + "]") };
    std::vector<S> tables;
    { S k = key("mid"); tables.push_back(head(k, false) + midbody(v.mid, k)); }
    if(r.chance(1, 2)) p.push_back(pair("leaf", leafinline(v.leaf))); else tables.push_back(head(key("leaf"), false) + lines(leafpairs(v.leaf)));
    if(v.leaves.empty() || r.chance(1, 2)) p.push_back(pair("leaves", leaves(v.leaves)));
    else { S t; for(auto& l : v.leaves) t += head(key("leaves"), true) + lines(leafpairs(l)); tables.push_back(t); }
    if(!v.mids.Length()) p.push_back(pair("mids", "[" + nlws() + "]"));
    else { S t; for(auto& m : v.mids) { S k = key("mids"); t += head(k, true) + midbody(m, k); } tables.push_back(t); }
    if(!v.counts.Length() || r.chance(1, 3))
    {
      std::vector<S> c; for(auto [k, x] : const_cast<COUNTS&>(v.counts)) c.push_back(key(k) + ws() + "=" + ws() + num((int64_t)x));
      p.push_back(pair("counts", "{" + ws() + shuffle(c, ",") + ws() + "}"));
    }
    else { std::vector<S> c; for(auto [k, x] : const_cast<COUNTS&>(v.counts)) c.push_back(key(k) + ws() + "=" + ws() + num((int64_t)x)); tables.push_back(head(key("counts"), false) + lines(c)); }
    if(!v.named.Length() || r.chance(1, 3))
    {
      std::vector<S> c; for(auto [k, x] : const_cast<NAMED&>(v.named)) c.push_back(key(k) + ws() + "=" + ws() + leafinline(x));
      p.push_back(pair("named", "{" + ws() + shuffle(c, ",") + ws() + "}"));
    }
    else { S t; if(r.chance(1, 2)) t += head(key("named"), false); for(auto [k, x] : const_cast<NAMED&>(v.named)) t += head(key("named") + ws() + "." + ws() + key(k), false) + lines(leafpairs(x)); tables.push_back(t); }
    if(unknown && r.chance(1, 3)) p.push_back(pair("unknown", any(2)));
    if(unknown && r.chance(1, 4)) { S t = head(r.chance(1, 2) ? "nobody" : "nobody.knows", r.chance(1, 3)); t += lines({ pair("i", any(2)), pair("s", any(1)), pair("zz", any(2)) }); if(r.chance(1, 2)) t += head("nobody.knows.it", r.chance(1, 2)) + lines({ pair("d", any(1)) }); tables.push_back(t); mon::ev("unknown_tables"); }
    S s = lines(p);
    for(size_t i = tables.size(); i > 1; --i) std::swap(tables[i - 1], tables[r.below(i)]);
    for(auto& t : tables) s += t;
    return s;
  }
  S arr2(const DynArray<double>& v) { std::vector<double> x; for(size_t i = 0; i < v.Length(); ++i) x.push_back(v[i]); return arr(x, [&](double y) { return num(y); }); }
};

// ---- the same values as a generic value shows them
static S gnum(double v) { double i; return modf(v, &i) == 0.0 && i >= -9223372036854775808.0 && i < 9223372036854775808.0 ? show((int64_t)i) : show(v); }
static S gtable(const std::map<S, S>& m) { S r = "{"; for(auto& p : m) r += p.first + ":" + p.second + ","; return r + "}"; }
template<class V, class F> static S garr(const V& v, F&& f) { S r = "["; for(auto& e : v) r += f(e) + ","; return r + "]"; }
static S gleaf(const Leaf& l) { return gtable({ { show(S("a")), show(l.a) }, { show(S("d")), gnum(l.d) }, { show(S("s")), show(l.s) }, { show(S("b")), show(l.b) }, { show(S("w")), show(l.w) } }); }
static S gmid(const Mid& m) { return gtable({ { show(S("n")), show(m.n) }, { show(S("leaf")), gleaf(m.leaf) }, { show(S("v")), garr(m.v, [](int x) { return show(x); }) }, { show(S("leaves")), garr(m.leaves, gleaf) }, { show(S("name")), show(m.name) } }); }
static S groot(const Root& v)
{
  std::map<S, S> counts, named, m;
  for(auto [k, x] : const_cast<COUNTS&>(v.counts)) counts[show(k)] = show(x);
  for(auto [k, x] : const_cast<NAMED&>(v.named)) named[show(k)] = gleaf(x);
  auto put = [&](const char* k, const S& x) { m[show(S(k))] = x; };
  put("i", show(v.i)); put("u", show(v.u)); put("c", show(v.c)); put("f", gnum(v.f)); put("d", gnum(v.d)); put("t", show(v.t)); put("s", show(v.s)); put("w", show(v.w)); put("times", garr(v.times, [](When x) { return show(x); }));
  put("reals", garr(v.reals, gnum)); put("strs", garr(v.strs, [](const Str& x) { return show(x); }));
  put("nested", garr(v.nested, [](const std::vector<int>& x) { return garr(x, [](int y) { return show(y); }); })); put("deep", show(v.deep));
  put("flags", garr(v.flags, [](bool b) { return show(b); }));
  put("tup", "[" + show(std::get<0>(v.tup)) + "," + show(std::get<1>(v.tup)) + "," + gnum(std::get<2>(v.tup)) + ",]");
  put("mid", gmid(v.mid)); put("leaf", gleaf(v.leaf)); put("leaves", garr(v.leaves, gleaf)); put("mids", garr(v.mids, gmid)); put("counts", gtable(counts)); put("named", gtable(named));
  return gtable(m);
}
static S gshow(TOMLValue& v)
{
  if(v.is<Str>()) return show(v.get<Str>());
  if(v.is<double>()) return show(v.get<double>());
  if(v.is<int64_t>()) return show(v.get<int64_t>());
  if(v.is<When>()) return show(v.get<When>());
  if(v.is<bool>()) return show(v.get<bool>());
  if(v.is<TOMLValue::TOMLArray>()) { S r = "["; for(auto& e : v.get<TOMLValue::TOMLArray>()) r += gshow(e) + ","; return r + "]"; }
  if(v.is<TOMLValue::TOMLTable>()) { std::map<S, S> m; for(auto [k, x] : v.get<TOMLValue::TOMLTable>()) m[show(k)] = gshow(x); return gtable(m); }
  return "nothing";
}

static void fill_any(Root& x) { x.i = 77; x.d = 1.5; x.s = "before"; }

void mon_case(Rng& r, uint64_t)
{
  const char* big = mon::scale.roll(r, 120);
  if(big) mon::ev(big);
  Root v; v.fill(r);
  S want = show(v);
  mon::op("%.3000s", want.c_str());
  if(r.chance(1, 2))
  { // written by the library, read by the library
    std::stringstream ss;
    if(r.chance(1, 20)) // through a file
    {
      char path[] = "./tomlXXXXXX"; int fd = mkstemp(path); CHECK(fd >= 0, "harness", "no scratch file");
      close(fd); WriteTOML(v, path);
      { std::ifstream fs(path, std::ios::binary); ss << fs.rdbuf(); }
      unlink(path); mon::ev("files_written");
    }
    else WriteTOML(v, ss);
    S doc = ss.str();
    if(r.chance(1, 4)) // a name asks for the table of that name only
    {
      const char* names[2] = { "leaf", "mid" }; int k = (int)r.below(2); std::stringstream s2(doc); Serializer<TOMLEngine> e; S got, w;
      if(k == 0) { Leaf l; e.Parse(l, s2, names[k]); got = show(l); w = show(v.leaf); }
      if(k == 1) { Mid l; e.Parse(l, s2, names[k]); got = show(l); w = show(v.mid); }
      CHECK(got == w, "toml-named", "%s: %s expected, %s read from %s", names[k], w.c_str(), got.c_str(), doc.c_str());
      mon::ev("single_tables_read");
    }
    Root b; fill_any(b); ParseTOML(b, ss);
    CHECK(show(b) == want, "toml-roundtrip", "%s became %s through %s", want.c_str(), show(b).c_str(), doc.c_str());
    mon::ev("structures_written_and_read");
  }
  else
  { // written by somebody else
    bool generic = v.u <= INT64_MAX && r.chance(1, 2);
    Writer w(r); w.quoted = !generic && r.chance(1, 3); w.strange = !generic && r.chance(1, 3); S doc = w.root(v, !generic);
    if(generic)
    {
      TOMLValue g; ParseTOML(g, doc.c_str());
      S w2 = groot(v), got = gshow(g);
      CHECK(got == w2, "toml-generic", "%s expected, %s read from\n%s", w2.c_str(), got.c_str(), doc.c_str());
      mon::ev("generic_values_read");
      const TOMLValue& cg = g; TOMLValue h(cg), i; i = cg; TOMLValue j(std::move(h)), k; k = std::move(i);
      CHECK(gshow(j) == w2 && gshow(k) == w2 && gshow(g) == w2, "toml-generic-copy", "a copy of %s is %s or %s", w2.c_str(), gshow(j).c_str(), gshow(k).c_str());
      k = v.leaf.d; CHECK(k.is<double>() && k.get<double>() == v.leaf.d, "toml-generic-set", "a value set to %g is %s", v.leaf.d, gshow(k).c_str());
      k = Str(v.s); CHECK(k.is<Str>() && k.get<Str>() == v.s, "toml-generic-set", "a value set to %s is %s", show(v.s).c_str(), gshow(k).c_str());
      TOMLValue l(v.i); CHECK(l.is<int64_t>() && l.get<int64_t>() == v.i, "toml-generic-set", "a value made from %lld is %s", (long long)v.i, gshow(l).c_str());
    }
#ifdef NDEBUG
    if(r.chance(1, 3)) // a damaged document may give anything, but it is read to its end without touching anything else
    {
      S bad = doc;
      if(r.chance(1, 2)) bad.resize(r.below(bad.size() + 1));
      for(int i = (int)r.below(4); i > 0 && bad.size(); --i) switch(r.below(3))
      {
      case 0: bad[r.below(bad.size())] = "[]{}=.,\"'#\\\n a0-"[r.below(16)]; break;
      case 1: bad.erase(r.below(bad.size()), 1 + r.below(3)); break;
      case 2: bad.insert(r.below(bad.size()), 1, "[]{}=.,\"'#\\\n a0-"[r.below(16)]); break;
      }
      { Root x; ParseTOML(x, bad.c_str()); mon::note(x.leaves.size()); }
      { TOMLValue x; ParseTOML(x, bad.c_str()); mon::note(gshow(x).size()); }
      mon::ev("damaged_documents_read");
    }
#endif
    Root b; ParseTOML(b, doc.c_str());
    CHECK(show(b) == want, "toml-foreign", "%s expected, %s read from\n%s", want.c_str(), show(b).c_str(), doc.c_str());
    mon::ev("foreign_documents_read");
  }
  mon::nontrivial();
}
