// Monitor for text: conversions between UTF-8, UTF-32 and wide strings, and the string class's helpers, against plain reference code.
#include "mon.h"
#include "bss-util/Str.h"
#include "bss-util/utf_conv.h"
#include <vector>
#include <string>
using namespace bss;
using mon::Rng;
typedef std::u32string U32;
typedef std::wstring W;

static void enc(std::string& o, char32_t c)
{
  if(c < 0x80) o += (char)c;
  else if(c < 0x800) { o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 63)); }
  else if(c < 0x10000) { o += (char)(0xE0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | (c >> 18)); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
}
// decodes one character strictly; returns its length or 0 if the bytes at p are not a complete legal sequence
static size_t dec(const unsigned char* p, size_t n, char32_t& c)
{
  if(!n) return 0;
  if(p[0] < 0x80) { c = p[0]; return 1; }
  size_t k = p[0] >= 0xF0 ? 4 : p[0] >= 0xE0 ? 3 : 2;
  if(p[0] < 0xC2 || p[0] > 0xF4 || n < k) return 0;
  c = p[0] & (0xFF >> (k + 1));
  for(size_t i = 1; i < k; ++i)
  {
    if((p[i] & 0xC0) != 0x80) return 0;
    c = (c << 6) | (p[i] & 63);
  }
  static const char32_t mn[5] = { 0, 0, 0x80, 0x800, 0x10000 };
  if(c < mn[k] || c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) return 0;
  return k;
}
static U32 decodeall(const std::string& s) // up to the first illegal sequence
{
  U32 r;
  for(size_t i = 0; i < s.size();)
  {
    char32_t c;
    size_t k = dec((const unsigned char*)s.data() + i, s.size() - i, c);
    if(!k) break;
    r += c;
    i += k;
  }
  return r;
}
static char32_t cp(Rng& r)
{
  static const char32_t edge[] = { 1, 0x20, 0x7E, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFE, 0x10FFFF };
  switch(r.below(5))
  {
  case 0: return edge[r.below(sizeof edge / sizeof *edge)];
  case 1: return (char32_t)r.range(0x80, 0x7FF);
  case 2: { char32_t c = (char32_t)r.range(0x800, 0xFFFF); return (c >= 0xD800 && c <= 0xDFFF) ? c - 0x1000 : c; }
  case 3: return (char32_t)r.range(0x10000, 0x10FFFF);
  }
  return (char32_t)r.range(1, 0x7F);
}
static std::string esc(const std::string& s)
{
  std::string o;
  char b[8];
  for(unsigned char c : s) { if(c >= 32 && c < 127 && c != '\\') o += (char)c; else { snprintf(b, 8, "\\x%02x", c); o += b; } }
  return o;
}
// exact-size heap copies: every read or write outside of the buffer is seen by ASan
template<class T> struct Buf
{
  T* p;
  size_t n;
  explicit Buf(size_t k) : p((T*)malloc(k ? k * sizeof(T) : 1)), n(k) { memset((void*)p, 0xEE, k * sizeof(T)); }
  Buf(const T* s, size_t k) : p((T*)malloc(k ? k * sizeof(T) : 1)), n(k) { memcpy((void*)p, s, k * sizeof(T)); }
  ~Buf() { free(p); }
  Buf(const Buf&) = delete;
};

template<class W32> static size_t to32(const char* s, ptrdiff_t n, W32* o, size_t b);
template<> size_t to32<char32_t>(const char* s, ptrdiff_t n, char32_t* o, size_t b) { return UTF8toUTF32(s, n, o, b); }
template<> size_t to32<wchar_t>(const char* s, ptrdiff_t n, wchar_t* o, size_t b) { return UTF8toUTF16(s, n, o, b); }
template<class W32> static size_t to8(const W32* s, ptrdiff_t n, char* o, size_t b);
template<> size_t to8<char32_t>(const char32_t* s, ptrdiff_t n, char* o, size_t b) { return UTF32toUTF8(s, n, o, b); }
template<> size_t to8<wchar_t>(const wchar_t* s, ptrdiff_t n, char* o, size_t b) { return UTF16toUTF8(s, n, o, b); }

template<class T>
static void conv(Rng& r, const U32& text, const std::string& u8, const char* nm)
{
  typedef std::basic_string<T> S;
  S w(text.begin(), text.end());
  mon::op("%s %zu characters, %zu bytes", nm, text.size(), u8.size());
  // narrow -> wide, by terminator and by length, with room to spare, exactly enough and too little
  for(int bylen = 0; bylen < 2; ++bylen)
  {
    Buf<char> src(u8.c_str(), u8.size() + (bylen ? 0 : 1));
    if(bylen && u8.empty()) continue;
    ptrdiff_t n = bylen ? (ptrdiff_t)u8.size() : -1;
    size_t total = text.size() + (bylen ? 0 : 1);
    size_t q = to32<T>(src.p, n, (T*)0, 0);
    CHECK(q >= total, "utf:room", "%s: %zu units announced for %zu", nm, q, total);
    size_t cap = r.chance(1, 2) ? q : r.below(total + 2);
    Buf<T> out(cap);
    size_t k = to32<T>(src.p, n, out.p, cap);
    size_t want = cap < total ? cap : total;
    CHECK(k == want, "utf:8to32-count", "%s: %zu units written in a buffer of %zu, expected %zu", nm, k, cap, want);
    for(size_t i = 0; i < k; ++i) CHECK(out.p[i] == (i < text.size() ? w[i] : 0), "utf:8to32", "%s: unit %zu is %x, expected %x", nm, i, (unsigned)out.p[i], (unsigned)w[i]);
    mon::ev("conversions to wide");
  }
  // wide -> narrow
  for(int bylen = 0; bylen < 2; ++bylen)
  {
    Buf<T> src(w.c_str(), w.size() + (bylen ? 0 : 1));
    if(bylen && w.empty()) continue;
    ptrdiff_t n = bylen ? (ptrdiff_t)w.size() : -1;
    size_t total = u8.size() + (bylen ? 0 : 1);
    size_t q = to8<T>(src.p, n, 0, 0);
    CHECK(q >= total, "utf:room", "%s: %zu bytes announced for %zu", nm, q, total);
    size_t cap = r.chance(1, 2) ? q : r.below(total + 2);
    Buf<char> out(cap);
    size_t k = to8<T>(src.p, n, out.p, cap);
    size_t want = 0; // the longest run of whole characters that fits
    for(size_t i = 0; i <= text.size(); ++i)
    {
      if(i == text.size() && bylen) break;
      std::string one;
      if(i < text.size()) enc(one, text[i]); else one.assign(1, 0);
      if(want + one.size() > cap) break;
      want += one.size();
    }
    CHECK(k == want, "utf:32to8-count", "%s: %zu bytes written in a buffer of %zu, expected %zu", nm, k, cap, want);
    CHECK(!memcmp(out.p, u8.c_str(), k), "utf:32to8", "%s: bytes differ from %s", nm, esc(u8).c_str());
    mon::ev("conversions to UTF-8");
  }
  // through the string class
  StrT<T> a(u8.c_str());
  CHECK((S&)a == w, "utf:str-wide", "%s: string of %zu characters from %s", nm, a.size(), esc(u8).c_str());
  Str b(a);
  CHECK((std::string&)b == u8, "utf:str-narrow", "%s: \"%s\", expected \"%s\"", nm, esc(b).c_str(), esc(u8).c_str());
  size_t cut = r.below(text.size() + 1);
  std::string head;
  for(size_t i = 0; i < cut; ++i) enc(head, text[i]);
  {
    Buf<T> src(w.c_str(), cut);
    Str c(src.p, cut);
    CHECK((std::string&)c == head, "utf:str-counted", "%s: first %zu characters give \"%s\", expected \"%s\"", nm, cut, esc(c).c_str(), esc(head).c_str());
    Buf<char> s8(head.c_str(), head.size());
    StrT<T> d(s8.p, head.size());
    CHECK((S&)d == w.substr(0, cut), "utf:str-counted", "%s: %zu bytes give %zu characters, expected %zu", nm, head.size(), d.size(), cut);
  }
  Str e("old contents that are long enough to need memory");
  e = w.c_str();
  CHECK((std::string&)e == u8, "utf:assign", "%s: assigned \"%s\", expected \"%s\"", nm, esc(e).c_str(), esc(u8).c_str());
  e = "x";
  e = a;
  CHECK((std::string&)e == u8, "utf:assign", "%s: assigned \"%s\", expected \"%s\"", nm, esc(e).c_str(), esc(u8).c_str());
  e = (const T*)0;
  CHECK(e.empty(), "utf:assign", "%s: a null pointer is not the empty string", nm);
}

static void utf(Rng& r)
{
  U32 text;
  std::string u8;
  size_t n = r.below(r.chance(1, 5) ? 120 : 12);
  for(size_t i = 0; i < n; ++i) { char32_t c = cp(r); text += c; enc(u8, c); }
  conv<char32_t>(r, text, u8, "char32_t");
  conv<wchar_t>(r, text, u8, "wchar_t");
  { // UTF-32 <-> wide
    W w(text.begin(), text.end());
    StrT<wchar_t> a(text.c_str());
    CHECK((W&)a == w, "utf:32towide", "%zu characters, expected %zu", a.size(), w.size());
    StrT<char32_t> b(w.c_str());
    CHECK((U32&)b == text, "utf:wideto32", "%zu characters, expected %zu", b.size(), text.size());
    for(int bylen = 0; bylen < 2; ++bylen)
    {
      if(bylen && text.empty()) continue;
      ptrdiff_t n = bylen ? (ptrdiff_t)text.size() : -1;
      size_t total = text.size() + (bylen ? 0 : 1);
      Buf<char32_t> s(text.c_str(), total);
      Buf<wchar_t> v(w.c_str(), total);
      size_t q = UTF32toUTF16(s.p, n, 0, 0), q2 = UTF16toUTF32(v.p, n, 0, 0);
      CHECK(q >= total && q2 >= total, "utf:room", "%zu and %zu units announced for %zu", q, q2, total);
      size_t cap = r.chance(1, 2) ? total : r.below(total + 2), want = cap < total ? cap : total;
      Buf<wchar_t> o(cap);
      size_t k = UTF32toUTF16(s.p, n, o.p, cap);
      CHECK(k == want && !memcmp(o.p, w.c_str(), k * sizeof(wchar_t)), "utf:32towide", "%zu of %zu characters in a buffer of %zu", k, total, cap);
      Buf<char32_t> o2(cap);
      k = UTF16toUTF32(v.p, n, o2.p, cap);
      CHECK(k == want && !memcmp(o2.p, text.c_str(), k * sizeof(char32_t)), "utf:wideto32", "%zu of %zu characters in a buffer of %zu", k, total, cap);
      // the same text with the characters above U+FFFF as surrogate pairs
      W pairs;
      for(char32_t c : text) if(c > 0xFFFF) { pairs += (wchar_t)(0xD800 + ((c - 0x10000) >> 10)); pairs += (wchar_t)(0xDC00 + ((c - 0x10000) & 0x3FF)); } else pairs += (wchar_t)c;
      Buf<wchar_t> pb(pairs.c_str(), pairs.size() + (bylen ? 0 : 1));
      k = UTF16toUTF32(pb.p, bylen ? (ptrdiff_t)pairs.size() : -1, o2.p, cap);
      CHECK(k == want && !memcmp(o2.p, text.c_str(), k * sizeof(char32_t)), "utf:pairs", "%zu of %zu characters from surrogate pairs in a buffer of %zu", k, total, cap);
      mon::ev("conversions between wide and UTF-32");
    }
  }
  // damaged input: everything before the first illegal sequence arrives, nothing outside of the buffers is touched
  std::string bad = u8;
  for(size_t k = 1 + r.below(3); k; --k)
  {
    size_t at = r.below(bad.size() + 1);
    switch(r.below(4))
    {
    case 0: bad.insert(at, 1, (char)r.range(0x80, 0xFF)); break;
    case 1: if(at < bad.size()) bad.erase(at, 1); break;
    case 2: if(at < bad.size()) bad[at] = (char)r.range(1, 255); break;
    default: { static const char* seqs[] = { "\xC0\x80", "\xE0\x80\x80", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF4\x90\x80\x80", "\xF8\x88\x80\x80\x80", "\xFC\x84\x80\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xC1\xBF", "\xF0\x90\x80" }; bad.insert(at, seqs[r.below(10)]); }
    }
  }
  U32 good = decodeall(bad);
  size_t goodbytes = 0;
  for(char32_t c : good) { std::string o; enc(o, c); goodbytes += o.size(); }
  bool whole = goodbytes == bad.size();
  mon::op("damaged %s", esc(bad).c_str());
  if(!whole) mon::ev("illegal sequences met");
  for(int bylen = 0; bylen < 2; ++bylen)
  {
    if(bylen && bad.empty()) continue;
    Buf<char> src(bad.c_str(), bad.size() + (bylen ? 0 : 1));
    size_t q = UTF8toUTF32(src.p, bylen ? (ptrdiff_t)bad.size() : -1, 0, 0);
    size_t total = good.size() + (whole && !bylen);
    if(r.chance(1, 2)) q = bad.size() + 1;
    Buf<char32_t> out(q);
    size_t k = UTF8toUTF32(src.p, bylen ? (ptrdiff_t)bad.size() : -1, out.p, q);
    if(q >= total) CHECK(k == total, "utf:damaged-count", "%zu characters before the damage in %s, expected %zu", k, esc(bad).c_str(), total);
    CHECK(k <= q, "utf:damaged-count", "%zu characters in a buffer of %zu", k, q);
    for(size_t i = 0; i < k; ++i) CHECK(out.p[i] == (i < good.size() ? good[i] : 0), "utf:damaged", "character %zu of %s is %x", i, esc(bad).c_str(), (unsigned)out.p[i]);
  }
  { // values that are no characters become the replacement character
    U32 odd = text;
    for(size_t k = 1 + r.below(3); k; --k) odd.insert(odd.begin() + r.below(odd.size() + 1), (char32_t)(r.chance(1, 2) ? 0x110000 + r.below(1000) : r.range(0x110000, 0xFFFFFFFF)));
    std::string want;
    for(char32_t c : odd) enc(want, c > 0x10FFFF ? 0xFFFD : c);
    Str s(odd.c_str());
    CHECK((std::string&)s == want, "utf:replacement", "\"%s\", expected \"%s\"", esc(s).c_str(), esc(want).c_str());
    StrT<wchar_t> ws(odd.c_str());
    W ww;
    for(char32_t c : odd) ww += (wchar_t)(c > 0x10FFFF ? 0xFFFD : c);
    CHECK((W&)ws == ww, "utf:replacement", "%zu wide characters, expected %zu", ws.size(), ww.size());
  }
}

static std::string rnd(Rng& r, size_t max)
{
  static const char* al[] = { "ab", "a b\t", " \n\r\t", ",;:", "abcXYZ019", "\xC3\xA9\xC3\xBC\xE2\x82\xAC", "\x01\x1f \x7f\x80\xff", " !\x1f!\"" };
  std::string s;
  size_t n = r.below(max);
  std::string a = al[r.below(8)], b = al[r.below(8)];
  for(size_t i = 0; i < n; ++i) { const std::string& c = r.chance(1, 2) ? a : b; s += c[r.below(c.size())]; }
  return s;
}
static std::vector<std::string> toks(const std::string& s, const std::string& delims)
{
  std::vector<std::string> v;
  std::string cur;
  for(size_t i = 0; i <= s.size(); ++i)
    if(i == s.size() || delims.find(s[i]) != std::string::npos) { if(!cur.empty()) v.push_back(cur); cur.clear(); }
    else cur += s[i];
  return v;
}
static Str fmt(const char* f, ...) { va_list vl; va_start(vl, f); Str s = Str::StrTF(f, vl); va_end(vl); return s; }

static void helpers(Rng& r)
{
  std::string s = rnd(r, r.chance(1, 6) ? 200 : 24), t = rnd(r, 24);
  mon::op("\"%s\" \"%s\"", esc(s).c_str(), esc(t).c_str());
  const Str a(s.c_str());
  CHECK((const std::string&)a == s, "str:build", "\"%s\"", esc(a).c_str());
  CHECK(Str((const char*)0).empty(), "str:build", "a null pointer is not the empty string");
  Str counted(s.c_str(), r.below(s.size() + 1));
  CHECK((std::string&)counted == s.substr(0, counted.size()), "str:build", "counted");
  { // trim
    size_t b = 0, e = s.size();
    while(b < e && (unsigned char)s[b] < 33) ++b;
    while(e > b && (unsigned char)s[e - 1] < 33) --e;
    Str x = a.Trim();
    CHECK((std::string&)x == s.substr(b, e - b), "str:trim", "Trim(\"%s\") is \"%s\"", esc(s).c_str(), esc(x).c_str());
    CHECK((const std::string&)a == s, "str:trim-source", "Trim changed its source");
    if(b || e != s.size()) mon::ev("trims that removed something");
  }
  { // tokens
    char d = ",; \tab\xC3"[r.below(7)];
    std::vector<std::string> w = toks(s, std::string(1, d));
    std::vector<Str> g = Str::Explode(d, a.c_str());
    CHECK(g.size() == w.size(), "str:explode", "%zu pieces of \"%s\" at '%c', expected %zu", g.size(), esc(s).c_str(), d, w.size());
    for(size_t i = 0; i < w.size(); ++i) CHECK((std::string&)g[i] == w[i], "str:explode", "piece %zu is \"%s\", expected \"%s\"", i, esc(g[i]).c_str(), esc(w[i]).c_str());
    mon::ev("pieces split", w.size());
    std::string ds = std::string(1, d) + " b";
    w = toks(s, ds);
    std::vector<std::string> p;
    size_t k = Str::ParseTokens<std::string>(a.c_str(), ds.c_str(), p, [](const char* c) { return std::string(c); });
    CHECK(p == w && k == w.size(), "str:parsetokens", "%zu tokens of \"%s\", expected %zu", p.size(), esc(s).c_str(), w.size());
    // chunk by index keeps empty pieces
    std::vector<std::string> all(1);
    for(char c : s) { if(c == d) all.emplace_back(); else all.back() += c; }
    uint16_t ix = (uint16_t)r.below(all.size() + 2);
    Str c(ix, a.c_str(), d);
    CHECK((std::string&)c == (ix < all.size() ? all[ix] : std::string()), "str:chunk", "piece %u of \"%s\" is \"%s\"", ix, esc(s).c_str(), esc(c).c_str());
    // list of terminated strings
    std::string nul;
    for(auto& x : w) { nul += x; nul += '\0'; }
    nul += '\0';
    Buf<char> nb(nul.data(), nul.size());
    std::vector<Str> en = Str::Explode('\0', nb.p);
    if(0) en.clear();
    std::vector<Str> e2;
    Str::ExplodeNull(e2, nb.p);
    CHECK(e2.size() == w.size() && en.size() == w.size(), "str:explodenull", "%zu strings, expected %zu", e2.size(), w.size());
    for(size_t i = 0; i < w.size(); ++i) CHECK((std::string&)e2[i] == w[i], "str:explodenull", "string %zu", i);
  }
  { // strip and replace
    char c = s.empty() ? 'a' : s[r.below(s.size())];
    if(r.chance(1, 4)) c = (char)r.range(1, 255);
    std::string w;
    for(char x : s) if(x != c) w += x;
    Buf<char> src(s.c_str(), s.size() + 1);
    Str g = Str::StripChar(src.p, c);
    CHECK((std::string&)g == w, "str:strip", "StripChar(\"%s\") is \"%s\"", esc(s).c_str(), esc(g).c_str());
    char rep = (char)r.range(1, 255);
    Str m(a);
    m.ReplaceChar(c, rep);
    w = s;
    for(char& x : w) if(x == c) x = rep;
    CHECK((std::string&)m == w, "str:replace", "ReplaceChar(\"%s\") is \"%s\"", esc(s).c_str(), esc(m).c_str());
  }
  { // concatenation in every combination of values, temporaries, pointers and characters
    Str b(t.c_str());
    const char* p = t.c_str();
    char ch = (char)r.range(1, 255);
    std::string st = s + t;
    CHECK((a + b) == st.c_str(), "str:plus", "s + s");
    CHECK((a + Str(b)) == st.c_str(), "str:plus", "s + s&&");
    CHECK((Str(a) + b) == st.c_str(), "str:plus", "s&& + s");
    CHECK((Str(a) + Str(b)) == st.c_str(), "str:plus", "s&& + s&&");
    CHECK((a + p) == st.c_str(), "str:plus", "s + p");
    CHECK((Str(a) + p) == st.c_str(), "str:plus", "s&& + p");
    CHECK((s.c_str() + b) == st.c_str(), "str:plus", "p + s");
    CHECK((s.c_str() + Str(b)) == st.c_str(), "str:plus", "p + s&&");
    CHECK((a + ch) == (s + ch).c_str(), "str:plus", "s + c");
    CHECK((Str(a) + ch) == (s + ch).c_str(), "str:plus", "s&& + c");
    CHECK((ch + b) == (ch + t).c_str(), "str:plus", "c + s");
    CHECK((ch + Str(b)) == (ch + t).c_str(), "str:plus", "c + s&&");
    Str x(a);
    x += b; x += p; x += ch;
    CHECK((std::string&)x == s + t + t + ch, "str:append", "\"%s\"", esc(x).c_str());
    x += (const char*)0;
    CHECK((std::string&)x == s + t + t + ch, "str:append", "appending a null pointer changed the string");
    x = b;
    CHECK((std::string&)x == t, "str:assign", "copy");
    x = p;
    CHECK((std::string&)x == t, "str:assign", "pointer");
    x = Str(a);
    CHECK((std::string&)x == s, "str:assign", "move");
    CHECK((const std::string&)a == s && (std::string&)b == t, "str:operands", "an operand changed");
  }
  { // a string is its characters and its length: null characters inside of it and spare room behind it change nothing
    auto withnul = [&](std::string x) { for(int k = (int)r.below(3); k > 0 && !x.empty(); --k) x[r.below(x.size())] = 0; return x; };
    std::string sn = withnul(s), tn = withnul(t), st = sn + tn;
    auto mk = [&](const std::string& x) { Str y; if(r.chance(1, 2)) y.reserve(x.size() + r.below(300)); y.assign(x.data(), x.size()); return y; };
    auto is = [&](const Str& x, const std::string& w, const char* what) { CHECK((const std::string&)x == w, "str:nul", "%s: \"%s\", expected \"%s\"", what, esc(x).c_str(), esc(w).c_str()); };
    char ch = (char)r.range(0, 255);
    const Str x = mk(sn), y = mk(tn);
    is(x, sn, "build");
    is(x + y, st, "s + s");
    is(x + mk(tn), st, "s + s&&");
    is(mk(sn) + y, st, "s&& + s");
    is(mk(sn) + mk(tn), st, "s&& + s&&");
    is(x + ch, sn + ch, "s + c");
    is(mk(sn) + ch, sn + ch, "s&& + c");
    is(ch + y, ch + tn, "c + s");
    is(ch + mk(tn), ch + tn, "c + s&&");
    is(t.c_str() + x, t + sn, "p + s");
    is(t.c_str() + mk(sn), t + sn, "p + s&&");
    is(x + t.c_str(), sn + t, "s + p");
    is(mk(sn) + t.c_str(), sn + t, "s&& + p");
    Str z(x);
    is(z, sn, "copy");
    z += y; z += ch;
    is(z, st + ch, "append");
    Str m(std::move(z));
    is(m, st + ch, "move");
    z = m; is(z, st + ch, "assign");
    z = mk(tn); is(z, tn, "move assign");
    char rep = (char)r.range(1, 255), c = sn.empty() ? 'a' : sn[r.below(sn.size())];
    z = x; z.ReplaceChar(c, rep);
    std::string w = sn;
    for(char& q : w) if(q == c) q = rep;
    is(z, w, "replace");
    if(st.find('\0') != std::string::npos) mon::ev("texts with null characters");
  }
  { // printf-style formatting and conversion to text
    long long i = (long long)(r.next() >> r.below(64));
    if(r.chance(1, 2)) i = -i;
    double d = (double)(int64_t)r.next() / (double)(1 + r.below(1000000));
    char want[1024];
    int n = snprintf(want, sizeof want, "<%s|%lld|%.4f|%%|%c%5d>", s.c_str(), i, d, 'q', (int)i);
    Str g = fmt("<%s|%lld|%.4f|%%|%c%5d>", s.c_str(), i, d, 'q', (int)i);
    CHECK((std::string&)g == std::string(want, n), "str:format", "\"%s\", expected \"%s\"", esc(g).c_str(), esc(want).c_str());
    Str h = StrF("<%s|%lld|%.4f|%%|%c%5d>", s.c_str(), i, d, 'q', (int)i);
    CHECK((std::string&)h == std::string(want, n), "str:format", "\"%s\", expected \"%s\"", esc(h).c_str(), esc(want).c_str());
    CHECK(ToString(i) == std::to_string(i).c_str(), "str:tostring", "%lld", i);
    CHECK(fmt(0).empty(), "str:format", "null format");
  }
  { // size follows the terminator after direct writes
    Str m(a);
    m.resize(s.size() + 10);
    size_t at = r.below(s.size() + 10);
    m.GetChar(at) = 0;
    m.RecalcSize();
    CHECK(m.size() == strlen(m.c_str()) && m.size() <= at, "str:recalc", "size %zu", m.size());
    CHECK((std::string&)m == s.substr(0, m.size()), "str:recalc", "contents");
  }
}

void mon_case(Rng& r, uint64_t)
{
  mon::nontrivial();
  if(r.chance(1, 2)) utf(r);
  else helpers(r);
}
