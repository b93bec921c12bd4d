// Monitor for the byte and character helpers: base64, number and Unicode output, hashing, searching, trimming, counting, command lines, formatting, files.
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/algo.h"
#include <vector>
#include <string>
#include <sstream>
#include <limits.h>
using namespace bss;
using mon::Rng;

// A heap block of exactly n bytes, so that ASan sees the first byte beyond it
struct Buf
{
  char* p; size_t n;
  explicit Buf(size_t n_, int fill = 0x5A) : p((char*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, fill, n_ ? n_ : 1); }
  Buf(const std::string& s, bool z) : Buf(s.size() + z) { memcpy(p, s.data(), s.size()); if(z) p[s.size()] = 0; }
  ~Buf() { free(p); }
  Buf(const Buf&) = delete;
};
static std::string hex(const void* p, size_t n)
{
  std::string s;
  char b[4];
  for(size_t i = 0; i < n && i < 60; ++i) { snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]); s += b; }
  return s;
}
static void base64(Rng& r)
{
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  size_t n = r.below(r.chance(1, 4) ? 200 : 12);
  Buf src(n);
  for(size_t i = 0; i < n; ++i) src.p[i] = (char)(r.chance(1, 4) ? (r.chance(1, 2) ? 0xFF : 0) : r.next());
  mon::op("base64 %zu %s", n, hex(src.p, n).c_str());
  std::string ref; // straightforward bit by bit encoding
  unsigned acc = 0, k = 0;
  for(size_t i = 0; i < n; ++i)
    for(int b = 7; b >= 0; --b)
    {
      acc = (acc << 1) | (((unsigned char)src.p[i] >> b) & 1);
      if(++k == 6) { ref += A[acc]; acc = k = 0; }
    }
  if(k) ref += A[acc << (6 - k)];
  size_t len = Base64Encode((const uint8_t*)src.p, n, 0);
  CHECK(len == ref.size(), "bytes:base64-length", "encoding %zu bytes announces %zu characters, expected %zu", n, len, ref.size());
  Buf out(len);
  size_t w = Base64Encode((const uint8_t*)src.p, n, out.p);
  CHECK(w == len && std::string(out.p, w) == ref, "bytes:base64-encode", "%zu bytes encode to '%.*s', expected '%s'", n, (int)w, out.p, ref.c_str());
  size_t dl = Base64Decode(out.p, w, 0);
  CHECK(dl == n, "bytes:base64-length", "decoding %zu characters announces %zu bytes, expected %zu", w, dl, n);
  Buf back(dl);
  size_t d = Base64Decode(out.p, w, (uint8_t*)back.p);
  CHECK(d == n && !memcmp(back.p, src.p, n), "bytes:base64-decode", "decoding does not give back the %zu bytes that were encoded", n);
  // anything at all as input: stays inside both buffers and writes what it announced
  size_t jn = r.below(20);
  Buf junk(jn);
  for(size_t i = 0; i < jn; ++i) junk.p[i] = (char)(r.chance(1, 2) ? r.next() : A[r.below(64)]);
  mon::op("decode junk %s", hex(junk.p, jn).c_str());
  size_t jl = Base64Decode(junk.p, jn, 0);
  Buf jo(jl);
  CHECK(jn % 4 != 1 || jl == 0, "bytes:base64-illegal", "%zu characters are not a legal length but %zu bytes are announced", jn, jl);
  CHECK(Base64Decode(junk.p, jn, (uint8_t*)jo.p) == jl, "bytes:base64-length", "decoding wrote a different number of bytes than announced");
}
static void itoa(Rng& r)
{
  int v = (int)(r.chance(1, 4) ? (r.chance(1, 2) ? INT_MIN + (int)r.below(3) : INT_MAX - (int)r.below(3)) : (int)((int32_t)r.next() >> r.below(31)));
  unsigned radix = (unsigned)(r.chance(1, 3) ? 10 : r.range(2, 36));
  std::string ref;
  uint64_t u = v < 0 ? (uint64_t) - (int64_t)v : (uint64_t)v;
  do { ref.insert(ref.begin(), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[u % radix]); u /= radix; } while(u);
  if(v < 0) ref.insert(ref.begin(), '-');
  size_t size = r.chance(1, 2) ? ref.size() + 1 : r.below(40);
  mon::op("itoa %d radix %u size %zu", v, radix, size);
  Buf b(size);
  int e = itoa_r(v, b.p, (int)size, radix);
  if(size > ref.size())
    CHECK(e == 0 && ref == b.p, "bytes:itoa", "%d in base %u came out as '%.40s' (%d), expected '%s'", v, radix, b.p, e, ref.c_str());
  else if(size > 1)
    CHECK(memchr(b.p, 0, size) != 0, "bytes:itoa-terminator", "a truncated number has no terminator");
  else
    CHECK(e != 0, "bytes:itoa-room", "a buffer of %zu characters was accepted", size);
  char arr[64];
  CHECK(_itoa_r(v, arr, radix) == 0 && ref == arr, "bytes:itoa", "%d in base %u came out as '%s'", v, radix, arr);
}
static void unicode(Rng& r)
{
  static const int edge[] = { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF, 0x110000, 0x1FFFFF, INT_MAX };
  int c = r.chance(1, 2) ? edge[r.below(12)] : (int)r.below(r.chance(1, 2) ? 0x120000 : 0x1000);
  mon::op("unicode %x", c);
  std::string s = "x", e = "x";
  OutputUnicode(s, c);
  if(c < 0x80) e += (char)c;
  else if(c < 0x800) { e += (char)(0xC0 | (c >> 6)); e += (char)(0x80 | (c & 63)); }
  else if(c < 0x10000) { e += (char)(0xE0 | (c >> 12)); e += (char)(0x80 | ((c >> 6) & 63)); e += (char)(0x80 | (c & 63)); }
  else if(c <= 0x10FFFF) { e += (char)(0xF0 | (c >> 18)); e += (char)(0x80 | ((c >> 12) & 63)); e += (char)(0x80 | ((c >> 6) & 63)); e += (char)(0x80 | (c & 63)); }
  CHECK(s == e, "bytes:unicode", "U+%04X was appended as %s, expected %s", c, hex(s.data() + 1, s.size() - 1).c_str(), hex(e.data() + 1, e.size() - 1).c_str());
}
static std::string text(Rng& r, size_t max, bool wide = true)
{
  std::string s;
  size_t n = r.below(max + 1);
  for(size_t i = 0; i < n; ++i)
  {
    char c;
    switch(r.below(5))
    {
    case 0: c = " \t\n\r\v"[r.below(5)]; break;
    case 1: c = (char)(wide ? r.range(0x80, 0xFF) : 'q'); break;
    case 2: c = (char)r.range(33, 126); break;
    case 3: c = (char)r.range(1, 40); break;
    default: c = (char)('a' + r.below(3)); break;
    }
    s += c;
  }
  return s;
}
static void strings(Rng& r)
{
  std::string s = text(r, 14);
  if(r.chance(1, 4)) s = std::string(r.below(4), ' ') + s + std::string(r.below(4), ' ');
  mon::op("string %s", hex(s.data(), s.size()).c_str());
  // hashes
  uint32_t h = 0x811c9dc5u;
  uint64_t H = 0xcbf29ce484222325ull;
  for(unsigned char c : s) { h = (h ^ c) * 0x1000193u; H = (H ^ c) * 0x100000001b3ull; }
  CHECK(hash_fnv1a(s.c_str()) == h, "bytes:fnv32", "32-bit FNV-1a of %s is %x, expected %x", hex(s.data(), s.size()).c_str(), hash_fnv1a(s.c_str()), h);
  CHECK(hash64_fnv1a(s.c_str()) == H, "bytes:fnv64", "64-bit FNV-1a of %s is %llx, expected %llx", hex(s.data(), s.size()).c_str(), (unsigned long long)hash64_fnv1a(s.c_str()), (unsigned long long)H);
  // trimming
  auto blank = [](char c) { return c > 0 && c < 33; };
  size_t a = 0, b = s.size();
  while(a < s.size() && blank(s[a])) ++a;
  while(b > 0 && blank(s[b - 1])) --b;
  {
    Buf t(s, true);
    const char* p = strltrim<const char>(t.p);
    CHECK(p == t.p + a, "bytes:ltrim", "trimming the left end skipped %td characters, expected %zu", p - t.p, a);
    CHECK(strrtrim<char>(t.p) == t.p && s.substr(0, b) == t.p, "bytes:rtrim", "trimming the right end of %s left %s", hex(s.data(), s.size()).c_str(), hex(t.p, strlen(t.p)).c_str());
  }
  {
    Buf t(s, true);
    std::string e = a < b ? s.substr(a, b - a) : "";
    CHECK(e == strtrim<char>(t.p), "bytes:trim", "trimming both ends of %s left %s", hex(s.data(), s.size()).c_str(), hex(t.p, strlen(t.p)).c_str());
  }
  // counting and replacing
  char c = s.empty() || r.chance(1, 4) ? 'a' : s[r.below(s.size())], d = (char)r.range(1, 126);
  size_t n = 0;
  for(char x : s) n += x == c;
  {
    Buf t(s, true);
    CHECK(strccount<char>(t.p, c) == n, "bytes:count", "character %d occurs %zu times, expected %zu", c, strccount<char>(t.p, c), n);
    size_t lim = r.below(s.size() + 1), m = 0;
    for(size_t i = 0; i < lim; ++i) m += s[i] == c;
    CHECK(strccount<char>(t.p, c, lim) == m, "bytes:count-limited", "character %d occurs %zu times in the first %zu of %zu, expected %zu", c, strccount<char>(t.p, c, lim), lim, s.size(), m);
    std::string e = s;
    for(char& x : e) if(x == c) x = d;
    CHECK(strreplace<char>(t.p, c, d) == t.p && e == t.p, "bytes:replace", "replacing %d by %d in %s gave %s", c, d, hex(s.data(), s.size()).c_str(), hex(t.p, strlen(t.p)).c_str());
    size_t cut = r.below(s.size() + 1); // counted text without a terminator, zeros among it
    std::string z = s.substr(0, cut);
    for(size_t k = r.below(3); k > 0 && cut; --k) z[r.below(cut)] = 0;
    if(r.chance(1, 2)) c = 0;
    Buf u(z, false);
    size_t m2 = 0;
    for(size_t i = 0; i < cut; ++i) m2 += z[i] == c;
    CHECK(strccount<char>(u.p, c, cut) == m2, "bytes:count-limited", "character %d occurs %zu times in %zu unterminated characters, expected %zu", c, strccount<char>(u.p, c, cut), cut, m2);
  }
  // searching bytes
  size_t hl = r.below(20), nl = r.below(5);
  Buf hay(hl), needle(nl);
  for(size_t i = 0; i < hl; ++i) hay.p[i] = (char)r.below(3);
  for(size_t i = 0; i < nl; ++i) needle.p[i] = (char)r.below(3);
  size_t at = nl && hl ? std::string(hay.p, hl).find(std::string(needle.p, nl)) : std::string::npos;
  const void* f = ByteSearch((const void*)hay.p, hl, (const void*)needle.p, nl);
  CHECK(f == (at == std::string::npos ? 0 : hay.p + at), "bytes:search", "%s was found at the wrong place in %s", hex(needle.p, nl).c_str(), hex(hay.p, hl).c_str());
  // byte order of any length
  size_t k = r.below(r.chance(1, 6) ? 256 : 12);
  Buf fl(k);
  for(size_t i = 0; i < k; ++i) fl.p[i] = (char)i;
  FlipEndian((uint8_t*)fl.p, (uint8_t)k);
  for(size_t i = 0; i < k; ++i) CHECK((unsigned char)fl.p[i] == k - 1 - i, "bytes:endian", "flipping %zu bytes put the wrong byte at %zu", k, i);
}
static void cmdline(Rng& r)
{
  std::vector<std::string> args;
  std::string line;
  size_t n = r.below(6);
  line += std::string(r.below(3), ' ');
  for(size_t i = 0; i < n; ++i)
  {
    std::string a;
    size_t len = r.below(6);
    bool q = r.chance(1, 2);
    for(size_t j = 0; j < len; ++j)
    {
      char c = "ab-=\\/'.0"[r.below(9)];
      if(q && r.chance(1, 3)) c = " \t"[r.below(2)];
      a += c;
    }
    if(!q && a.empty()) a = "z";
    if(q && r.chance(1, 4)) a = a + "\"x"; // a quote in the middle that is not followed by a blank
    args.push_back(a);
    line += q ? "\"" + a + "\"" : a;
    if(i + 1 < n || r.chance(1, 2)) line += std::string(1 + r.below(2), " \t"[r.below(2)]);
  }
  mon::op("cmdline <%s>", line.c_str());
  Buf b(line, true);
  int cnt = ToArgV<char>((char**)0, b.p);
  CHECK(line == b.p, "bytes:argv-readonly", "counting the arguments changed the command line");
  CHECK(cnt == (int)n, "bytes:argv-count", "<%s> counts as %d arguments, expected %zu", line.c_str(), cnt, n);
  char** av = (char**)malloc(sizeof(char*) * (n ? n : 1));
  cnt = ToArgV<char>(av, b.p);
  CHECK(cnt == (int)n, "bytes:argv-count", "<%s> splits in %d arguments, expected %zu", line.c_str(), cnt, n);
  for(size_t i = 0; i < n; ++i) CHECK(args[i] == av[i], "bytes:argv", "argument %zu of <%s> is <%s>, expected <%s>", i, line.c_str(), av[i], args[i].c_str());
  // grouping by the divider
  std::vector<std::vector<std::string>> got, ref;
  ProcessCmdArgs((int)n, av, [&](const char* const* p, int num) { std::vector<std::string> g; for(int i = 0; i < num; ++i) g.push_back(p[i]); got.push_back(g); });
  for(size_t i = 0; i < n; ++i)
  {
    if(!i || args[i][0] == '-') ref.push_back({});
    ref.back().push_back(args[i]);
  }
  CHECK(got == ref, "bytes:cmdargs", "the arguments of <%s> were grouped in %zu groups, expected %zu (or differently)", line.c_str(), got.size(), ref.size());
  free(av);
}
static void format(Rng& r)
{
  std::string f, e;
  int x = (int)r.range(-50, 50);
  std::string y = text(r, 5, false);
  char z = (char)('A' + r.below(26));
  size_t n = r.below(8);
  std::ostringstream dummy;
  for(size_t i = 0; i < n; ++i)
    switch(r.below(6))
    {
    case 0: f += "{0}"; e += std::to_string(x); break;
    case 1: f += "{1}"; e += y; break;
    case 2: f += r.chance(1, 2) ? "{2}" : "{02}"; e += z; break;
    case 3: { int k = (int)r.range(3, 99); f += "{" + std::to_string(k) + "}"; e += "{INVALID PARAMETER " + std::to_string(k) + "}"; break; }
    case 4: { std::string t = r.chance(1, 2) ? "{" : "{x}{123}}{"; f += t + "."; e += t + "."; break; }
    default: { std::string t = text(r, 4, false); for(char& c : t) if(c == '{' || c == '}') c = '.'; f += t; e += t; break; }
    }
  mon::op("format <%s>", f.c_str());
  std::ostringstream o;
  SafeFormat(o, f.c_str(), x, y.c_str(), z);
  CHECK(o.str() == e, "bytes:format", "formatting <%s> gave <%s>, expected <%s>", f.c_str(), o.str().c_str(), e.c_str());
}
static void files(Rng& r)
{
  char path[64];
  snprintf(path, sizeof path, "p18_scratch_%d.bin", (int)getpid());
  size_t n = r.below(r.chance(1, 4) ? 5000 : 40);
  std::string data;
  for(size_t i = 0; i < n; ++i) data += (char)r.next();
  mon::op("file %zu %s", n, hex(data.data(), n).c_str());
  FILE* f = fopen(path, "wb");
  if(!f) return;
  fwrite(data.data(), 1, n, f);
  fclose(f);
  {
    auto p = bssLoadFile<char>(path);
    CHECK(p.second == n && (!n || !memcmp(p.first.get(), data.data(), n)), "bytes:load", "a file of %zu bytes loads as %zu (or with other contents)", n, p.second);
    auto q = bssLoadFile<uint8_t, true>(path);
    CHECK(q.second == n + 1 && !memcmp(q.first.get(), data.data(), n) && q.first[n] == 0, "bytes:load", "a file of %zu bytes loads as %zu with terminator (or with other contents)", n, q.second);
  }
#ifdef HAVE_LIB
  CHECK(bssFileSize(path) == n, "bytes:filesize", "a file of %zu bytes is reported as %llu", n, bssFileSize(path));
#endif
  unlink(path);
  auto p = bssLoadFile<char>(path);
  CHECK(!p.first && p.second == 0, "bytes:load-missing", "a missing file loads as %zu bytes", p.second);
}
void mon_case(Rng& r, uint64_t c)
{
  for(int k = 0; k < 3; ++k)
    switch(r.below(16))
    {
    case 0: case 1: case 2: base64(r); break;
    case 3: case 4: itoa(r); break;
    case 5: unicode(r); break;
    case 6: case 7: case 8: case 9: strings(r); break;
    case 10: case 11: case 12: cmdline(r); break;
    case 13: case 14: format(r); break;
    case 15: files(r); break;
    }
  mon::nontrivial();
}
