// Monitor for streams over arrays, filtering and splitting stream buffers, string tables and logs.
#include "mon.h"
#include <time.h>
#include <sys/syscall.h>
#include "bss-util/bss_util.h"
#include "bss-util/stream.h"
#include "bss-util/StringTable.h"
#include "bss-util/Logger.h"
#include <string>
#include <vector>
#include <sstream>
#include <iomanip>
#include <fstream>
#include <memory>
#include <time.h>
#include <sys/stat.h>
using namespace bss;
using mon::Rng;
typedef std::string S;

static S bytes(Rng& r, size_t n) { S s(n, 0); for(auto& c : s) c = r.chance(1, 8) ? (char)0xff : r.chance(1, 8) ? 0 : (char)r.next(); return s; }
static S show(const S& s) { S o; char b[4]; for(size_t i = 0; i < s.size() && i < 40; ++i) { snprintf(b, 4, "%02x", (unsigned char)s[i]); o += b; } return s.size() > 40 ? o + "..." : o; }
static void same(const S& got, const S& want, const char* key, const char* what)
{
  if(got == want) { ++mon::g.checks; return; }
  size_t i = 0;
  while(i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  mon::fail(key, "%s: %zu bytes instead of %zu, first difference at %zu: %s instead of %s", what, got.size(), want.size(), i, show(got.substr(i)).c_str(), show(want.substr(i)).c_str());
}

// the reading side of any of the array buffers, against the bytes it should show
static void reads(Rng& r, std::istream& in, const S& data, size_t& pos, const char* who)
{
  in.clear();
  switch(r.below(8))
  {
  case 0:
  {
    int c = in.get();
    int want = pos < data.size() ? (unsigned char)data[pos] : EOF;
    mon::op("%s get", who);
    CHECK(c == want, "stream:get", "%s get at %zu of %zu returned %d, expected %d", who, pos, data.size(), c, want);
    if(pos < data.size()) ++pos;
    break;
  }
  case 1:
  {
    int c = in.peek();
    int want = pos < data.size() ? (unsigned char)data[pos] : EOF;
    CHECK(c == want, "stream:peek", "%s peek at %zu of %zu returned %d, expected %d", who, pos, data.size(), c, want);
    break;
  }
  case 2: case 3:
  {
    size_t n = r.below(r.chance(1, 3) ? 200 : 9);
    mon::op("%s read %zu", who, n);
    std::unique_ptr<char[]> b(new char[n]); // exactly sized, so that writing more is seen
    in.read(b.get(), n);
    size_t want = std::min(n, data.size() - pos);
    CHECK((size_t)in.gcount() == want, "stream:read-count", "%s read of %zu at %zu of %zu delivered %zd", who, n, pos, data.size(), (ssize_t)in.gcount());
    same(S(b.get(), want), data.substr(pos, want), "stream:read-bytes", who);
    CHECK(in.eof() == (want < n), "stream:read-eof", "%s read of %zu at %zu of %zu %s the end", who, n, pos, data.size(), in.eof() ? "reported" : "did not report");
    pos += want;
    break;
  }
  case 4:
  {
    mon::op("%s unget", who);
    bool ok = (bool)in.unget();
    CHECK(ok == (pos > 0), "stream:unget", "%s unget at %zu %s", who, pos, ok ? "succeeded" : "failed");
    if(pos) --pos;
    break;
  }
  case 5:
  {
    char c = pos && r.chance(2, 3) ? data[pos - 1] : (char)r.next();
    bool want = pos && data[pos - 1] == c;
    mon::op("%s putback %d", who, c);
    bool ok = (bool)in.putback(c);
    CHECK(ok == want, "stream:putback", "%s putback at %zu %s", who, pos, ok ? "succeeded" : "failed");
    if(want) --pos;
    break;
  }
  default:
  {
    long sz = (long)data.size(), off;
    int way = (int)r.below(3);
    bool absolute = !way && r.chance(1, 2);
    off = r.chance(1, 5) ? r.range(-300, 300) : r.chance(1, 10) ? (r.chance(1, 2) ? INT64_MAX / 2 : INT64_MIN / 2) : r.range(0, sz) - (way == 1 ? (long)pos : way == 2 ? sz : 0);
    __int128 to = (__int128)off + (way == 1 ? (long)pos : way == 2 ? sz : 0);
    mon::op("%s seek %d %ld", who, way, off);
    bool ok = absolute ? (bool)in.seekg(std::streampos(off)) : (bool)in.seekg(off, way == 0 ? std::ios::beg : way == 1 ? std::ios::cur : std::ios::end);
    bool want = to >= 0 && to <= sz;
    CHECK(ok == want, "stream:seek", "%s seek to %ld of %ld %s", who, (long)to, sz, ok ? "succeeded" : "failed");
    if(want) pos = (size_t)to;
    in.clear();
    break;
  }
  }
  in.clear();
  CHECK((size_t)in.tellg() == pos, "stream:tell", "%s tellg is %zd, expected %zu", who, (ssize_t)in.tellg(), pos);
}

template<class T> static void rdarray(Rng& r)
{
  size_t n = r.below(r.chance(1, 4) ? 100 : 12);
  S data = bytes(r, n * sizeof(T));
  std::unique_ptr<T[]> src(new T[n]);
  memcpy((void*)src.get(), data.data(), data.size());
  StreamBufArray<T> first(src.get(), n);
  std::unique_ptr<StreamBufArray<T>> moved;
  StreamBufArray<T>* buf = &first;
  std::istream* in = new std::istream(buf);
  size_t pos = 0;
  mon::op("array stream of %zu x %zu", n, sizeof(T));
  for(int i = (int)r.below(60); i > 0; --i)
  {
    reads(r, *in, data, pos, "array");
    if(r.chance(1, 20))
    {
      mon::op("array avail");
      CHECK(buf->in_avail() == (std::streamsize)(data.size() - pos) || (pos == data.size() && buf->in_avail() <= 0), "stream:avail", "%zd available of %zu", (ssize_t)buf->in_avail(), data.size() - pos);
    }
    if(r.chance(1, 20) && !moved)
    {
      mon::op("array move");
      if(r.chance(1, 2)) moved.reset(new StreamBufArray<T>(std::move(*buf)));
      else { T x[1] = { 0 }; moved.reset(new StreamBufArray<T>(x, 1)); *moved = std::move(*buf); }
      buf = moved.get();
      delete in;
      in = new std::istream(buf);
    }
  }
  delete in;
  CHECK(!memcmp((const void*)src.get(), data.data(), data.size()), "stream:readonly", "reading an array through a stream changed it");
}

template<class T> static void dynarray(Rng& r)
{
  size_t n = r.below(r.chance(1, 4) ? 60 : 8), begin = r.chance(1, 3) ? r.below(n + 1) : 0;
  S all = bytes(r, n * sizeof(T));
  DynArray<T> a;
  if(r.chance(1, 2)) a.SetCapacity(n + r.below(20));
  for(size_t i = 0; i < n; ++i) { T x; memcpy((void*)&x, all.data() + i * sizeof(T), sizeof(T)); a.Add(x); }
  StreamBufDynArray<T> buf(a, begin);
  std::iostream io(&buf);
  size_t pos = 0;
  mon::op("dynarray stream of %zu x %zu from %zu", n, sizeof(T), begin);
  for(int i = (int)r.below(80); i > 0; --i)
  {
    if(r.chance(1, 3))
    {
      io.clear();
      if(r.chance(1, 2))
      {
        char c = (char)r.next();
        mon::op("dynarray put %d", c);
        if(r.chance(1, 2)) io.put(c);
        else { int w = io.rdbuf()->sputc(c); CHECK(w == (unsigned char)c, "stream:put", "putting byte %d returns %d", (unsigned char)c, w); }
        all += c;
      }
      else
      {
        S s = bytes(r, r.below(r.chance(1, 5) ? 300 : 10));
        mon::op("dynarray write %zu", s.size());
        io.write(s.data(), s.size());
        all += s;
      }
      CHECK(io.good(), "stream:write", "writing to a dynamic array failed");
      mon::ev("writes to a dynamic array");
    }
    else // only complete elements can be read
      reads(r, io, all.substr(begin * sizeof(T), (all.size() / sizeof(T) - begin) * sizeof(T)), pos, "dynarray");
    CHECK(a.Length() == all.size() / sizeof(T), "stream:length", "%zu bytes make %zu elements of %zu", all.size(), (size_t)a.Length(), sizeof(T));
    CHECK(a.Length() <= a.Capacity(), "stream:capacity", "%zu elements in room for %zu", (size_t)a.Length(), (size_t)a.Capacity());
    same(S((const char*)a.begin(), a.Length() * sizeof(T)), all.substr(0, a.Length() * sizeof(T)), "stream:content", "the array behind the stream");
  }
  mon::nontrivial();
}

// ---- a filter written by a user: xor with a running key, through buffers of a few bytes
struct Xor : StreamBufFunction
{
  unsigned char k;
  Xor(std::istream& i, size_t n, unsigned char key) : StreamBufFunction(i, n), k(key) {}
  Xor(std::ostream& o, size_t n, unsigned char key) : StreamBufFunction(o, n), k(key) { setp(_obuf.get(), _obuf.get() + _sz); }
  ~Xor() { if(_out) drain(); }
  void drain() { size_t n = pptr() - pbase(); for(size_t i = 0; i < n; ++i) _ibuf[i] = pbase()[i] ^ k++; _out->write(_ibuf.get(), n); }
  void _onwrite() override { drain(); setp(_obuf.get(), _obuf.get() + _sz); }
  void _onread() override
  {
    _in->read(_ibuf.get(), _sz);
    size_t n = (size_t)_in->gcount();
    for(size_t i = 0; i < n; ++i) _obuf[i] = _ibuf[i] ^ k++;
    setg(_obuf.get(), _obuf.get(), _obuf.get() + n);
  }
};
static void filter(Rng& r)
{
  S data = bytes(r, r.below(r.chance(1, 3) ? 600 : 40)), enc, back;
  unsigned char k = (unsigned char)r.next(), kk = k;
  S want = data;
  for(auto& c : want) c ^= kk++;
  std::ostringstream out;
  size_t bs = 1 + r.below(r.chance(1, 2) ? 6 : 80);
  mon::op("filter %zu bytes through %zu", data.size(), bs);
  {
    Xor x(out, bs, k);
    std::ostream o(&x);
    for(size_t p = 0; p < data.size();)
      if(r.chance(1, 2)) o.put(data[p++]);
      else if(r.chance(1, 4)) { char c = data[p++]; int w = x.sputc(c); CHECK(w == (unsigned char)c, "stream:put", "putting byte %d returns %d", (unsigned char)c, w); }
      else { size_t n = std::min<size_t>(r.below(r.chance(1, 3) ? 200 : 12), data.size() - p); o.write(data.data() + p, n); p += n; }
    CHECK(o.good(), "stream:filter-write", "writing through a filter failed");
    if(r.chance(1, 3)) o.flush();
  }
  same(out.str(), want, "stream:filter-out", "what came out of a writing filter");
  std::istringstream in(want);
  Xor y(in, 1 + r.below(r.chance(1, 2) ? 6 : 80), k);
  std::istream i(&y);
  while(true)
  {
    if(r.chance(1, 2)) { int c = i.get(); if(c == EOF) break; back += (char)c; }
    else
    {
      size_t n = 1 + r.below(r.chance(1, 3) ? 200 : 12);
      std::unique_ptr<char[]> b(new char[n]);
      i.read(b.get(), n);
      back.append(b.get(), (size_t)i.gcount());
      CHECK((size_t)i.gcount() == n || back.size() == data.size(), "stream:filter-short", "a filter delivered %zd of %zu bytes with more to come", (ssize_t)i.gcount(), n);
      if((size_t)i.gcount() < n) break;
    }
  }
  same(back, data, "stream:filter-in", "what a reading filter delivered");
  mon::ev("filters");
}

// ---- splitter
static S utf8(const std::wstring& w)
{
  S o;
  for(wchar_t c : w)
  {
    uint32_t u = (uint32_t)c;
    if(u < 0x80) o += (char)u;
    else if(u < 0x800) { o += (char)(0xC0 | u >> 6); o += (char)(0x80 | (u & 63)); }
    else if(u < 0x10000) { o += (char)(0xE0 | u >> 12); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); }
    else { o += (char)(0xF0 | u >> 18); o += (char)(0x80 | (u >> 12 & 63)); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); }
  }
  return o;
}
static std::wstring wide(Rng& r)
{
  std::wstring w;
  for(int n = (int)r.below(6); n > 0; --n) w += (wchar_t)(r.chance(1, 2) ? r.range('a', 'z') : r.chance(1, 2) ? r.range(0xa0, 0xd7ff) : r.range(0xe000, 0x10ffff));
  return w;
}
static void split(Rng& r)
{
  const int N = 4;
  std::ostringstream t[N];
  S want[N], pending;
  std::vector<int> on;
  StreamSplitter sp;
  std::ostream o(&sp);
  auto flushed = [&] { for(int i : on) want[i] += pending; pending.clear(); };
  for(int i = (int)r.below(50); i > 0; --i)
  {
    switch(r.below(7))
    {
    case 0: { int k = (int)r.below(N); mon::op("target %d", k); sp.AddTarget(&t[k]); flushed(); on.push_back(k); break; }
    case 1: if(r.chance(1, 3)) { mon::op("clear targets"); sp.ClearTargets(); flushed(); on.clear(); } break;
    case 2: { mon::op("flush"); o.flush(); flushed(); break; }
    case 3: { S s = bytes(r, r.below(r.chance(1, 8) ? 2000 : 20)); mon::op("write %zu", s.size()); o.write(s.data(), s.size()); pending += s; break; }
    case 4: { char c = (char)r.next(); mon::op("put %d", c); o.put(c); pending += c; break; }
    case 5: { long v = (long)r.next(); mon::op("number"); o << v; pending += std::to_string(v); break; }
    case 6: { std::wstring w = wide(r); mon::op("wide %zu", w.size()); o << w.c_str(); pending += utf8(w); break; }
    }
    CHECK(o.good(), "splitter:state", "the splitting stream failed");
    if(pending.empty()) for(int k = 0; k < N; ++k) same(t[k].str(), want[k], "splitter:bytes", "a target of a splitter");
  }
  o.flush();
  flushed();
  for(int k = 0; k < N; ++k) same(t[k].str(), want[k], "splitter:bytes", "a target of a splitter at the end");
  mon::nontrivial();
}

// ---- string tables
template<class T, class CT> static void table(Rng& r)
{
  typedef std::basic_string<T> W;
  typedef StringTable<T, CT> Tab;
  auto word = [&] { W w; for(int n = (int)r.below(r.chance(1, 8) ? 60 : 6); n > 0; --n) w += (T)(1 + r.below(sizeof(T) == 1 ? 127 : 60000)); return w; };
  auto fresh = [&](std::vector<W>& v) {
    std::vector<const T*> p;
    for(int n = (int)r.below(6); n > 0; --n) v.push_back(word());
    for(auto& w : v) p.push_back(w.c_str());
    return new Tab(p.data(), (CT)p.size());
  };
  const int N = 3;
  Tab* t[N];
  std::vector<W> m[N];
  for(int i = 0; i < N; ++i) t[i] = fresh(m[i]);
  for(int i = (int)r.below(30); i > 0; --i)
  {
    int a = (int)r.below(N), b = (int)r.below(N);
    switch(r.below(9))
    {
    case 0: case 1: { W w = word(); mon::op("%d append %zu", a, w.size()); if(r.chance(1, 2)) t[a]->AppendString(w.c_str()); else *t[a] += w.c_str(); m[a].push_back(w); break; }
    case 2: if(m[a].size() + m[b].size() < 40) { mon::op("%d += %d", a, b); *t[a] += *t[b]; std::vector<W> x = m[b]; m[a].insert(m[a].end(), x.begin(), x.end()); } break;
    case 3: mon::op("%d = %d", a, b); *t[a] = *t[b]; m[a] = m[b]; break;
    case 4: { mon::op("%d copied", a); Tab* n = new Tab(*t[a]); delete t[a]; t[a] = n; break; }
    case 5: { mon::op("%d moved", a); Tab* n = new Tab(std::move(*t[a])); delete t[a]; t[a] = n; break; }
    case 6: if(a != b) { mon::op("%d = moved %d", a, b); *t[a] = std::move(*t[b]); m[a] = m[b]; delete t[b]; m[b].clear(); t[b] = fresh(m[b]); } break;
    case 7: if(m[a].size() + m[b].size() < 40) { mon::op("%d + %d", a, b); Tab* n = new Tab(*t[a] + *t[b]); std::vector<W> x = m[b]; m[a].insert(m[a].end(), x.begin(), x.end()); delete t[a]; t[a] = n; } break;
    case 8:
    { // through a stream and back, possibly cut short
      std::stringstream ss;
      t[a]->DumpToStream(&ss);
      S all;
      for(auto& w : m[a]) all.append((const char*)w.c_str(), (w.size() + 1) * sizeof(T));
      same(ss.str(), all, "table:dump", "the dump of a string table");
      size_t ask = all.size() + r.below(3) * sizeof(T), keep = r.chance(1, 2) ? all.size() : r.below(all.size() + 1);
      if(r.chance(1, 4)) ask = keep ? r.below(keep + 1) : 0;
      mon::op("%d through a stream: %zu of %zu, reading %zu", a, keep, all.size(), ask);
      std::stringstream in(all.substr(0, keep));
      delete t[a];
      t[a] = new Tab(&in, (CT)ask);
      size_t n = std::min(ask / sizeof(T), keep / sizeof(T));
      W flat(n, 0);
      if(n) { memcpy((void*)&flat[0], all.data(), n * sizeof(T)); flat[n - 1] = 0; }
      m[a].clear();
      for(size_t p = 0; p < n;) { m[a].push_back(W(flat.c_str() + p)); p += m[a].back().size() + 1; }
      mon::ev("string tables read back");
      break;
    }
    }
    for(int k = 0; k < N; ++k)
    {
      CHECK(t[k]->Length() == m[k].size(), "table:length", "table %d has %zu strings, expected %zu", k, (size_t)t[k]->Length(), m[k].size());
      size_t total = 0;
      for(auto& w : m[k]) total += w.size() + 1;
      CHECK(t[k]->TotalWordCapacity() == total, "table:total", "table %d holds %zu characters, expected %zu", k, (size_t)t[k]->TotalWordCapacity(), total);
      for(size_t j = 0; j < m[k].size(); ++j)
        CHECK(W(t[k]->GetString((CT)j)) == m[k][j] && W((*t[k])[(CT)j]) == m[k][j], "table:string", "string %zu of table %d is not what was put there", j, k);
    }
  }
  for(auto x : t) delete x;
  mon::nontrivial();
}

// ---- logs
struct LModel
{
  std::vector<int> on;   // targets
  std::vector<int> got;  // assimilated streams
  std::vector<S> levels = { "FATAL: ", "ERROR: ", "WARNING: ", "NOTICE: ", "INFO: ", "DEBUG: " };
  S fmt = Logger::DEFAULTFORMAT, nullfmt = Logger::DEFAULTNULLFORMAT;
  bool hasnull = true;
  int max = 127;
  S pending;
};
// The clock of the logs is the harness's own, and so is the time zone
static time_t WALL = 0;
extern "C" time_t time(time_t* t) noexcept { time_t n = WALL; if(!n) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); n = s.tv_sec; } if(t) *t = n; return n; }
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
  if(!WALL || c != CLOCK_REALTIME) return (int)syscall(SYS_clock_gettime, c, t);
  t->tv_sec = WALL; t->tv_nsec = 0;
  return 0;
}
static S localtext(bool date)
{
  tm d;
  localtime_r(&WALL, &d);
  char b[64];
  if(date) snprintf(b, sizeof b, "%04d-%02d-%02d %d:%02d:%02d", d.tm_year + 1900, d.tm_mon + 1, d.tm_mday, d.tm_hour, d.tm_min, d.tm_sec);
  else snprintf(b, sizeof b, "%d:%02d:%02d", d.tm_hour, d.tm_min, d.tm_sec);
  return b;
}
static long offset(time_t t) { tm d; localtime_r(&t, &d); return d.tm_gmtoff; }
static S header(const LModel& m, const char* src, const S& file, size_t line, int level)
{
  const S& f = !src && m.hasnull ? m.nullfmt : m.fmt;
  S o;
  for(size_t i = 0; i < f.size();)
    if(f[i] == '{' && i + 2 < f.size() && f[i + 1] >= '0' && f[i + 1] <= '9' && f[i + 2] == '}')
    {
      switch(f[i + 1])
      {
      case '0': if(src) o += src; break;
      case '1': { size_t p = file.find_last_of("/\\"); o += p == S::npos ? file : file.substr(p + 1); break; }
      case '2': o += std::to_string(line); break;
      case '3': if(level >= 0) o += m.levels[level]; break;
      case '4': o += localtext(false); break;
      case '5': o += localtext(true); break;
      }
      i += 3;
    }
    else o += f[i++];
  return o;
}
#define logsame(got, want, what) same(got, want, "log:bytes", what)
static void logs(Rng& r)
{
  static const char* FMTS[] = { "{3}", "{1}:{2} {0} ", "<{0}|{1}|{2}|{3}>", "", "{9}{3}x", "{4}|", "{5} {3}", "{2}{2}{", "{}{0" };
  static const char* NAMES[] = { "L: ", "", "level with spaces ", "\xc3\xa9: " };
  static const char* FILES[] = { "a.cpp", "/x/y/b.cpp", "c:\\z\\c.cpp", "q/w\\e", "", "/" };
  static const char* SRCS[] = { 0, "src", "", "module two" };
  const int N = 3;
  static const char* ZONES[] = { "UTC0", "XXX-5:30", "XXX12", "XXX-14", "XXX3:30", "XXX-0:45", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3" };
  const char* zone = ZONES[r.below(8)];
  setenv("TZ", zone, 1);
  tzset();
  WALL = (time_t)r.below(2100000000) + 86400;
  if(r.chance(1, 3)) WALL = WALL / 86400 * 86400 - offset(WALL) - 5 + (time_t)r.below(10); // close to midnight
  mon::op("clock %lld in %s", (long long)WALL, zone);
  CHECK(GetTimeZoneMinutes() * 60 == offset(WALL), "log:timezone", "the time zone is said to be %ld minutes away from UTC, but it is %ld", GetTimeZoneMinutes(), offset(WALL) / 60);
  struct Clock { ~Clock() { WALL = 0; setenv("TZ", "UTC", 1); tzset(); } } clock;
  std::ostringstream t[N], as[N];
  std::streambuf* own[N];
  for(int i = 0; i < N; ++i) own[i] = as[i].rdbuf();
  S want[N], aswant[N];
  int owner[N] = { -1, -1, -1 };
  Logger* l[2];
  LModel m[2];
  S fname[2], fwant[2];
  bool file[2] = { false, false };
  auto deliver = [&](int k) { for(int i : m[k].on) { if(i < N) want[i] += m[k].pending; else fwant[i - N] += m[k].pending; } m[k].pending.clear(); };
  auto born = [&](int k, std::ostream* first, int which) { (void)first; m[k] = LModel(); if(which >= 0) m[k].on.push_back(which); };
  for(int k = 0; k < 2; ++k)
  {
    int w = r.chance(1, 2) ? (int)r.below(N) : -1;
    if(r.chance(1, 4)) // made with a file
    {
      static int serial = 0;
      fname[k] = "./p26logc" + std::to_string(getpid()) + "_" + std::to_string(serial++);
      l[k] = new Logger(fname[k].c_str(), w >= 0 ? &t[w] : 0);
      born(k, 0, w);
      file[k] = true;
      m[k].on.insert(m[k].on.begin(), N + k);
      mon::ev("loggers_made_with_a_file");
      continue;
    }
    l[k] = new Logger(w >= 0 ? &t[w] : 0);
    born(k, 0, w);
  }
  auto closefiles = [&](int k) {
    for(int i : m[k].on) if(i >= N && file[i - N])
    {
      std::ifstream f(fname[i - N], std::ios::binary);
      std::stringstream ss;
      ss << f.rdbuf();
      logsame(ss.str(), fwant[i - N], "a closed log file");
      file[i - N] = false;
      unlink(fname[i - N].c_str());
      mon::ev("log files read back");
    }
  };
  auto release = [&](int k) { for(int i : m[k].got) owner[i] = -1; m[k].got.clear(); };
  for(int i = (int)r.below(50); i > 0; --i)
  {
    int k = (int)r.below(2);
    LModel& M = m[k];
    { time_t later = WALL + (time_t)r.below(r.chance(1, 4) ? 50000 : 4); if(offset(later) == offset(WALL)) WALL = later; } // a log keeps the offset that it was made with
    switch(r.below(14))
    {
    case 0: { int w = (int)r.below(N); mon::op("log %d target %d", k, w); l[k]->AddTarget(t[w]); deliver(k); M.on.push_back(w); break; }
    case 1: if(r.chance(1, 3)) { mon::op("log %d clear", k); l[k]->ClearTargets(); deliver(k); closefiles(k); M.on.clear(); } break;
    case 2: { M.fmt = FMTS[r.below(9)]; mon::op("log %d format %s", k, M.fmt.c_str()); for(auto f : FMTS) if(M.fmt == f) l[k]->SetFormat(f); break; }
    case 3:
    {
      int w = (int)r.below(10);
      mon::op("log %d null format %d", k, w);
      if(w == 9) { l[k]->SetNullFormat(0); M.hasnull = false; }
      else { l[k]->SetNullFormat(FMTS[w]); M.hasnull = true; M.nullfmt = FMTS[w]; }
      break;
    }
    case 4:
    {
      uint8_t v = (uint8_t)r.below(r.chance(1, 4) ? 40 : 9);
      const char* n = NAMES[r.below(4)];
      mon::op("log %d level %d %s", k, v, n);
      l[k]->SetLevel(v, n);
      if(M.levels.size() <= v) M.levels.resize(v + 1);
      M.levels[v] = n;
      break;
    }
    case 5: if(r.chance(1, 2)) { uint8_t v = (uint8_t)r.below(128); if(r.chance(1, 2)) v = (uint8_t)r.below(8); mon::op("log %d max %d", k, v); l[k]->SetMaxLevel(v); M.max = v; } break;
    case 6:
    { // assimilate a stream nobody has
      int w = (int)r.below(N);
      if(owner[w] >= 0) break;
      mon::op("log %d assimilates %d", k, w);
      l[k]->Assimilate(as[w]);
      owner[w] = k;
      M.got.push_back(w);
      break;
    }
    case 7:
    {
      int w = (int)r.below(N);
      S s = "as" + std::to_string(r.below(1000));
      bool fl = r.chance(1, 2);
      mon::op("stream %d << %s%s", w, s.c_str(), fl ? " flush" : "");
      as[w] << s;
      if(fl) as[w].flush();
      if(owner[w] < 0) aswant[w] += s;
      else { m[owner[w]].pending += s; if(fl) deliver(owner[w]); }
      break;
    }
    case 8:
    {
      S s = "raw" + std::to_string(r.below(1000)) + " ";
      mon::op("log %d raw %s", k, s.c_str());
      if(r.chance(1, 3)) { int w = (int)r.below(16); l[k]->GetStream() << std::setw(w) << s; if((int)s.size() < w) s.insert(0, w - s.size(), ' '); } // logging leaves the stream's formatting alone
      else if(r.chance(1, 2)) l[k]->GetStream() << s; else (std::ostream&)*l[k] << s;
      M.pending += s;
      break;
    }
    case 9:
      if(r.chance(1, 4))
      {
        int o = 1 - k;
        mon::op("log %d = moved %d", k, o);
        *l[k] = std::move(*l[o]);
        deliver(k);
        closefiles(k);
        release(k);
        for(int x : m[o].got) owner[x] = k;
        m[k] = m[o];
        delete l[o];
        int w = r.chance(1, 2) ? (int)r.below(N) : -1;
        l[o] = new Logger(w >= 0 ? &t[w] : 0);
        born(o, 0, w);
        mon::ev("loggers assigned");
      }
      break;
    case 10:
      if(r.chance(1, 3))
      {
        mon::op("log %d moved", k);
        Logger* n = new Logger(std::move(*l[k]));
        delete l[k];
        l[k] = n;
      }
      else if(r.chance(1, 6) && !file[k])
      {
        static int serial = 0;
        fname[k] = "./p26log" + std::to_string(getpid()) + "_" + std::to_string(serial++); // in the scratch directory the runner removes
        mon::op("log %d file", k);
        l[k]->AddTarget(fname[k].c_str());
        deliver(k);
        file[k] = true;
        fwant[k].clear();
        M.on.push_back(N + k);
      }
      break;
    default:
    {
      const char* src = SRCS[r.below(4)];
      const char* f = FILES[r.below(6)];
      size_t line = r.below(2000);
      int level = (int)r.range(-1, (int64_t)M.levels.size() - 1);
      int x = (int)r.below(100000);
      S s(r.below(r.chance(1, 10) ? 3000 : 12), 'y');
      mon::op("log %d src %s file %s level %d", k, src ? src : "(none)", f, level);
      S line1;
      int way = (int)r.below(4), ret = 0;
      switch(way)
      {
      case 0: l[k]->Log(src, f, line, level, s.c_str(), x, ' ', 2.5); line1 = s + std::to_string(x) + " 2.5\n"; break;
      case 1: l[k]->LogFormat(src, f, line, level, "{1}-{0}.", s.c_str(), x); line1 = std::to_string(x) + "-" + s + ".\n"; break;
      case 2: ret = l[k]->PrintLog(src, f, line, level, "%s=%i%%", s.c_str(), x); line1 = s + "=" + std::to_string(x) + "%\n"; break;
      case 3: l[k]->Log(src, f, line, level); line1 = "\n"; break;
      }
      bool shown = level < M.max;
      if(way == 2) CHECK(ret == (shown ? (int)line1.size() - 1 : 0), "log:count", "PrintLog returned %d", ret);
      if(shown) { M.pending += header(M, src, f, line, level) + line1; deliver(k); mon::ev("log entries"); }
      else mon::ev("log entries suppressed");
      break;
    }
    }
    CHECK(l[k]->GetStream().good(), "log:state", "log %d is in a failed state", k);
    for(int j = 0; j < N; ++j)
    {
      logsame(t[j].str(), want[j], "a target of a log");
      CHECK(owner[j] >= 0 || as[j].rdbuf() == own[j], "log:restore", "stream %d was not given its buffer back", j);
      if(owner[j] < 0) same(as[j].str(), aswant[j], "log:assimilated", "a stream that had been assimilated");
    }
  }
  for(int k = 0; k < 2; ++k) { mon::op("log %d gone", k); delete l[k]; deliver(k); closefiles(k); release(k); }
  for(int j = 0; j < N; ++j)
  {
    logsame(t[j].str(), want[j], "a target of a destroyed log");
    CHECK(as[j].rdbuf() == own[j], "log:restore", "stream %d was not given its buffer back by the destructor", j);
  }
  mon::nontrivial();
}

static struct Init { Init() { setenv("TZ", "UTC", 1); tzset(); } } init;
void mon_case(Rng& r, uint64_t c)
{
  switch(r.below(16))
  {
  case 0: rdarray<char>(r); break;
  case 1: rdarray<short>(r); break;
  case 2: rdarray<int>(r); break;
  case 3: dynarray<char>(r); break;
  case 4: case 5: dynarray<short>(r); break;
  case 6: dynarray<int>(r); break;
  case 7: dynarray<double>(r); break;
  case 8: filter(r); break;
  case 9: case 10: split(r); break;
  case 11: table<char, size_t>(r); break;
  case 12: r.chance(1, 2) ? table<char, uint32_t>(r) : table<wchar_t, size_t>(r); break;
  default: logs(r); break;
  }
}
