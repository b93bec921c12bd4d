// Monitor for INI files: loading, lookup, editing, saving, copying and moving, against a model of both the file and the entries in memory.
#include "mon.h"
#include "bss-util/INIstorage.h"
#include "bss-util/INIparse.h"
#include <string>
#include <vector>
#include <memory>
#include <cmath>
#include <new>
#include <unistd.h>
#include <sys/stat.h>
using namespace bss;
using mon::Rng;

static int64_t live = 0;
void* operator new(size_t n) { ++live; void* p = malloc(n ? n : 1); if(!p) abort(); return p; }
void operator delete(void* p) noexcept { if(p) --live; free(p); }
void operator delete(void* p, size_t) noexcept { if(p) --live; free(p); }

typedef std::string S;
static S low(const S& s) { S r; for(char c : s) r += (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; return r; }
static S trim(const S& s) { size_t a = 0, b = s.size(); while(a < b && (unsigned char)s[a] < 33) ++a; while(b > a && (unsigned char)s[b - 1] < 33) --b; return s.substr(a, b - a); }
static S show(const S& s) { S o; char b[8]; for(unsigned char c : s) { if(c < 32 || c > 126) { snprintf(b, sizeof b, "{%02x}", c); o += b; } else o += (char)c; if(o.size() > 900) break; } return o; }

struct E { S key, val; };
struct Sec { S name; std::vector<E> e; };
typedef std::vector<Sec> Doc;
// the file as lines: an independent reading of the dialect
struct Line { int kind; S key, val, note; }; // 0 other, 1 entry, 2 section
static Line readline(const S& l)
{
  Line r; r.kind = 0;
  size_t p = l.find_first_of(";=[");
  if(p == S::npos) return r;
  size_t semi = l.find(';');
  if(semi != S::npos) r.note = trim(l.substr(semi));
  if(l[p] == ';') return r;
  if(l[p] == '=')
  {
    r.key = trim(l.substr(0, p));
    size_t e = l.find(';', p);
    r.val = trim(l.substr(p + 1, e == S::npos ? S::npos : e - p - 1));
    if(!r.key.empty()) r.kind = 1;
    return r;
  }
  size_t e = l.find(']', p);
  if(e == S::npos) return r;
  r.key = trim(l.substr(p + 1, e - p - 1));
  r.kind = 2;
  return r;
}
static void addentry(Sec& s, const S& k, const S& v) { size_t at = s.e.size(); for(size_t i = 0; i < s.e.size(); ++i) if(low(s.e[i].key) == low(k)) at = i + 1; s.e.insert(s.e.begin() + at, E{ k, v }); }
static size_t addsec(Doc& d, const S& n) { size_t at = d.size(); for(size_t i = 0; i < d.size(); ++i) if(low(d[i].name) == low(n)) at = i + 1; d.insert(d.begin() + at, Sec{ n, {} }); return at; }
static Doc readdoc(const S& t, std::vector<S>* notes = 0)
{
  Doc d;
  size_t cur = (size_t)-1, p = 0;
  while(p < t.size())
  {
    size_t e = t.find('\n', p);
    if(e == S::npos) e = t.size();
    Line l = readline(t.substr(p, e - p));
    p = e + 1;
    if(notes && !l.note.empty()) notes->push_back(l.note);
    if(l.kind == 2) cur = addsec(d, l.key);
    else if(l.kind == 1) { if(cur == (size_t)-1) cur = addsec(d, ""); addentry(d[cur], l.key, l.val); }
  }
  return d;
}
static size_t find(const Doc& d, const S& n, size_t inst) { for(size_t i = 0; i < d.size(); ++i) if(low(d[i].name) == low(n) && !inst--) return i; return (size_t)-1; }
static size_t find(const Sec& d, const S& n, size_t inst) { for(size_t i = 0; i < d.e.size(); ++i) if(low(d.e[i].key) == low(n) && !inst--) return i; return (size_t)-1; }
static S dump(const Doc& d) { S o; for(auto& s : d) { o += "[" + s.name + "] "; for(auto& e : s.e) o += e.key + "=" + e.val + " | "; } return show(o); }
static bool same(const Doc& a, const Doc& b)
{
  if(a.size() != b.size()) return false;
  for(size_t i = 0; i < a.size(); ++i)
  {
    if(a[i].name != b[i].name || a[i].e.size() != b[i].e.size()) return false;
    for(size_t k = 0; k < a[i].e.size(); ++k) if(a[i].e[k].key != b[i].e[k].key || a[i].e[k].val != b[i].e[k].val) return false;
  }
  return true;
}
static Doc fromlib(INIstorage& i) { Doc d; for(auto& s : i) { d.push_back(Sec{ s.GetName(), {} }); for(auto& e : s) d.back().e.push_back(E{ e.GetKey(), e.GetString() }); } return d; }
static void judge(INIstorage& ini, const Doc& d, const char* what)
{
  Doc g = fromlib(ini);
  CHECK(same(g, d), "ini:contents", "after %s: has %s, should have %s", what, dump(g).c_str(), dump(d).c_str());
  const INIstorage::_NODE* prev = 0;
  for(auto n = ini.Front(); n; n = n->next) { CHECK(n->prev == prev, "ini:section-list", "after %s: broken backward link", what); prev = n; }
  CHECK(prev == ini.Back(), "ini:section-list", "after %s: the last section is not the last", what);
  for(size_t i = 0; i < d.size(); ++i)
  {
    size_t inst = 0, count = 0;
    for(size_t k = 0; k < d.size(); ++k) if(low(d[k].name) == low(d[i].name)) { if(k < i) ++inst; ++count; }
    S n = d[i].name;
    if((i + count) & 1) for(char& c : n) c = (char)toupper((unsigned char)c);
    INIsection* s = ini.GetSection(n.c_str(), inst);
    CHECK(s && d[i].name == s->GetName() && ini.GetNumSections(n.c_str()) == count && !ini.GetSection(n.c_str(), count), "ini:section-by-name", "after %s: section %s number %zu of %zu", what, n.c_str(), inst, count);
    CHECK(s->GetIndex() == inst, "ini:section-index", "after %s: section %s number %zu says it is number %zu", what, n.c_str(), inst, s->GetIndex());
    CHECK(s->GetParent() == &ini, "ini:section-parent", "after %s: section %s belongs to another storage", what, n.c_str());
    auto* node = ini.GetSectionNode(n.c_str(), inst);
    CHECK(&node->val == s, "ini:section-by-name", "after %s: the node of section %s", what, n.c_str());
    size_t pos = 0;
    for(auto q = ini.Front(); q && q != node; q = q->next) ++pos;
    CHECK(pos == i, "ini:section-by-name", "after %s: section %s number %zu found at place %zu instead of %zu", what, n.c_str(), inst, pos, i);
    if(!inst) CHECK(&ini[n.c_str()] == s, "ini:section-by-name", "operator[]");
    const INIsection::_NODE* ep = 0;
    for(auto q = s->Front(); q; q = q->next) { CHECK(q->prev == ep, "ini:entry-list", "after %s: broken backward link", what); ep = q; }
    CHECK(ep == s->Back(), "ini:entry-list", "after %s: the last entry is not the last", what);
    for(size_t k = 0; k < d[i].e.size(); ++k)
    {
      size_t ei = 0, ec = 0;
      for(size_t q = 0; q < d[i].e.size(); ++q) if(low(d[i].e[q].key) == low(d[i].e[k].key)) { if(q < k) ++ei; ++ec; }
      S key = d[i].e[k].key;
      if(k & 1) for(char& c : key) c = (char)toupper((unsigned char)c);
      INIentry* e = ini.GetEntryPtr(n.c_str(), key.c_str(), ei, inst);
      CHECK(e && d[i].e[k].key == e->GetKey() && d[i].e[k].val == e->GetString() && e->IsValid(), "ini:entry-by-name", "after %s: entry %s number %zu of section %s", what, key.c_str(), ei, n.c_str());
      CHECK(s->GetEntryPtr(key.c_str(), ei) == e && &s->GetEntry(key.c_str(), ei) == e && &ini.GetEntry(n.c_str(), key.c_str(), ei, inst) == e && &s->GetEntryNode(key.c_str(), ei)->val == e && &ini.GetEntryNode(n.c_str(), key.c_str(), ei, inst)->val == e, "ini:entry-by-name", "after %s: the ways to reach entry %s disagree", what, key.c_str());
      if(!ei) CHECK(&(*s)[key.c_str()] == e, "ini:entry-by-name", "operator[]");
      CHECK(s->GetNumEntries(key.c_str()) == ec && !s->GetEntryPtr(key.c_str(), ec) && !s->GetEntry(key.c_str(), ec).IsValid(), "ini:entry-count", "after %s: %s has %zu entries %s instead of %zu", what, n.c_str(), s->GetNumEntries(key.c_str()), key.c_str(), ec);
    }
    CHECK(!s->GetEntryPtr("no such key") && !s->GetNumEntries("no such key"), "ini:absent", "after %s: an entry that is not there was found", what);
  }
  CHECK(!ini.GetSection("no such section") && !ini.GetNumSections("no such section") && !ini.GetEntryPtr("no such section", "a") && !ini["no such section"]["a"].IsValid(), "ini:absent", "after %s: a section that is not there was found", what);
}
static void judgesec(INIsection& s, const Sec& d, const char* what)
{
  const INIsection::_NODE* ep = 0;
  size_t n = 0;
  CHECK(d.name == s.GetName(), "ini:section-copy", "%s: its name is %s, should be %s", what, show(s.GetName()).c_str(), show(d.name).c_str());
  for(auto q = s.Front(); q; q = q->next)
  {
    CHECK(q->prev == ep, "ini:entry-list", "%s: broken backward link", what);
    CHECK(n < d.e.size() && d.e[n].key == q->val.GetKey() && d.e[n].val == q->val.GetString(), "ini:section-copy", "%s: entry %zu is %s=%s", what, n, show(q->val.GetKey()).c_str(), show(q->val.GetString()).c_str());
    ep = q; ++n;
  }
  CHECK(ep == s.Back() && n == d.e.size(), "ini:section-copy", "%s: it has %zu entries, should have %zu", what, n, d.e.size());
  for(size_t k = 0; k < d.e.size(); ++k)
  {
    size_t ei = 0, ec = 0;
    for(size_t q = 0; q < d.e.size(); ++q) if(low(d.e[q].key) == low(d.e[k].key)) { if(q < k) ++ei; ++ec; }
    INIentry* e = s.GetEntryPtr(d.e[k].key.c_str(), ei);
    CHECK(e && d.e[k].val == e->GetString() && s.GetNumEntries(d.e[k].key.c_str()) == ec && !s.GetEntryPtr(d.e[k].key.c_str(), ec), "ini:section-copy", "%s: entry %s number %zu of %zu is not found by name", what, show(d.e[k].key).c_str(), ei, ec);
  }
  CHECK(!s.GetEntryPtr("no such key"), "ini:absent", "%s: an entry that is not there was found", what);
}
// Sections that are copied out of the storage
static void sections(Rng& r, INIstorage& ini, const Doc& d)
{
  if(d.empty()) return;
  auto pick = [&](Sec& m) -> INIsection& {
    size_t i = r.below(d.size()), inst = 0;
    for(size_t k = 0; k < i; ++k) inst += low(d[k].name) == low(d[i].name);
    m = d[i];
    return *ini.GetSection(d[i].name.c_str(), inst);
  };
  Sec m[3];
  INIsection a(pick(m[0])), b, c(pick(m[2]));
  INIsection* s[3] = { &a, &b, &c };
  for(int k = 0; k < 6; ++k)
  {
    size_t x = r.below(3), y = r.below(3);
    switch(r.below(4))
    {
    case 0: { Sec t; INIsection& q = pick(t); *s[x] = q; m[x] = t; judgesec(*s[x], m[x], "a section assigned"); break; }
    case 1: *s[x] = *s[y]; m[x] = m[y]; judgesec(*s[x], m[x], "a section assigned to another"); judgesec(*s[y], m[y], "the source of an assignment"); break;
    case 2: { INIsection t(std::move(*s[x])); judgesec(t, m[x], "a section moved"); if(r.chance(1, 2)) { *s[x] = std::move(t); judgesec(*s[x], m[x], "a section moved back"); } else { Sec w; *s[x] = pick(w); m[x] = w; judgesec(*s[x], w, "a moved section assigned"); } break; }
    default: { INIsection t(*s[y]); judgesec(t, m[y], "a copy of a section"); *s[x] = std::move(t); m[x] = m[y]; judgesec(*s[x], m[x], "a section move assigned"); break; }
    }
  }
  for(int k = 0; k < 3; ++k) judgesec(*s[k], m[k], "a section kept");
}
static void number(const INIentry& e)
{
  S v = e.GetString();
  int64_t i; double d;
  if(v.size() > 1 && v[0] == '0' && (v[1] == 'x' || v[1] == 'X')) { uint64_t u = strtoull(v.c_str(), 0, 16); i = (int64_t)u; d = (double)u; }
  else if(v.find('.') == S::npos) { i = strtoll(v.c_str(), 0, 10); d = (double)i; }
  else { d = strtod(v.c_str(), 0); if(!(std::fabs(d) < 9e18)) return; i = (int64_t)d; }
  CHECK(e.GetInt() == i && e.GetDouble() == d && (int64_t)e == i && (double)e == d && (bool)e == (i != 0) && (int)e == (int)i && (uint64_t)e == (uint64_t)i, "ini:number", "[%s] stands for %lld / %g, not for %lld / %g", show(v).c_str(), (long long)e.GetInt(), e.GetDouble(), (long long)i, d);
}
static int large = 0; // 1: long names and values (a line has room for 1023 bytes), 2: many lines
static S rname(Rng& r)
{
  static const char* p[] = { "a", "A", "b", "ab", "abc", "AbC", "key", "a somewhat longer name that needs the heap", "a somewhat longer name that needs the heaP", "a somewhat longer name that needs the hea", "\xc3\xa9", "n\xc3\xa9", "1", "12" };
  if(large && r.chance(1, 2)) return large == 1 ? S(100 + r.below(300), 'n') : "name" + std::to_string(r.below(60));
  return p[r.below(14)];
}
static S rval(Rng& r)
{
  static const char* p[] = { "", "1", "-5", "3.25", "0x1F", "0XFFFFFFFFFFFFFFFF", "9223372036854775807", "some text", "a=b", "x[0]", "]", "caf\xc3\xa9", "\xc3\xa9", "a value that is long enough to need the heap for sure", "-0.5", ".5", "1e3", "#", "v" };
  if(large == 1 && r.chance(1, 2)) return S(100 + r.below(400), 'v');
  return p[r.below(19)];
}
static S rfile(Rng& r)
{
  S t;
  S nl = r.chance(1, 4) ? "\r\n" : "\n";
  int tag = 0;
  char b[32];
  auto sp = [&] { S s; while(r.chance(1, 4)) s += r.chance(1, 2) ? ' ' : '\t'; return s; };
  size_t n = large == 2 ? 100 + r.below(400) : r.below(16);
  for(size_t i = 0; i < n; ++i)
  {
    switch(r.below(9))
    {
    case 0: case 1: t += sp() + "[" + sp() + rname(r) + sp() + "]" + sp(); break;
    case 2: case 3: case 4: case 5: t += sp() + rname(r) + sp() + "=" + sp() + rval(r) + sp(); break;
    case 6: t += sp(); break;
    case 7: t += "nothing in particular"; break;
    case 8: break;
    }
    if(r.chance(1, 4)) { snprintf(b, sizeof b, ";note %d [x] y=z", tag++); t += b; }
    if(i + 1 < n || r.chance(2, 3)) t += nl;
  }
  return t;
}
static S dir;
static S path(const char* n) { return dir + "/" + n; }
static void put(const S& p, const S& t) { FILE* f = fopen(p.c_str(), "wb"); CHECK(f, "ini:scratch", "cannot write %s", p.c_str()); if(!t.empty()) fwrite(t.data(), 1, t.size(), f); fclose(f); }
static S get(const S& p) { S t; FILE* f = fopen(p.c_str(), "rb"); if(!f) return t; char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f); return t; }
// a storage, what it should hold, and the lines its file should have when saved
struct St { std::unique_ptr<INIstorage> ini; Doc mem; S file; std::vector<Line> lines; bool edited = false; };
static std::vector<Line> readlines(const S& t)
{
  std::vector<Line> o;
  for(size_t p = 0; p < t.size();) { size_t e = t.find('\n', p); if(e == S::npos) e = t.size(); o.push_back(readline(t.substr(p, e - p))); p = e + 1; }
  return o;
}
static S dump(const std::vector<Line>& l) { S o; for(auto& q : l) if(q.kind == 2) o += "[" + q.key + "] "; else if(q.kind == 1) o += q.key + "=" + q.val + " | "; return show(o); }
static void load(Rng& r, St& s)
{
  S t = get(s.file);
  mon::op("load %s", show(t).c_str());
  if(r.chance(1, 5))
  {
    FILE* f = fopen(s.file.c_str(), "rb");
    INIstorage x(f);
    fclose(f);
    judge(x, readdoc(t), "loading from an open file");
  }
  s.ini.reset(new INIstorage(s.file.c_str()));
  s.mem = readdoc(t);
  s.lines = readlines(t);
  s.edited = false;
  judge(*s.ini, s.mem, "loading");
  for(auto& q : *s.ini) for(auto& e : q) number(e);
  size_t cut = s.file.rfind('/') + 1;
  CHECK(s.file.substr(0, cut) == s.ini->GetPath(), "ini:path", "the path of %s is given as %s", s.file.c_str(), s.ini->GetPath());
}
static void saved(const St& s, const S& file)
{
  S t = get(file);
  std::vector<Line> g = readlines(t), a, b;
  for(auto& l : g) if(l.kind) a.push_back(l);
  for(auto& l : s.lines) if(l.kind) b.push_back(l);
  bool eq = a.size() == b.size();
  for(size_t i = 0; eq && i < a.size(); ++i) eq = a[i].kind == b[i].kind && a[i].key == b[i].key && a[i].val == b[i].val;
  CHECK(eq, "ini:saved", "the file holds %s instead of %s; text %s", dump(a).c_str(), dump(b).c_str(), show(t).c_str());
  size_t k = 0;
  std::vector<S> need;
  for(auto& l : s.lines) if(!l.note.empty()) need.push_back(l.note);
  for(auto& l : g) if(k < need.size() && l.note == need[k]) ++k;
  CHECK(k == need.size(), "ini:comments", "the comment %s is gone from %s", k < need.size() ? need[k].c_str() : "", show(t).c_str());
}
static size_t header(const std::vector<Line>& l, const S& n, size_t inst) { for(size_t i = 0; i < l.size(); ++i) if(l[i].kind == 2 && low(l[i].key) == low(n) && !inst--) return i; return l.size(); }
static size_t secend(const std::vector<Line>& l, size_t h) { for(++h; h < l.size() && l[h].kind != 2; ++h); return h; }
static void edits(Rng& r)
{
  const int K = 2;
  St st[K];
  for(int i = 0; i < K; ++i) { st[i].file = path(i ? "one.ini" : "zero.ini"); put(st[i].file, rfile(r)); load(r, st[i]); }
  int steps = 3 + (int)r.below(30);
  for(int n = 0; n < steps; ++n)
  {
    int k = (int)r.below(K), o = 1 - k;
    St& s = st[k];
    INIstorage& ini = *s.ini;
    const char* what = "";
    S sec = rname(r), key = rname(r), val = rval(r);
    if(val.find(';') != S::npos) val = "";
    if(!s.mem.empty() && r.chance(3, 4)) { sec = s.mem[r.below(s.mem.size())].name; if(sec.empty()) sec = "a"; }
    size_t si = r.below(r.chance(1, 2) ? 1 : 3), ki = r.below(r.chance(1, 2) ? 1 : 3);
    size_t at = find(s.mem, sec, si);
    if(at != (size_t)-1 && !s.mem[at].e.empty() && r.chance(3, 4)) key = s.mem[at].e[r.below(s.mem[at].e.size())].key;
    switch(r.below(13))
    {
    case 0: case 1:
    {
      mon::op("%d: add section [%s]", k, show(sec).c_str()); what = "adding a section";
      INIsection& q = ini.AddSection(sec.c_str());
      size_t p = addsec(s.mem, sec);
      Line l; l.kind = 2; l.key = sec; s.lines.push_back(l);
      CHECK(sec == q.GetName() && &q == ini.GetSection(sec.c_str(), ini.GetNumSections(sec.c_str()) - 1), "ini:add-section", "the section returned is not the one added");
      (void)p; s.edited = true;
      break;
    }
    case 2:
    {
      mon::op("%d: remove section [%s] %zu", k, show(sec).c_str(), si); what = "removing a section";
      bool ok = ini.RemoveSection(sec.c_str(), si);
      CHECK(ok == (at != (size_t)-1), "ini:remove-section", "removing section %s number %zu %s", sec.c_str(), si, ok ? "claims success" : "failed");
      if(ok) { s.mem.erase(s.mem.begin() + at); size_t h = header(s.lines, sec, si); s.lines.erase(s.lines.begin() + h, s.lines.begin() + secend(s.lines, h)); }
      s.edited = true;
      break;
    }
    case 3: case 4: case 5:
    {
      bool news = r.chance(1, 6), null = r.chance(1, 10), both = r.chance(1, 4);
      if(null) val = "";
      if(both) { INIentry* had = ini.GetEntryPtr(sec.c_str(), key.c_str(), ki, si); if(had && null) break; }
      mon::op("%d: %s [%s] %zu %s=%s", k, both ? "edit or add" : "insert", show(sec).c_str(), news ? ~(size_t)0 : si, show(key).c_str(), show(val).c_str()); what = "inserting an entry";
      char ret;
      if(both)
      {
        size_t e = at == (size_t)-1 ? at : find(s.mem[at], key, ki);
        ret = ini.EditAddEntry(sec.c_str(), key.c_str(), null ? 0 : val.c_str(), ki, si);
        s.edited = true;
        if(e != (size_t)-1)
        {
          CHECK(!ret, "ini:edit", "editing an entry that is there returns %d", ret);
          s.mem[at].e[e].val = val;
          size_t h = header(s.lines, sec, si), c = ki;
          for(++h; h < s.lines.size(); ++h) if(s.lines[h].kind == 1 && low(s.lines[h].key) == low(key) && !c--) { s.lines[h].val = val; break; }
          break;
        }
        news = at == (size_t)-1;
      }
      else ret = ini.EditEntry(sec.c_str(), key.c_str(), null ? 0 : val.c_str(), (size_t)-1, news ? (size_t)-1 : si);
      s.edited = true;
      size_t place = at, inst = si;
      if(news) { place = addsec(s.mem, sec); inst = 0; for(size_t i = 0; i < place; ++i) inst += low(s.mem[i].name) == low(sec); Line l; l.kind = 2; l.key = sec; s.lines.push_back(l); }
      CHECK((ret >= 0) == (place != (size_t)-1), "ini:insert", "inserting into section %s number %zu returns %d", sec.c_str(), si, ret);
      if(place == (size_t)-1) break;
      addentry(s.mem[place], key, val);
      Line l; l.kind = 1; l.key = key; l.val = val;
      s.lines.insert(s.lines.begin() + secend(s.lines, header(s.lines, sec, inst)), l);
      break;
    }
    case 6: case 7: case 8:
    {
      bool del = r.chance(1, 2);
      mon::op("%d: %s [%s] %zu %s %zu =%s", k, del ? "delete" : "edit", show(sec).c_str(), si, show(key).c_str(), ki, show(val).c_str()); what = del ? "deleting an entry" : "editing an entry";
      size_t e = at == (size_t)-1 ? at : find(s.mem[at], key, ki);
      char ret = ini.EditEntry(sec.c_str(), key.c_str(), del ? 0 : val.c_str(), ki, si);
      CHECK((ret >= 0) == (e != (size_t)-1), "ini:edit", "%s [%s] %zu %s %zu returns %d", what, sec.c_str(), si, key.c_str(), ki, ret);
      s.edited = true;
      if(e == (size_t)-1) break;
      if(!del) number(*ini.GetEntryPtr(sec.c_str(), key.c_str(), ki, si));
      size_t h = header(s.lines, sec, si), c = ki;
      for(++h; h < s.lines.size(); ++h) if(s.lines[h].kind == 1 && low(s.lines[h].key) == low(key) && !c--) break;
      if(del) { s.mem[at].e.erase(s.mem[at].e.begin() + e); s.lines.erase(s.lines.begin() + h); }
      else { s.mem[at].e[e].val = val; s.lines[h].val = val; }
      break;
    }
    case 9:
    {
      mon::op("%d: save", k); what = "saving";
      bool over = r.chance(1, 4);
      S target = over ? path("other.ini") : s.file;
      if(over) unlink(target.c_str());
      bool had = s.edited;
      ini.EndINIEdit(over ? target.c_str() : 0);
      if(had) saved(s, target);
      if(over) { if(had) { put(s.file, get(target)); } load(r, s); }
      else if(r.chance(1, 2)) load(r, s);
      s.edited = false;
      break;
    }
    case 10:
    {
      mon::op("%d = %d", k, o); what = "copying";
      sections(r, *st[o].ini, st[o].mem);
      if(r.chance(1, 2)) *s.ini = *st[o].ini; else s.ini.reset(new INIstorage(*st[o].ini));
      s.mem = st[o].mem; s.lines = st[o].lines; s.edited = st[o].edited;
      S was = s.file;
      // both write to the same file from now on: give the copy one of its own
      if(!s.edited) { if(r.chance(1, 2)) { s.ini->AddSection("a"); addsec(s.mem, "a"); Line l; l.kind = 2; l.key = "a"; s.lines.push_back(l); s.edited = true; } else { put(s.file, get(st[o].file)); load(r, s); break; } }
      judge(*s.ini, s.mem, what);
      s.ini->EndINIEdit(s.file.c_str());
      saved(s, s.file);
      s.edited = false;
      break;
    }
    case 11:
    {
      mon::op("%d = move %d", k, o); what = "moving";
      if(r.chance(1, 2)) *s.ini = std::move(*st[o].ini); else s.ini.reset(new INIstorage(std::move(*st[o].ini)));
      s.mem = std::move(st[o].mem); s.lines = std::move(st[o].lines); s.edited = st[o].edited;
      std::swap(s.file, st[o].file);
      judge(*s.ini, s.mem, what);
      load(r, st[o]);
      break;
    }
    case 12:
    {
      mon::op("%d: discard", k); what = "discarding";
      ini.DiscardINIEdit();
      load(r, s);
      break;
    }
    }
    for(int i = 0; i < K; ++i) judge(*st[i].ini, st[i].mem, what);
    mon::ev("ini_edits");
  }
  for(int i = 0; i < K; ++i) if(st[i].edited) { st[i].ini->EndINIEdit(); saved(st[i], st[i].file); load(r, st[i]); }
}
static void scratch(Rng& r) // built without a file, saved under a name given at the end
{
  INIstorage ini;
  Doc d;
  for(size_t n = 1 + r.below(6); n > 0; --n)
  {
    S sec = rname(r), key = rname(r), val = rval(r);
    CHECK(!ini.EditEntry(sec.c_str(), key.c_str(), val.c_str(), (size_t)-1, (size_t)-1), "ini:from-scratch", "an insertion into a new section failed");
    addentry(d[addsec(d, sec)], key, val);
    judge(ini, d, "building from scratch");
  }
  S p = path("scratch.ini");
  unlink(p.c_str());
  ini.EndINIEdit(p.c_str());
  INIstorage b(p.c_str());
  judge(b, d, "reading what was built from scratch");
}
static void junk(Rng& r)
{
  S t = rfile(r);
  for(size_t n = 1 + r.below(8); n > 0; --n)
  {
    size_t at = r.below(t.size() + 1);
    switch(r.below(4))
    {
    case 0: t.insert(at, 1, "[]=;\n\r \xff\x80"[r.below(9)]); break;
    case 1: if(at < t.size()) t[at] = (char)r.next(); break;
    case 2: if(r.chance(1, 4)) t.insert(at, 900 + r.below(1400), "x= [;"[r.below(5)]); break;
    case 3: t.resize(at); break;
    }
  }
  mon::op("junk %s", show(t).c_str());
  S p = path("junk.ini");
  put(p, t);
  INIstorage ini(p.c_str());
  INIstorage c(ini);
  for(int i = 0; i < 6; ++i)
  {
    S sec = rname(r), key = rname(r);
    switch(r.below(4)) { case 0: ini.RemoveSection(sec.c_str(), r.below(2)); break; case 1: ini.EditEntry(sec.c_str(), key.c_str(), 0, r.below(2), r.below(2)); break; case 2: ini.EditEntry(sec.c_str(), key.c_str(), "v", r.below(2), r.below(2)); break; case 3: ini.EditAddEntry(sec.c_str(), key.c_str(), "v"); break; }
  }
  fromlib(ini); fromlib(c);
  ini.EndINIEdit();
}
static void entry(Rng& r)
{
  alignas(INIentry) unsigned char raw[sizeof(INIentry)];
  memset(raw, 0xA5, sizeof raw);
  INIentry* z = new(raw) INIentry("k", (const char*)0);
  CHECK(!z->GetInt() && z->GetDouble() == 0 && !z->GetString()[0], "ini:no-value", "an entry without a value stands for %lld", (long long)z->GetInt());
  z->~INIentry();
  INIentry e("k", rval(r).c_str());
  number(e);
  int64_t i = (int64_t)r.next() >> r.below(63);
  e = i;
  CHECK(e.GetInt() == i && e.GetDouble() == (double)i && S(e.GetString()) == std::to_string(i), "ini:set-int", "%lld is kept as %s", (long long)i, e.GetString());
  double d = (r.unit() - .5) * 1e6;
  e = d;
  CHECK(e.GetDouble() == d && e.GetInt() == (int64_t)d && std::fabs(strtod(e.GetString(), 0) - d) < 1e-5, "ini:set-float", "%g is kept as %s", d, e.GetString());
  S v = rval(r);
  e = v.c_str();
  CHECK(v == e.GetString() && v == (const char*)e, "ini:set", "[%s] is kept as [%s]", v.c_str(), e.GetString());
  number(e);
}
static void lowlevel(Rng& r) // the line reader and the searches in a text, which the storage is made of
{
  S t = rfile(r);
  mon::op("text %s", show(t).c_str());
  put(path("junk.ini"), t);
  FILE* f = fopen(path("junk.ini").c_str(), "rb");
  INIParser ps;
  CHECK(f && bssInitINI(&ps, f), "ini:parser", "the parser could not be set up");
  S section;
  struct At { size_t start, key, stop, end; Line l; }; // where the line, its '[' or key, its value's end and the line end are
  std::vector<At> at;
  for(size_t p = 0; p < t.size();)
  {
    size_t e = t.find('\n', p); if(e == S::npos) e = t.size();
    Line l = readline(t.substr(p, e - p));
    if(l.kind) { At a{ p, p, e, e, l }; if(l.kind == 2) a.key = t.find('[', p); else { while((unsigned char)t[a.key] < 33) ++a.key; a.stop = std::min(e, t.find(';', p)); } at.push_back(a); }
    p = e + 1;
  }
  for(size_t i = 0; i <= at.size(); ++i)
  {
    int want = i == at.size() ? 0 : at[i].l.kind == 2 ? -1 : 1, got = (signed char)bssParseLine(&ps);
    CHECK(got == want, "ini:parse-line", "line %zu gives %d instead of %d in %s", i, got, want, show(t).c_str());
    if(want < 0) section = at[i].l.key;
    if(want) CHECK(section == ps.cursection && (ps.newsection != 0) == (want < 0), "ini:parse-line", "the section is [%s], %snew, instead of [%s]", show(ps.cursection).c_str(), ps.newsection ? "" : "not ", show(section).c_str());
    if(want > 0) CHECK(at[i].l.key == ps.curkey && at[i].l.val == ps.curvalue, "ini:parse-line", "%s=%s instead of %s=%s", show(ps.curkey).c_str(), show(ps.curvalue).c_str(), show(at[i].l.key).c_str(), show(at[i].l.val).c_str());
  }
  CHECK(bssDestroyINI(&ps), "ini:parser", "the parser could not be taken down");
  fclose(f);
  std::unique_ptr<char[]> buf(new char[t.size() + 1]);
  memcpy(buf.get(), t.c_str(), t.size() + 1);
  for(int n = 0; n < 6; ++n)
  {
    auto some = [&](int kind) { S s = rname(r); if(at.size() && r.chance(2, 3)) { size_t q = r.below(at.size()); for(size_t i = 0; i < at.size(); ++i, q = (q + 1) % at.size()) if(at[q].l.kind == kind) return at[q].l.key; } return s; };
    S name = some(2);
    size_t inst = r.chance(1, 2) ? 0 : r.below(3), k = inst, h = at.size();
    for(size_t i = 0; i < at.size(); ++i) if(at[i].l.kind == 2 && low(at[i].l.key) == low(name) && !k--) { h = i; break; }
    INICHUNK c = bssFindINISection(buf.get(), t.size(), name.c_str(), inst);
    if(h == at.size()) { CHECK(!c.start, "ini:find-section", "[%s] %zu is not in %s", show(name).c_str(), inst, show(t).c_str()); continue; }
    size_t z = h + 1; while(z < at.size() && at[z].l.kind != 2) ++z;
    size_t stop = z < at.size() ? at[z].start - 1 : t.size();
    CHECK(c.start == buf.get() + at[h].key && c.end == buf.get() + stop, "ini:find-section", "[%s] %zu was found at %zd-%zd instead of %zu-%zu in %s", show(name).c_str(), inst, (const char*)c.start - buf.get(), (const char*)c.end - buf.get(), at[h].key, stop, show(t).c_str());
    for(int m = 0; m < 6; ++m)
    {
      S key = some(1);
      size_t ki = r.chance(2, 3) ? 0 : r.below(3), w = h + 1;
      k = ki;
      for(; w < z; ++w) if(low(at[w].l.key) == low(key) && !k--) break;
      INICHUNK e = bssFindINIEntry(c, key.c_str(), ki);
      if(w == z) { CHECK(!e.start, "ini:find-entry", "%s %zu is not in the section", show(key).c_str(), ki); continue; }
      CHECK(e.start == buf.get() + at[w].key && e.end == buf.get() + at[w].stop, "ini:find-entry", "%s %zu was found at %zd-%zd instead of %zu-%zu in %s", show(key).c_str(), ki, (const char*)e.start - buf.get(), (const char*)e.end - buf.get(), at[w].key, at[w].stop, show(t).c_str());
      mon::ev("entries_found_in_text");
    }
  }
}
struct Dir { Dir() { char t[] = "./p22iniXXXXXX"; char* p = mkdtemp(t); if(!p) abort(); dir = p; /* in the scratch directory the runner removes */ } ~Dir() { for(const char* n : { "zero.ini", "one.ini", "other.ini", "scratch.ini", "junk.ini" }) unlink(path(n).c_str()); rmdir(dir.c_str()); } };
void mon_case(Rng& r, uint64_t c)
{
  static Dir d;
  static bool warm = false;
  if(!warm) { warm = true; INIstorage i(path("zero.ini").c_str()); }
  int64_t before = live;
  large = r.chance(1, 60) ? 1 + (int)r.below(2) : 0;
  if(large) mon::ev(large == 1 ? "long lines" : "many lines");
  switch(r.below(10)) { case 0: scratch(r); break; case 1: junk(r); break; case 2: entry(r); break; case 3: lowlevel(r); break; default: edits(r); break; }
  CHECK(live == before, "ini:leak", "%lld blocks are still allocated after everything was destroyed", (long long)(live - before));
  mon::nontrivial();
}
