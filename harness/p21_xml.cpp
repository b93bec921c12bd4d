// Monitor for XML: documents built, edited, copied, written and read, against a reference tree, an independent generator and an independent reader.
#include "mon.h"
#include "bss-util/XML.h"
#include <string>
#include <unistd.h>
#include <fstream>
#include <vector>
#include <sstream>
#include <memory>
#include <cmath>
using namespace bss;
using mon::Rng;

struct N
{
  std::string name, text;
  std::vector<std::pair<std::string, std::string>> at;
  std::vector<N> kids;
};
static unsigned codepoint(Rng& r) // anything a string can hold, with the ends of every encoding length and of both surrogate ranges
{
  static const unsigned edge[] = { 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x103FF, 0x10400, 0x107FF, 0x10FC00, 0x10FFFF };
  if(r.chance(1, 4)) return edge[r.below(14)];
  if(r.chance(1, 4)) return (unsigned)r.range(0x10000, 0x10FFFF);
  return r.chance(1, 2) ? 0x1F600 + (unsigned)r.below(50) : (unsigned)r.range(0x800, 0xD7FF);
}
static void utf8(std::string& o, unsigned c)
{
  if(c < 0x80) o += (char)c;
  else if(c < 0x800) { o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 63)); }
  else if(c < 0x10000) { o += (char)(0xE0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | (c >> 18)); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
}
static bool blank(const std::string& s) { for(char c : s) if(c != ' ' && c != '\t' && c != '\n' && c != '\r') return false; return true; }
static std::string trim(const std::string& s)
{
  size_t a = 0, b = s.size();
  while(a < b && strchr(" \t\n\r", s[a])) ++a;
  while(b > a && strchr(" \t\n\r", s[b - 1])) --b;
  return s.substr(a, b - a);
}
static bool wideNames = false;
static std::string rname(Rng& r)
{
  static const char* pool[] = { "a", "b", "foo", "bar", "n:x", "averylongelementnamethatneedstheheap", "averylongelementnamethatneedsthehea", "x-y.z", "_q" };
  if(wideNames) { std::string s = pool[r.below(9)]; s += std::to_string(r.below(500)); return s; }
  return pool[r.below(9)];
}
static std::string rtext(Rng& r)
{
  std::string s;
  size_t n = mon::scale.len(r, r.below(r.chance(1, 6) ? 40 : 8));
  if(r.chance(1, 5)) { static const char* v[] = { "true", "TRUE", "0x1F", "0b1011", "-17", "3.75", "18446744073709551615", "0xFFFFFFFFFFFFFFFF", "12abc", "-0.5", "1e3", "false", "True" }; return v[r.below(13)]; }
  for(size_t i = 0; i < n; ++i)
    switch(r.below(6))
    {
    case 0: s += "<>&'\"=/;!-?#"[r.below(12)]; break;
    case 1: utf8(s, (unsigned)r.range(0x80, 0x7FF)); break;
    case 2: utf8(s, codepoint(r)); break;
    case 3: s += " \t\n"[r.below(r.chance(1, 3) ? 3 : 1)]; break;
    default: s += (char)r.range('a', 'z'); break;
    }
  return s;
}
static std::string show(const std::string& s)
{
  std::string o;
  char b[8];
  for(unsigned char c : s) { if(c < 32 || c > 126) { snprintf(b, sizeof b, "{%02x}", c); o += b; } else o += (char)c; if(o.size() > (getenv("MON_LONG") ? 3500u : 400u)) break; }
  return o;
}
// ---- the numbers a value stands for
static bool samef(double a, double b) { return a == b || (a != a && b != b); }
static int64_t asint(const std::string& s)
{
  std::string l;
  for(char c : s) l += (char)tolower((unsigned char)c);
  if(l == "true") return 1;
  if(s.size() > 1 && s[0] == '0' && s[1] == 'b') { uint64_t v = 0; for(size_t i = 2; i < s.size() && (s[i] == '0' || s[i] == '1'); ++i) v = v * 2 + (s[i] - '0'); return (int64_t)v; }
  if(!s.empty() && s[0] == '-') return strtoll(s.c_str(), 0, 10);
  if(s.size() > 1 && s[0] == '0' && s[1] == 'x') return (int64_t)strtoull(s.c_str(), 0, 16);
  return (int64_t)strtoull(s.c_str(), 0, 10);
}
// text: 0 exact, 1 only compare what is left after trimming
static bool equal(const N& a, const N& b, int text, std::string& why)
{
  if(a.name != b.name) { why = "name " + a.name + " / " + b.name; return false; }
  if(text == 1 ? trim(a.text) != trim(b.text) : a.text != b.text) { why = "text of " + a.name + ": [" + a.text + "] / [" + b.text + "]"; return false; }
  if(a.at != b.at) { why = "attributes of " + a.name; for(auto& q : a.at) why += " " + q.first + "=[" + q.second + "]"; why += " /"; for(auto& q : b.at) why += " " + q.first + "=[" + q.second + "]"; return false; }
  if(a.kids.size() != b.kids.size()) { why = "children of " + a.name + ": " + std::to_string(a.kids.size()) + " / " + std::to_string(b.kids.size()); return false; }
  for(size_t i = 0; i < a.kids.size(); ++i) if(!equal(a.kids[i], b.kids[i], text, why)) return false;
  return true;
}
static N fromlib(const XMLNode& x)
{
  N n;
  n.name = x.GetName();
  n.text = x.GetValue().String;
  for(size_t i = 0; i < x.GetAttributes(); ++i) n.at.push_back({ x.GetAttribute(i)->Name, x.GetAttribute(i)->String });
  for(size_t i = 0; i < x.GetNodes(); ++i) n.kids.push_back(fromlib(*x.GetNode(i)));
  return n;
}
static void judge(const XMLNode& x, const N& n, bool values, const char* what)
{
  N g = fromlib(x);
  std::string why;
  CHECK(equal(g, n, 0, why), "xml:tree", "after %s: %s", what, show(why).c_str());
}
static void lookups(XMLNode& x, const N& n, bool values, const char* what)
{
  const XMLNode& c = x;
  for(size_t i = 0; i < n.kids.size(); ++i)
  {
    size_t last = i;
    std::vector<size_t> same;
    for(size_t k = 0; k < n.kids.size(); ++k) if(n.kids[k].name == n.kids[i].name) { last = k; same.push_back(k); }
    XMLNode* f = x.GetNode(n.kids[i].name.c_str());
    CHECK(f == x.GetNode(last) && c[n.kids[i].name.c_str()] == f, "xml:node-by-name", "after %s: looking up %s does not give the latest of that name", what, n.kids[i].name.c_str());
    CHECK(!f->prev, "xml:siblings", "after %s: the latest %s has a predecessor in its chain", what, n.kids[i].name.c_str());
    size_t k = same.size();
    for(XMLNode* q = f; q; q = q->next)
    {
      CHECK(k > 0 && q == x.GetNode(same[k - 1]), "xml:siblings", "after %s: the chain of nodes called %s is broken", what, n.kids[i].name.c_str());
      --k;
      if(q->next) CHECK(q->next->prev == q, "xml:siblings", "after %s: the chain of nodes called %s is broken backwards", what, n.kids[i].name.c_str());
    }
    CHECK(k == 0, "xml:siblings", "after %s: the chain of nodes called %s lacks %zu nodes", what, n.kids[i].name.c_str(), k);
    lookups(*x.GetNode(i), n.kids[i], values, what);
  }
  for(size_t i = 0; i < n.at.size(); ++i)
  {
    XMLValue* v = x.GetAttribute(n.at[i].first.c_str());
    CHECK(v == x.GetAttribute(i) && c(i) == v && c(n.at[i].first.c_str()) == v, "xml:attribute-by-name", "after %s: looking up attribute %s of %s", what, n.at[i].first.c_str(), n.name.c_str());
    CHECK(n.at[i].second == c.GetAttributeString(n.at[i].first.c_str()), "xml:attribute-by-name", "after %s: attribute %s of %s reads wrong", what, n.at[i].first.c_str(), n.name.c_str());
    if(values) CHECK(c.GetAttributeInt(n.at[i].first.c_str()) == asint(n.at[i].second) && samef(c.GetAttributeFloat(n.at[i].first.c_str()), atof(n.at[i].second.c_str())) && (bool)*v == (asint(n.at[i].second) != 0), "xml:attribute-number", "the value [%s] is read as %lld / %g", show(n.at[i].second).c_str(), (long long)v->Integer, v->Float);
  }
  if(values) CHECK(x.GetValue().Integer == asint(n.text) && samef(x.GetValue().Float, atof(n.text.c_str())), "xml:value-number", "the text [%s] is read as %lld / %g", show(n.text).c_str(), (long long)x.GetValue().Integer, x.GetValue().Float);
  CHECK(!x.GetNode("not there") && !x.GetAttribute("not there") && !c.GetAttributeString("not there") && !c.GetAttributeInt("not there") && c.GetAttributeFloat("not there") == 0 && !x.GetNode(n.kids.size()) && !x.GetAttribute(n.at.size()), "xml:absent", "after %s: something that is not there was found", what);
  size_t k = 0;
  for(auto& q : x) { CHECK(k < n.kids.size() && q.get() == x.GetNode(k), "xml:iterate", "iteration"); ++k; }
  CHECK(k == n.kids.size(), "xml:iterate", "iteration visited %zu of %zu", k, n.kids.size());
}
// ---- a small strict reader for what the library writes
struct Rd
{
  const std::string& t; size_t p = 0; const char* err = 0;
  explicit Rd(const std::string& s) : t(s) {}
  bool bad(const char* e) { if(!err) err = e; return false; }
  int pk(size_t k = 0) { return p + k < t.size() ? (unsigned char)t[p + k] : -1; }
  void sp() { while(pk() == ' ' || pk() == '\t' || pk() == '\n' || pk() == '\r') ++p; }
  bool ref(std::string& o)
  {
    size_t e = t.find(';', p);
    if(e == std::string::npos || e - p > 10) return bad("a bare ampersand");
    std::string n = t.substr(p + 1, e - p - 1);
    p = e + 1;
    if(n == "lt") o += '<'; else if(n == "gt") o += '>'; else if(n == "amp") o += '&'; else if(n == "quot") o += '"'; else if(n == "apos") o += '\'';
    else if(n.size() > 2 && n[0] == '#' && n[1] == 'x') utf8(o, strtoul(n.c_str() + 2, 0, 16));
    else if(n.size() > 1 && n[0] == '#') utf8(o, strtoul(n.c_str() + 1, 0, 10));
    else return bad("an unknown entity");
    return true;
  }
  bool name(std::string& o) { while(pk() > 0 && (isalnum(pk()) || pk() >= 0x80 || strchr("_:-.", pk()))) { o += (char)pk(); ++p; } return !o.empty() || bad("a name is missing"); }
  bool attrs(N& n, const char* end)
  {
    for(;;)
    {
      sp();
      if(pk() < 0) return bad("unterminated tag");
      if(strchr(end, pk())) return true;
      n.at.push_back({});
      if(!name(n.at.back().first)) return false;
      if(pk() != '=' || pk(1) != '"') return bad("an attribute without a quoted value");
      p += 2;
      while(pk() != '"')
      {
        if(pk() < 0) return bad("unterminated attribute");
        if(pk() == '<') return bad("a raw < in an attribute");
        if(pk() == '&') { if(!ref(n.at.back().second)) return false; }
        else { n.at.back().second += (char)pk(); ++p; }
      }
      ++p;
    }
  }
  bool elem(N& n)
  {
    if(pk() != '<') return bad("an element is missing");
    ++p;
    if(!name(n.name) || !attrs(n, "/>")) return false;
    if(pk() == '/') { if(pk(1) != '>') return bad("a stray /"); p += 2; return true; }
    ++p;
    for(;;)
    {
      if(pk() < 0) return bad("an element is not closed");
      if(pk() == '<' && pk(1) == '/')
      {
        p += 2;
        std::string e;
        if(!name(e)) return false;
        sp();
        if(pk() != '>') return bad("an end tag is malformed");
        ++p;
        return e == n.name || bad("the wrong element is closed");
      }
      if(pk() == '<') { n.kids.push_back({}); if(!elem(n.kids.back())) return false; }
      else if(pk() == '&') { if(!ref(n.text)) return false; }
      else { n.text += (char)pk(); ++p; }
    }
  }
  bool doc(N& n)
  {
    if(pk() == '<' && pk(1) == '?') { p += 2; if(!name(n.name) || !attrs(n, "?")) return false; if(n.at.empty()) return bad("a declaration that declares nothing"); if(pk(1) != '>') return bad("a malformed prolog"); p += 2; }
    for(;;)
    {
      sp();
      if(pk() < 0) return true;
      n.kids.push_back({});
      if(!elem(n.kids.back())) return false;
    }
  }
};
// ---- writing documents in all the ways the (supported) format allows
static void esc(Rng& r, std::string& o, const std::string& s, bool attr)
{
  char b[32];
  for(size_t i = 0; i < s.size();)
  {
    unsigned char c = s[i];
    size_t len = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    unsigned cp = c;
    if(len > 1) { cp = c & (0xFF >> (len + 1)); for(size_t k = 1; k < len; ++k) cp = (cp << 6) | ((unsigned char)s[i + k] & 63); }
    bool must = c == '<' || c == '&' || c == '>' || (attr && c == '"');
    const char* named = c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : 0;
    if(named && (must || r.chance(1, 2)) && !r.chance(1, 4)) o += named;
    else if(must || r.chance(1, 12)) { snprintf(b, sizeof b, r.chance(1, 2) ? "&#%u;" : r.chance(1, 2) ? "&#x%x;" : "&#x%X;", 0u); snprintf(b, sizeof b, b[2] == 'x' ? (r.chance(1, 2) ? "&#x%x;" : "&#x%X;") : "&#%u;", cp); o += b; }
    else o.append(s, i, len);
    i += len;
  }
}
static void ws(Rng& r, std::string& o) { if(r.chance(1, 3)) for(size_t n = 1 + r.below(3); n > 0; --n) o += " \t\n\r"[r.below(4)]; }
static void comment(Rng& r, std::string& o) { if(r.chance(1, 6)) { static const char* c[] = { "<!-- note -->", "<!---->", "<!-- <b> & \" -->", "<!-- - -->" }; o += c[r.below(4)]; } }
static void attrs(Rng& r, std::string& o, const N& n)
{
  for(auto& a : n.at) { o += ' '; ws(r, o); o += a.first; if(r.chance(1, 6)) o += ' '; o += '='; if(r.chance(1, 6)) o += ' '; o += '"'; esc(r, o, a.second, true); o += '"'; }
  ws(r, o);
}
static void emit(Rng& r, std::string& o, const N& n, bool spaced)
{
  o += '<'; o += n.name;
  attrs(r, o, n);
  if(n.text.empty() && n.kids.empty() && r.chance(1, 2)) { o += "/>"; return; }
  o += '>';
  size_t cut = n.kids.empty() ? 0 : r.below(n.text.size() + 1); // text in two pieces around the children
  while(cut > 0 && cut < n.text.size() && ((unsigned char)n.text[cut] & 0xC0) == 0x80) --cut;
  if(n.kids.empty()) { comment(r, o); esc(r, o, n.text, false); comment(r, o); }
  else
  {
    esc(r, o, n.text.substr(0, cut), false);
    for(auto& k : n.kids) { comment(r, o); emit(r, o, k, spaced); }
    comment(r, o);
    esc(r, o, n.text.substr(cut), false);
  }
  o += "</"; o += n.name; if(r.chance(1, 8)) o += ' '; o += '>';
}
static N gen(Rng& r, int depth)
{
  N n;
  n.name = rname(r);
  if(r.chance(1, 2)) n.text = rtext(r);
  for(size_t k = mon::scale.count(r, r.below(4), 150); k > 0; --k) { std::string a = rname(r); bool dup = false; for(auto& q : n.at) dup |= q.first == a; if(!dup) n.at.push_back({ a, rtext(r) }); }
  if(mon::scale.deep > 0) { --mon::scale.deep; if(r.chance(1, 3)) { int d = mon::scale.deep; mon::scale.deep = 0; n.kids.push_back(gen(r, 0)); mon::scale.deep = d; } n.kids.push_back(gen(r, 0)); return n; }
  if(depth > 0) for(size_t k = mon::scale.count(r, r.below(4), 300); k > 0; --k) n.kids.push_back(gen(r, depth - 1));
  return n;
}
static void build(XMLNode& x, const N& n) { for(auto& a : n.at) { XMLValue v; v.Name = a.first.c_str(); v.String = a.second.c_str(); x.AddAttribute(v); } if(!n.text.empty()) x.SetValue(n.text.c_str()); for(auto& k : n.kids) build(*x.AddNode(k.name.c_str()), k); }
static void dropblank(N& n) { if(blank(n.text)) n.text.clear(); for(auto& k : n.kids) dropblank(k); }
static void writeread(Rng& r, const XMLFile& f, N n)
{
  bool pretty = r.chance(1, 2);
  std::ostringstream o;
  if(r.chance(1, 20)) // to a file, which is replaced
  {
    std::string name = "./p21xml" + std::to_string(getpid());
    if(r.chance(1, 2)) std::ofstream(name) << std::string(r.below(4000), 'x');
    f.Write(name.c_str(), pretty);
    { std::ifstream i(name, std::ios::binary); o << i.rdbuf(); }
    unlink(name.c_str()); mon::ev("files_written");
  }
  else f.Write(o, pretty);
  std::string out = o.str();
  mon::op("write pretty %d -> %s", pretty, show(out).c_str());
  if(n.at.empty()) n.name = "xml";
  n.text.clear(); // a document has no text of its own
  dropblank(n);
  N s;
  Rd p(out);
  CHECK(p.doc(s), "xml:write-syntax", "what was written is not well-formed (%s at %zu): %s", p.err, p.p, show(out).c_str());
  if(n.at.empty()) s.name = "xml";
  std::string why;
  if(n.at.empty() && !n.kids.empty() && !pretty) // without a declaration, the first node may also be read on its own
  {
    std::istringstream is(out);
    std::unique_ptr<XMLNode> one(r.chance(1, 2) ? new XMLNode(is) : new XMLNode(out.c_str()));
    CHECK(equal(fromlib(*one), n.kids[0], 0, why), "xml:node", "a node read on its own differs: %s in %s", show(why).c_str(), show(out).c_str());
    mon::ev("single_nodes_read");
  }
  s.text.clear();
  CHECK(equal(s, n, pretty ? 1 : 0, why), "xml:write", "what was written is not the document: %s", show(why).c_str());
  XMLFile back;
  std::istringstream is(out);
  back.Read(is);
  N b = fromlib(back);
  b.text.clear();
  CHECK(equal(b, n, pretty ? 1 : 0, why), "xml:roundtrip", "the document does not read back: %s", show(why).c_str());
  lookups(back, fromlib(back), true, "reading");
}
static N* pick(Rng& r, N& n, XMLNode*& x) { N* q = &n; while(!q->kids.empty() && r.chance(2, 3)) { size_t i = r.below(q->kids.size()); q = &q->kids[i]; x = x->GetNode(i); } return q; }
static void edits(Rng& r)
{
  const int K = 2;
  std::unique_ptr<XMLFile> f[K];
  N m[K];
  for(int i = 0; i < K; ++i) { f[i].reset(new XMLFile()); m[i].name = "xml"; }
  int steps = 5 + (int)r.below(50);
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(K), o = 1 - k;
    XMLNode* x = f[k].get();
    N* n = pick(r, m[k], x);
    const char* what = "";
    switch(r.below(15))
    {
    case 0: case 1: case 2: { std::string a = rname(r); mon::op("%d: %s add node %s", k, n->name.c_str(), a.c_str()); what = "adding a node"; XMLNode* y = x->AddNode(a.c_str()); CHECK(y == x->GetNode(x->GetNodes() - 1), "xml:add", "the node returned is not the one added"); N c; c.name = a; n->kids.push_back(c); break; }
    case 3: case 4:
    {
      std::string a = rname(r), v = rtext(r);
      mon::op("%d: %s set attribute %s", k, n->name.c_str(), a.c_str()); what = "setting an attribute";
      XMLValue q; q.Name = a.c_str(); q.String = v.c_str();
      XMLValue* y = r.chance(1, 2) ? x->AddAttribute(q) : x->AddAttribute(a.c_str());
      y->String = v.c_str();
      bool had = false;
      for(auto& p : n->at) if(p.first == a) { p.second = v; had = true; }
      if(!had) n->at.push_back({ a, v });
      break;
    }
    case 5: { std::string v = rtext(r); mon::op("%d: %s set text", k, n->name.c_str()); what = "setting the text"; if(n == &m[k]) continue; x->SetValue(v.c_str()); n->text = v; CHECK(x->GetValue().Integer == asint(v), "xml:set-value", "the text [%s] stands for %lld", show(v).c_str(), (long long)x->GetValue().Integer); break; }
    case 6:
      what = "setting a number";
      if(n == &m[k]) continue;
      if(r.chance(1, 2)) { int64_t v = (int64_t)r.next() >> r.below(60); mon::op("%d: %s set %lld", k, n->name.c_str(), (long long)v); x->SetValue(v); CHECK(x->GetValue().Integer == v && x->GetValue().Float == (double)v, "xml:set-int", "numbers"); n->text = std::to_string(v); }
      else { double v = (r.unit() - .5) * std::pow(10, (double)r.range(-9, 12)); mon::op("%d: %s set %.17g", k, n->name.c_str(), v); x->SetValue(v); CHECK(x->GetValue().Float == v && x->GetValue().Integer == (int64_t)v, "xml:set-double", "numbers"); n->text = x->GetValue().String; CHECK(strtod(n->text.c_str(), 0) == v, "xml:set-double", "%.17g is kept as the text %s", v, n->text.c_str()); }
      break;
    case 7: { if(n->kids.empty()) continue; size_t i = r.below(n->kids.size()); mon::op("%d: %s remove node %zu", k, n->name.c_str(), i); what = "removing a node"; CHECK(x->RemoveNode(i), "xml:remove", "a node could not be removed"); n->kids.erase(n->kids.begin() + i); break; }
    case 8: { std::string a = rname(r); mon::op("%d: %s remove node %s", k, n->name.c_str(), a.c_str()); what = "removing a node by name"; size_t i = n->kids.size(); while(i > 0 && n->kids[i - 1].name != a) --i; CHECK(x->RemoveNode(a.c_str()) == (i > 0), "xml:remove", "removing %s %s", a.c_str(), i > 0 ? "failed" : "claims success"); if(i > 0) n->kids.erase(n->kids.begin() + (i - 1)); break; }
    case 9: { size_t i = r.below(n->at.size() + 1); mon::op("%d: %s remove attribute %zu", k, n->name.c_str(), i); what = "removing an attribute"; CHECK(x->RemoveAttribute(i) == (i < n->at.size()), "xml:remove-attribute", "removing attribute %zu of %zu", i, n->at.size()); if(i < n->at.size()) n->at.erase(n->at.begin() + i); break; }
    case 10: { std::string a = rname(r); mon::op("%d: %s remove attribute %s", k, n->name.c_str(), a.c_str()); what = "removing an attribute by name"; size_t i = 0; while(i < n->at.size() && n->at[i].first != a) ++i; CHECK(x->RemoveAttribute(a.c_str()) == (i < n->at.size()), "xml:remove-attribute", "removing attribute %s", a.c_str()); if(i < n->at.size()) n->at.erase(n->at.begin() + i); break; }
    case 11: { mon::op("%d = %d", k, o); what = "copying"; if(r.chance(1, 2)) *f[k] = *f[o]; else f[k].reset(new XMLFile(*f[o])); m[k] = m[o]; break; }
    case 12: { mon::op("%d = move %d", k, o); what = "moving"; if(r.chance(1, 2)) *f[k] = std::move(*f[o]); else f[k].reset(new XMLFile(std::move(*f[o]))); m[k] = m[o]; f[o].reset(new XMLFile()); m[o] = N(); m[o].name = "xml"; break; }
    case 13: { XMLNode* y = f[o].get(); N* c = pick(r, m[o], y); if(c == &m[o]) continue; mon::op("%d: %s add a copy of %s", k, n->name.c_str(), c->name.c_str()); what = "adding a copy of a node"; x->AddNode((const XMLNode&)*y); N cc = *c; n->kids.push_back(cc); break; }
    case 14: { if(!r.chance(1, 4)) continue; mon::op("%d: %s clear", k, n->name.c_str()); what = "clearing"; x->Clear(); n->at.clear(); n->kids.clear(); break; }
    }
    for(int i = 0; i < K; ++i) { judge(*f[i], m[i], false, what); lookups(*f[i], m[i], false, what); }
    mon::ev("xml_edits");
  }
  for(int i = 0; i < K; ++i) writeread(r, *f[i], m[i]);
}
static void reading(Rng& r)
{
  N d;
  d.name = "xml";
  for(size_t k = 1 + r.below(3); k > 0; --k) d.kids.push_back(gen(r, (int)r.below(4)));
  if(r.chance(2, 3)) { d.at.push_back({ "version", "1.0" }); if(r.chance(1, 2)) d.at.push_back({ "encoding", "UTF-8" }); }
  std::string t;
  if(!d.at.empty()) { t += "<?xml"; attrs(r, t, d); t += "?>"; }
  for(auto& k : d.kids) { ws(r, t); comment(r, t); emit(r, t, k, true); }
  ws(r, t); comment(r, t);
  mon::op("read %s", show(t).c_str());
  XMLFile x;
  if(r.chance(1, 2)) { std::istringstream ss(t); x.Read(ss); } else { XMLFile y(t.c_str()); x = std::move(y); }
  N g = fromlib(x);
  std::string why;
  g.text.clear();
  CHECK(equal(g, d, 0, why), "xml:read", "%s in %s", show(why).c_str(), show(t).c_str());
  lookups(x, fromlib(x), true, "reading");
  XMLFile b;
  build(b, d);
  judge(b, d, false, "building");
  writeread(r, b, d);
}
// ---- structures
struct Sub { int64_t a = 0; Str s; std::vector<double> d; bool t = false;
  template<typename Engine> void Serialize(Serializer<Engine>& e, const char*) { e.template EvaluateType<Sub>(GenPair("a", a), GenPair("s", s), GenPair("d", d), GenPair("t", t)); }
  bool operator==(const Sub& o) const { return a == o.a && s == o.s && d == o.d && t == o.t; } };
struct Rec { int64_t i = 0; uint16_t u = 0; double d = 0; float f = 0; Str s; bool b = false; Sub sub; DynArray<int64_t> is; std::vector<Str> ss; int fix[2] = { 0, 0 }; std::array<bool, 2> bb = { false, false }; DynArray<Sub, size_t, ARRAY_SAFE> subs; std::tuple<short, Str, double> tup;
  template<typename Engine> void Serialize(Serializer<Engine>& e, const char*) { e.template EvaluateType<Rec>(GenPair("i", i), GenPair("u", u), GenPair("d", d), GenPair("f", f), GenPair("s", s), GenPair("b", b), GenPair("sub", sub), GenPair("is", is), GenPair("ss", ss), GenPair("fix", fix), GenPair("bb", bb), GenPair("subs", subs), GenPair("tup", tup)); }
};
static std::string rstr(Rng& r) { std::string s = rtext(r); if(blank(s)) s = "x" + s; return s; }
static void rsub(Rng& r, Sub& s) { s.a = (int64_t)r.next() >> r.below(60); s.s = rstr(r).c_str(); s.t = r.chance(1, 2); for(size_t n = r.below(4); n > 0; --n) s.d.push_back((r.unit() - .5) * std::pow(10, (double)r.range(-9, 12))); }
static const char* const V1[] = { "true", "TRUE", "True", "1", "2", "-1" };
static const char* const V0[] = { "false", "FALSE", "False", "0" };
static void boolspell(Rng& r, std::string& s) // the same truth value in another spelling
{
  if(s == "true" || s == "1") s = V1[r.below(6)];
  else if(s == "false" || s == "0") s = V0[r.below(4)];
}
static void respell(Rng& r, N& n)
{
  for(auto& a : n.at) if(a.first == "b" || a.first == "t" || a.first == "bb") boolspell(r, a.second);
  for(auto& k : n.kids) { if(k.name == "b" || k.name == "t" || k.name == "bb") boolspell(r, k.text); respell(r, k); }
}
static const char* differs(const Rec& v, const Rec& w)
{
  const char* d = 0;
  if(w.i != v.i) d = "i"; if(w.u != v.u) d = "u"; if(w.d != v.d) d = "d"; if(w.f != v.f) d = "f"; if(w.s != v.s) d = "s"; if(w.b != v.b) d = "b"; if(!(w.sub == v.sub)) d = "sub";
  if(w.is.Length() != v.is.Length()) d = "is"; else for(size_t i = 0; i < v.is.Length(); ++i) if(v.is[i] != w.is[i]) d = "is";
  if(w.ss != v.ss) d = "ss"; if(memcmp(w.fix, v.fix, sizeof v.fix)) d = "fix"; if(w.bb != v.bb) d = "bb";
  if(w.subs.Length() != v.subs.Length()) d = "subs"; else for(size_t i = 0; i < v.subs.Length(); ++i) if(!(v.subs[i] == w.subs[i])) d = "subs";
  if(w.tup != v.tup) d = "tup";
  return d;
}
static void records(Rng& r)
{
  Rec v;
  v.i = (int64_t)r.next() >> r.below(60); v.u = (uint16_t)r.next(); v.d = (r.unit() - .5) * std::pow(10, (double)r.range(-9, 12)); v.f = (float)v.d * 1.1f; v.s = rstr(r).c_str(); v.b = r.chance(1, 2);
  rsub(r, v.sub);
  for(size_t n = r.below(4); n > 0; --n) v.is.Add((int64_t)r.next() >> r.below(60));
  for(size_t n = r.below(4); n > 0; --n) v.ss.push_back(Str(rstr(r).c_str()));
  for(auto& q : v.fix) q = (int)r.next();
  for(auto& q : v.bb) q = r.chance(1, 2);
  for(size_t n = r.below(4); n > 0; --n) { v.subs.AddConstruct(); rsub(r, v.subs.Back()); }
  v.tup = std::make_tuple((short)r.next(), Str(rstr(r).c_str()), (r.unit() - .5) * 1000);
  std::stringstream ss;
  Serializer<XMLEngine> e;
  e.engine.pretty = r.chance(1, 2);
  e.Serialize(v, ss, "rec");
  std::string out = ss.str();
  mon::op("record -> %s", show(out).c_str());
  N n;
  Rd p(out);
  CHECK(p.doc(n), "xml:record-syntax", "what was written is not well-formed (%s at %zu): %s", p.err, p.p, show(out).c_str());
  CHECK(n.kids.size() == 1 && n.kids[0].name == "rec", "xml:record", "the record is not the only element");
  for(auto& a : n.kids[0].at) if(a.first == "s") CHECK(a.second == v.s.c_str(), "xml:record-write", "the string [%s] was written as [%s]", show(v.s.c_str()).c_str(), show(a.second).c_str());
  Rec w;
  Serializer<XMLEngine> e2;
  e2.Parse(w, ss, "rec");
  const char* d = differs(v, w);
  CHECK(!d, "xml:record-roundtrip", "member %s does not read back from %s", d, show(out).c_str());
  // the same record as another program would write it
  respell(r, n.kids[0]);
  std::string t;
  if(r.chance(1, 2)) t = "<?xml version=\"1.0\"?>";
  emit(r, t, n.kids[0], true);
  mon::op("foreign record %s", show(t).c_str());
  Rec z;
  Serializer<XMLEngine> e3;
  std::istringstream fs(t);
  e3.Parse(z, fs, "rec");
  d = differs(v, z);
  CHECK(!d, "xml:record-foreign", "member %s does not read back from %s", d, show(t).c_str());
  mon::ev("foreign_records");
}
static void junk(Rng& r)
{
  std::string t;
  N d = gen(r, 3);
  t = "<?xml version=\"1.0\"?>";
  emit(r, t, d, true);
  for(size_t n = 1 + r.below(6); n > 0; --n)
  {
    size_t at = r.below(t.size() + 1);
    switch(r.below(4))
    {
    case 0: t.resize(at); break;
    case 1: if(at < t.size()) t[at] = "<>/&;\"=!-?# \0\xff"[r.below(14)]; break;
    case 2: t.insert(at, 1, "<>/&;\"=!-?# "[r.below(12)]); break;
    case 3: if(at < t.size()) t.erase(at, 1 + r.below(3)); break;
    }
  }
  mon::op("junk %s", show(t).c_str());
  std::istringstream s(t);
  XMLFile x(s);
  fromlib(x);
  std::ostringstream o;
  x.Write(o);
  Rec w; Serializer<XMLEngine> e; std::istringstream s2(t); e.Parse(w, s2, d.name.c_str());
  XMLNode n(t.c_str());
  fromlib(n);
}
void mon_case(Rng& r, uint64_t c)
{
  const char* big = mon::scale.roll(r, 120);
  if(big) mon::ev(big);
  wideNames = mon::scale.wide > 0;
  switch(r.below(6))
  {
  case 0: case 1: edits(r); break;
  case 2: case 3: reading(r); break;
  case 4: records(r); break;
  case 5: junk(r); break;
  }
  mon::nontrivial();
}
