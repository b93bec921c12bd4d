// Monitor for values that own or refer to something: Variant, OwnerPtr, ref_ptr/RefCounter, Delegate, stored and deferred calls.
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/Variant.h"
#include "bss-util/SmartPtr.h"
#include "bss-util/RefCounter.h"
#include "bss-util/Delegate.h"
#include "bss-util/Singleton.h"
#include <string>
#include <vector>
#include <map>
#include <functional>
using namespace bss;
using mon::Rng;
using mon::Trk;
using mon::TrkR;

// ---- Variant against a tagged reference
struct alignas(32) Wide { Trk t; double d[3]; Wide(int v = 0) : t(v) { d[0] = d[1] = d[2] = v; } };
struct Conv { int v; Conv(int x = 0) : v(x) {} operator int() const { return v * 3; } };
template<class T> struct mk { static T f(int v) { return T(v); } static int g(const T& t) { return (int)t; } };
template<> struct mk<std::string> { static std::string f(int v) { return std::string(v % 40, 'x') + std::to_string(v); } static int g(const std::string& t) { size_t p = t.find_first_not_of('x'); return p == std::string::npos ? -1 : atoi(t.c_str() + p); } };
template<> struct mk<Wide> { static Wide f(int v) { return Wide(v); } static int g(const Wide& t) { return t.d[2] == t.t.get() ? t.t.get() : -5; } };
template<> struct mk<Conv> { static Conv f(int v) { return Conv(v); } static int g(const Conv& t) { return t.v; } };

template<class V, class... Ts>
struct VarTest
{
  struct M { int tag = -1, val = 0; };
  template<int I> using T = std::tuple_element_t<I, std::tuple<Ts...>>;
  template<class F> static void with(int tag, F f) { with_<F, 0>(tag, f); }
  template<class F, int I> static void with_(int tag, F& f)
  {
    if(tag == I) f((T<I>*)0);
    else if constexpr(I + 1 < (int)sizeof...(Ts)) with_<F, I + 1>(tag, f);
  }
  static void look(V& v, const M& m, const char* what)
  {
    CHECK(v.tag() == m.tag, "variant:tag", "after %s the tag is %d, expected %d", what, v.tag(), m.tag);
    bool is[] = { v.template is<Ts>()... };
    for(int i = 0; i < (int)sizeof...(Ts); ++i) CHECK(is[i] == (i == m.tag), "variant:is", "after %s it %s alternative %d while holding %d", what, is[i] ? "claims" : "denies", i, m.tag);
    if(m.tag >= 0)
      with(m.tag, [&](auto* p) {
        typedef std::remove_pointer_t<decltype(p)> U;
        const V& c = v;
        CHECK(((uintptr_t)&v.template get<U>() % alignof(U)) == 0, "variant:align", "alternative %d is not aligned as it has to be", m.tag);
        CHECK((const char*)&c.template get<U>() >= (const char*)&v && (const char*)(&c.template get<U>() + 1) <= (const char*)(&v + 1), "variant:inside", "alternative %d lies outside the variant", m.tag);
        int g = mk<U>::g(v.template get<U>()), h = mk<U>::g(c.template get<U>());
        CHECK(g == m.val && h == m.val, "variant:value", "after %s alternative %d holds %d, expected %d", what, m.tag, g, m.val);
      });
  }
  static void run(Rng& r, int steps)
  {
    const int N = 4;
    V* v[N];
    M m[N];
    for(auto& x : v) x = new V();
    for(int s = 0; s < steps; ++s)
    {
      int k = (int)r.below(N), o = (int)r.below(N), t = (int)r.below(sizeof...(Ts)), val = (int)r.below(120);
      const char* nm = "";
      switch(r.below(10))
      {
      case 0: nm = "assign value"; mon::op("v%d = <%d>(%d)", k, t, val); with(t, [&](auto* p) { typedef std::remove_pointer_t<decltype(p)> U; const U x = mk<U>::f(val); *v[k] = x; CHECK(mk<U>::g(x) == val, "variant:source", "assigning changed its source"); }); m[k] = { t, val }; break;
      case 1: nm = "move value in"; mon::op("v%d = move<%d>(%d)", k, t, val); with(t, [&](auto* p) { typedef std::remove_pointer_t<decltype(p)> U; U x = mk<U>::f(val); *v[k] = std::move(x); }); m[k] = { t, val }; break;
      case 2: nm = "copy assign"; mon::op("v%d = v%d", k, o); *v[k] = (const V&)*v[o]; m[k] = m[o]; look(*v[o], m[o], "being copied"); break;
      case 3: if(k == o) continue; nm = "move assign"; mon::op("v%d = move(v%d)", k, o); *v[k] = std::move(*v[o]); m[k] = m[o]; delete v[o]; v[o] = new V(); m[o] = M(); break;
      case 4: nm = "copy construct"; mon::op("new v%d(v%d)", k, o); { V* n = new V((const V&)*v[o]); delete v[k]; v[k] = n; m[k] = m[o]; if(k != o) look(*v[o], m[o], "being copied"); } break;
      case 5: if(k == o) continue; nm = "move construct"; mon::op("new v%d(move(v%d))", k, o); delete v[k]; v[k] = new V(std::move(*v[o])); m[k] = m[o]; delete v[o]; v[o] = new V(); m[o] = M(); break;
      case 6: nm = "construct from value"; mon::op("new v%d<%d>(%d)", k, t, val); delete v[k]; with(t, [&](auto* p) { typedef std::remove_pointer_t<decltype(p)> U; if(r.chance(1, 2)) v[k] = new V(mk<U>::f(val)); else { const U x = mk<U>::f(val); v[k] = new V(x); } }); m[k] = { t, val }; break;
      case 7: nm = "typeset"; mon::op("v%d.typeset<%d>", k, t); with(t, [&](auto* p) { typedef std::remove_pointer_t<decltype(p)> U; v[k]->template typeset<U>(); { int g = mk<U>::g(v[k]->template get<U>()), d = mk<U>::g(U()); CHECK(g == d, "variant:typeset", "typeset left %d in the variant where a new value holds %d", g, d); } v[k]->template get<U>() = mk<U>::f(val); }); m[k] = { t, val }; break;
      case 8: if(m[k].tag < 0) continue; nm = "write through get"; mon::op("v%d.get = %d", k, val); with(m[k].tag, [&](auto* p) { typedef std::remove_pointer_t<decltype(p)> U; v[k]->template get<U>() = mk<U>::f(val); }); m[k].val = val; break;
      case 9: nm = "self assign"; mon::op("v%d = v%d", k, k); { V& x = *v[k]; x = (const V&)*v[k]; } break;
      }
      look(*v[k], m[k], nm);
      look(*v[o], m[o], nm);
      mon::ev("variant_ops");
    }
    for(int i = 0; i < N; ++i) { look(*v[i], m[i], "the end"); delete v[i]; }
  }
};
static void variants(Rng& r)
{
  int steps = 5 + (int)r.below(60);
  switch(r.below(4))
  {
  case 0: { typedef Variant<int, double, Trk> V; VarTest<V, int, double, Trk>::run(r, steps); break; }
  case 1: { typedef Variant<std::string, int64_t, Trk, short> V; VarTest<V, std::string, int64_t, Trk, short>::run(r, steps); break; }
  case 2: { typedef Variant<short, Wide, Trk, Conv> V; VarTest<V, short, Wide, Trk, Conv>::run(r, steps); break; }
  case 3: { typedef Variant<Trk, TrkR, long double, std::string, char> V; VarTest<V, Trk, TrkR, long double, std::string, char>::run(r, steps); break; }
  }
  {
    int x = (int)r.below(100);
    Variant<int, double, Conv, short> v;
    v = x; CHECK(v.convert<double>() == x && v.convert<int>() == x, "variant:convert", "converting int %d", x);
    v = (double)x + .5; CHECK(v.convert<int>() == x && v.convert<double>() == x + .5, "variant:convert", "converting double");
    v = (short)x; CHECK(v.convert<int64_t>() == x, "variant:convert", "converting short");
    v = Conv(x); CHECK(v.convert<int>() == x * 3, "variant:convert", "converting an object");
    CHECK((Variant<int, double>::contains<double>()) && !(Variant<int, double>::contains<char>()) && (Variant<int, double>::type<double>()) == 1 && (Variant<int, double>::Type<int>::value) == 0, "variant:types", "type queries");
    struct B0 { int q = 1; }; struct B1 { int w = 2; }; struct D1 : B0, B1 {}; struct D2 : B1 { int z = 9; };
    Variant<D1, D2> p;
    p = D1(); CHECK(p.convertP<B1>() == static_cast<B1*>(&p.get<D1>()) && p.convertP<B1>()->w == 2, "variant:convertP", "base pointer of the first alternative");
    p = D2(); CHECK(p.convertP<B1>() == static_cast<B1*>(&p.get<D2>()), "variant:convertP", "base pointer of the second alternative");
  }
}
// ---- OwnerPtr: at any time the owner is known; everything is deleted exactly once, when its owner lets go
struct Del { static int calls; void operator()(Trk* p) const { ++calls; delete p; } };
int Del::calls = 0;
template<class P>
static void ownerptr(Rng& r)
{
  const int N = 5;
  P* p[N];
  struct M { Trk* t = 0; bool owner = false; } m[N];
  std::map<Trk*, int> val; // live objects
  Trk outside[2] = { Trk(-1), Trk(-2) };
  val[&outside[0]] = -1; val[&outside[1]] = -2;
  for(auto& x : p) x = new P();
  Del::calls = 0;
  int next = 1;
  int64_t base = mon::live;
  int expect = 0;
  auto letgo = [&](int k) { // what slot k refers to goes away if k owned it
    if(m[k].owner) { Trk* t = m[k].t; val.erase(t); --expect; for(int i = 0; i < N; ++i) if(i != k && m[i].t == t) m[i].t = (Trk*)1; }
  };
  auto fixup = [&] { for(int i = 0; i < N; ++i) if(m[i].t == (Trk*)1) { *p[i] = outside[0]; m[i] = { &outside[0], false }; } }; // stop looking at what is gone
  int steps = 5 + (int)r.below(60);
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(N), o = (int)r.below(N);
    switch(r.below(8))
    {
    case 0: { Trk* t = new Trk(next); ++expect; val[t] = next++; mon::op("p%d = new", k); letgo(k); *p[k] = t; m[k] = { t, true }; break; }
    case 1: { Trk* t = new Trk(next); ++expect; val[t] = next++; mon::op("p%d(new)", k); letgo(k); delete p[k]; p[k] = new P(t); m[k] = { t, true }; break; }
    case 2: { int q = (int)r.below(2); mon::op("p%d = outside", k); letgo(k); *p[k] = outside[q]; m[k] = { &outside[q], false }; break; }
    case 3: if(k != o && m[k].owner && m[o].t == m[k].t) continue; // would drop the object the copy is to refer to
      mon::op("p%d = p%d", k, o); if(k != o) { letgo(k); } { P& x = *p[k]; x = (const P&)*p[o]; } if(k != o) m[k] = { m[o].t, false }; break;
    case 4: if(k == o || (m[k].owner && m[o].t == m[k].t)) continue; mon::op("p%d = move(p%d)", k, o); letgo(k); *p[k] = std::move(*p[o]); m[k] = m[o]; m[o].owner = false; break;
    case 5: if(k == o || (m[k].owner && m[o].t == m[k].t)) continue; mon::op("p%d(p%d)", k, o); letgo(k); delete p[k]; p[k] = new P((const P&)*p[o]); m[k] = { m[o].t, false }; break;
    case 6: if(k == o || (m[k].owner && m[o].t == m[k].t)) continue; mon::op("p%d(move(p%d))", k, o); letgo(k); delete p[k]; p[k] = new P(std::move(*p[o])); m[k] = m[o]; m[o].owner = false; break;
    case 7: mon::op("p%d drop", k); letgo(k); delete p[k]; p[k] = new P(); m[k] = M(); break;
    }
    fixup();
    CHECK(mon::live - base == expect, "ownerptr:live", "%lld objects are alive, %d are owned", (long long)(mon::live - base), expect);
    for(int i = 0; i < N; ++i)
    {
      const P& c = *p[i];
      CHECK((Trk*)*p[i] == m[i].t && (const Trk*)c == m[i].t && *p[i] == m[i].t && !(*p[i] != m[i].t) && !*p[i] == !m[i].t, "ownerptr:target", "pointer %d refers to something else", i);
      if(m[i].t) CHECK((*p[i])->get() == val[m[i].t] && (*c).get() == val[m[i].t], "ownerptr:value", "the object behind pointer %d changed", i);
      CHECK((*p[i] == *p[o]) == (m[i].t == m[o].t) && (*p[i] != *p[o]) == (m[i].t != m[o].t), "ownerptr:compare", "comparing pointers");
    }
    mon::ev("ownerptr_ops");
  }
  for(int i = 0; i < N; ++i) { letgo(i); delete p[i]; m[i] = M(); for(int q = i + 1; q < N; ++q) if(m[q].t == (Trk*)1) m[q] = M(); }
  CHECK(mon::live == base, "ownerptr:leak", "%lld objects were never deleted", (long long)(mon::live - base));
}
// ---- reference counting on a graph of nodes
struct Node : RefCounter
{
  Trk t;
  ref_ptr<Node> next;
  static std::vector<char>* gone;
  int id;
  explicit Node(int i) : t(i), id(i) {}
  Node(const Node& n) : RefCounter(n), t(n.t), id(n.id) {}
  ~Node() { CHECK(!(*gone)[id], "refptr:double", "object %d was destroyed twice", id); (*gone)[id] = 1; }
  int refs() const { return _refs; }
};
std::vector<char>* Node::gone = 0;
static void refptr(Rng& r)
{
  std::vector<char> gone;
  Node::gone = &gone;
  struct O { int refs = 0; int next = -1; Node* p = 0; };
  std::vector<O> objs;
  const int N = 5;
  ref_ptr<Node>* p[N];
  int m[N];
  for(int i = 0; i < N; ++i) { p[i] = new ref_ptr<Node>(); m[i] = -1; }
  auto inc = [&](int i) { if(i >= 0) ++objs[i].refs; };
  std::function<void(int)> dec = [&](int i) { if(i >= 0 && --objs[i].refs == 0) { int n = objs[i].next; objs[i].next = -1; dec(n); } };
  int steps = 5 + (int)r.below(60);
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(N), o = (int)r.below(N);
    auto reaches = [&](int a, int b) { for(int n = 0; a >= 0 && n < 1000; ++n, a = objs[a].next) if(a == b) return true; return false; };
    switch(r.below(11))
    {
    case 0: { int id = (int)objs.size(); objs.push_back({}); gone.push_back(0); Node* n = new Node(id); objs[id].p = n; mon::op("p%d = new %d", k, id); *p[k] = n; inc(id); dec(m[k]); m[k] = id; break; }
    case 1: mon::op("p%d = p%d", k, o); { ref_ptr<Node>& x = *p[k]; x = (const ref_ptr<Node>&)*p[o]; } inc(m[o]); dec(m[k]); m[k] = m[o]; break;
    case 2: if(k == o) continue; mon::op("p%d = move(p%d)", k, o); *p[k] = std::move(*p[o]); dec(m[k]); m[k] = m[o]; m[o] = -1; break;
    case 3: if(k == o) continue; mon::op("p%d(p%d)", k, o); delete p[k]; p[k] = 0; dec(m[k]); p[k] = new ref_ptr<Node>((const ref_ptr<Node>&)*p[o]); inc(m[o]); m[k] = m[o]; break;
    case 4: if(k == o) continue; mon::op("p%d(move(p%d))", k, o); delete p[k]; dec(m[k]); p[k] = new ref_ptr<Node>(std::move(*p[o])); m[k] = m[o]; m[o] = -1; break;
    case 5: mon::op("p%d = 0", k); *p[k] = (Node*)0; dec(m[k]); m[k] = -1; break;
    case 6: mon::op("p%d = raw p%d", k, o); *p[k] = (Node*)*p[o]; inc(m[o]); dec(m[k]); m[k] = m[o]; break;
    case 7: if(m[k] < 0 || (m[o] >= 0 && reaches(m[o], m[k]))) continue; // no rings: those are the user's own leak
      mon::op("p%d->next = p%d", k, o); (*p[k])->next = *p[o]; { inc(m[o]); int old = objs[m[k]].next; objs[m[k]].next = m[o]; dec(old); } break;
    case 8: if(m[k] < 0) continue; // walking a list: the right side may be destroyed by the left side letting go
      mon::op("p%d = p%d->next", k, k); { int n = objs[m[k]].next; *p[k] = (const ref_ptr<Node>&)(*p[k])->next; inc(n); dec(m[k]); m[k] = n; } break;
    case 9: if(m[k] < 0) continue;
      mon::op("p%d = move(p%d->next)", k, k); { int n = objs[m[k]].next; *p[k] = std::move((*p[k])->next); objs[m[k]].next = -1; int old = m[k]; m[k] = n; dec(old); } break;
    case 10: if(m[k] < 0) continue;
      { Node* n = *p[k]; int by = 1 + (int)r.below(3); mon::op("grab %d by %d", m[k], by);
        CHECK(n->Grab() == objs[m[k]].refs + 1 && n->Grab(by) == objs[m[k]].refs + 1 + by, "refptr:grab", "grabbing returns the wrong count");
        for(int i = by; i >= 0; --i) CHECK(n->Drop() == objs[m[k]].refs + i, "refptr:drop", "dropping returns the wrong count"); }
      break;
    }
    for(int i = 0; i < N; ++i)
    {
      CHECK(!*p[i] == (m[i] < 0), "refptr:null", "pointer %d is%s null", i, !*p[i] ? "" : " not");
      if(m[i] >= 0) { const ref_ptr<Node>& c = *p[i]; CHECK((Node*)*p[i] == objs[m[i]].p && (const Node*)c == objs[m[i]].p && *p[i] == objs[m[i]].p && !(c != objs[m[i]].p) && (*c).id == m[i] && (*p[i])->t.get() == m[i], "refptr:target", "pointer %d refers to something else", i); }
    }
    for(size_t i = 0; i < objs.size(); ++i)
    {
      CHECK((objs[i].refs == 0) == (gone[i] != 0), "refptr:lifetime", "object %zu has %d references and is %s", i, objs[i].refs, gone[i] ? "destroyed" : "alive");
      if(!gone[i]) CHECK(objs[i].p->refs() == objs[i].refs, "refptr:count", "object %zu counts %d references, there are %d", i, objs[i].p->refs(), objs[i].refs);
    }
    mon::ev("refptr_ops");
  }
  {
    Node* n = 0;
    for(int i = 0; i < N && !n; ++i) n = (Node*)*p[i];
    if(n) { gone.push_back(0); int id = (int)gone.size() - 1; Node* q = new Node(*n); q->id = id; CHECK(q->refs() == 0, "refptr:copy", "a copied object starts with %d references", q->refs()); ref_ptr<Node> hold(q); CHECK(q->refs() == 1, "refptr:copy", "count"); int was = n->refs(); static_cast<RefCounter&>(*q).Grab(); static_cast<RefCounter&>(*q).Drop(); CHECK(n->refs() == was, "refptr:copy", "a copy changed the count of its source"); }
  }
  for(int i = 0; i < N; ++i) { delete p[i]; dec(m[i]); }
  for(size_t i = 0; i < gone.size(); ++i) CHECK(gone[i], "refptr:leak", "object %zu was never destroyed", i);
}
// ---- delegates call exactly what they were made from, with the arguments given
struct Callee
{
  std::vector<int64_t> log;
  int64_t k = 0;
  int64_t a(int x, Trk y) { log.push_back(x * 1000 + y.get()); return k + x; }
  int64_t b(int x, Trk y) const { return k * 7 + x - y.get(); }
  void c() { log.push_back(-1); }
  void d(const Trk& t, int& out) { out = t.get() + 1; }
};
struct Pad { int64_t pad[3] = { 1, 2, 3 }; virtual ~Pad() {} virtual int f(int x) { return x + 1; } };
struct Derived : Pad, Callee { int f(int x) override { return x * 2; } };
static int64_t freefn(int x, Trk y) { return x * 11 + y.get(); }
static int64_t ctx(Callee* c, int x, Trk y) { return c->k * 3 + x + y.get(); }
static int64_t ctxc(const Callee* c, int x, Trk y) { return c->k * 5 + x + y.get(); }
static std::vector<int64_t>* glog;
static void logit(int x, int64_t y) { glog->push_back(x * 100000 + y); }
static void delegates(Rng& r)
{
  typedef Delegate<int64_t, int, Trk> D;
  Derived o[3];
  std::vector<std::function<int64_t(int, Trk)>*> fs;
  struct E { D d; int kind, obj; int64_t k; };
  std::vector<E> es;
  for(int i = 0; i < 3; ++i) o[i].k = (int64_t)r.below(100000);
  int steps = 5 + (int)r.below(40);
  for(int s = 0; s < steps; ++s)
  {
    int q = (int)r.below(3);
    Callee* c = &o[q];
    switch(r.below(8))
    {
    case 0: es.push_back({ D::From<Callee, &Callee::a>(c), 0, q, 0 }); break;
    case 1: es.push_back({ D::From<Callee, &Callee::b>((const Callee*)c), 1, q, 0 }); break;
    case 2: es.push_back({ D::FromC<&freefn>(), 2, q, 0 }); break;
    case 3: es.push_back({ D::FromC<Callee, &ctx>(c), 3, q, 0 }); break;
    case 4: es.push_back({ D::FromC<Callee, &ctxc>((const Callee*)c), 4, q, 0 }); break;
    case 5: { int64_t k = (int64_t)r.below(1000); fs.push_back(new std::function<int64_t(int, Trk)>([k](int x, Trk y) { return k * 13 + x - y.get(); })); es.push_back({ D(*fs.back()), 5, q, k }); break; }
    case 6: if(!es.empty()) { E e = es[r.below(es.size())]; E f = e; f.d = D(); CHECK(f.d.IsEmpty(), "delegate:empty", "a delegate made from nothing is not empty"); f.d = e.d; es.push_back(f); } break;
    case 7:
    {
      Delegate<int, int> v = Delegate<int, int>::From<Pad, &Pad::f>(&o[q]);
      Pad base;
      Delegate<int, int> w = Delegate<int, int>::From<Pad, &Pad::f>(&base);
      CHECK(v(21) == 42 && w(21) == 22, "delegate:virtual", "a delegate to a virtual function called the wrong one");
      Delegate<void, const Trk&, int&> rr = Delegate<void, const Trk&, int&>::From<Callee, &Callee::d>(c);
      int out = 0; Trk t(q + 5); rr(t, out); CHECK(out == q + 6, "delegate:reference", "reference arguments");
      Delegate<void> n = Delegate<void>::From<Callee, &Callee::c>(c);
      size_t l = c->log.size(); n(); CHECK(c->log.size() == l + 1 && c->log.back() == -1, "delegate:void", "a call without arguments"); c->log.pop_back();
      break;
    }
    }
    if(es.empty()) continue;
    E& e = es[r.below(es.size())];
    int x = (int)r.below(100); int y = (int)r.below(900);
    mon::op("call kind %d obj %d (%d,%d)", e.kind, e.obj, x, y);
    size_t l[3] = { o[0].log.size(), o[1].log.size(), o[2].log.size() };
    int64_t got = r.chance(1, 2) ? e.d(x, Trk(y)) : StoreDelegate<int64_t, int, Trk>(e.d, (int)x, Trk(y))();
    int64_t kk = o[e.obj].k, want = e.kind == 0 ? kk + x : e.kind == 1 ? kk * 7 + x - y : e.kind == 2 ? x * 11 + y : e.kind == 3 ? kk * 3 + x + y : e.kind == 4 ? kk * 5 + x + y : e.k * 13 + x - y;
    CHECK(got == want, "delegate:result", "kind %d returned %lld, expected %lld", e.kind, (long long)got, (long long)want);
    for(int i = 0; i < 3; ++i) CHECK(o[i].log.size() == l[i] + (e.kind == 0 && i == e.obj), "delegate:once", "object %d was called %zu times", i, o[i].log.size() - l[i]);
    if(e.kind == 0) CHECK(o[e.obj].log.back() == x * 1000 + y, "delegate:arguments", "the arguments arrived as %lld", (long long)o[e.obj].log.back());
    if(e.kind != 2) CHECK(!e.d.IsEmpty(), "delegate:empty", "a bound delegate is empty");
  }
  std::vector<int64_t> log, want;
  glog = &log;
  {
    auto d1 = defer(&logit, 1, (int64_t)r.below(1000));
    want.insert(want.begin(), 100000 + std::get<1>(d1));
    auto d2 = defer(&logit, 2, (int64_t)r.below(1000));
    want.insert(want.begin(), 200000 + std::get<1>(d2));
    auto d3 = defer(Delegate<void, int, int64_t>::FromC<&logit>(), 3, (int64_t)7);
    want.insert(want.begin(), 300007);
    StoreFunction<void, int, int64_t> st(&logit, 9, (int64_t)4);
    CHECK(log.empty(), "defer:early", "a deferred call ran before the end of its scope");
    st.Call(); st();
    CHECK(log.size() == 2 && log[0] == 900004 && log[1] == 900004, "delegate:store", "a stored call");
    log.clear();
  }
  CHECK(log == want, "defer:order", "deferred calls did not run exactly once in reverse order");
  for(auto f : fs) delete f;
}
struct Sing : Singleton<Sing> { int v; Sing(int x) : v(x) {} Sing(Sing&& m) : Singleton<Sing>(std::move(m)), v(m.v) {} Sing& operator=(Sing&& m) { Singleton<Sing>::operator=(std::move(m)); v = m.v; return *this; } static Sing* I() { return _instance; } };
template<> Sing* Singleton<Sing>::_instance = 0;
static void singleton(Rng& r)
{
  CHECK(!Sing::I(), "singleton:none", "there is an instance before there is an object");
  {
    Sing* a = new Sing(1);
    CHECK(Sing::I() == a, "singleton:first", "the instance is not the object");
    if(r.chance(1, 2)) { Sing* b = new Sing(std::move(*a)); CHECK(Sing::I() == b, "singleton:move", "the instance did not follow the move"); delete a; CHECK(Sing::I() == b, "singleton:move", "destroying the source took the instance away"); a = b; }
    Sing* c = new Sing(2);
    CHECK(Sing::I() == c, "singleton:latest", "the instance is not the latest object");
    if(r.chance(1, 2)) { *a = std::move(*c); CHECK(Sing::I() == a, "singleton:move-assign", "the instance did not follow"); delete c; CHECK(Sing::I() == a, "singleton:move-assign", "lost"); delete a; }
    else { delete a; CHECK(Sing::I() == c, "singleton:other", "destroying another object took the instance away"); delete c; }
  }
  CHECK(!Sing::I(), "singleton:end", "the instance outlived its object");
}
void mon_case(Rng& r, uint64_t c)
{
  switch(r.below(5))
  {
  case 0: variants(r); variants(r); break;
  case 1: ownerptr<OwnerPtr<Trk>>(r); ownerptr<OwnerPtr<Trk, Del>>(r); break;
  case 2: refptr(r); break;
  case 3: delegates(r); break;
  case 4: variants(r); singleton(r); refptr(r); break;
  }
  mon::nontrivial();
}
