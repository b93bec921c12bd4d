// Monitor for the linked containers and the small-buffer array: a sequence model, handle identity, lifetimes.
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/LinkedList.h"
#include "bss-util/LinkedArray.h"
#include "bss-util/CompactArray.h"
#include "bss-util/BlockAlloc.h"
#include <vector>
#include <algorithm>
using namespace bss;
using mon::Rng;
using mon::Trk;
static int big = 0; // elements to start with; when large, everything is compared every 16 operations only
static int V(int v) { return v; }
static int V(short v) { return v; }
static int V(const Trk& v) { return v.get(); }
static int V(const mon::TrkR& v) { return v.get(); }

// ---------------------------------------------------------------- LinkedList (plain elements)
template<class L, bool LAST, bool SIZE>
static void ll_check(L& l, const std::vector<std::pair<LLNode<int>*, int>>& m, Rng& r, const char* nm)
{
  size_t n = 0;
  LLNode<int>* last = 0;
  for(LLNode<int>* c = l.Front(); c; c = c->next, ++n)
  {
    CHECK(n < m.size(), "list:contents", "%s: more than %zu elements", nm, m.size());
    CHECK(c == m[n].first && c->item == m[n].second, "list:contents", "%s: element %zu is %d, expected %d", nm, n, c->item, m[n].second);
    CHECK(c->prev == last, "list:backlink", "%s: element %zu does not link back", nm, n);
    last = c;
  }
  CHECK(n == m.size(), "list:contents", "%s: %zu elements, expected %zu", nm, n, m.size());
  n = 0;
  for(auto i = l.begin(); i != l.end(); ++i, ++n) CHECK(n < m.size() && *i == m[n].second, "list:iterate", "%s: iterator position %zu", nm, n);
  {
    size_t q = 0;
    LLNode<int>* tail = 0;
    for(LLIterator<LLNode<int>> i(l.Front()); i.IsValid(); q++) { auto old = i++; tail = *old; CHECK(q < m.size() && *old == m[q].first && old->item == m[q].second && !!old, "list:node-iterate", "%s: node iterator at %zu", nm, q); }
    CHECK(q == m.size(), "list:node-iterate", "%s: node iterator visits %zu of %zu", nm, q, m.size());
    LLIter<int> back(tail), none;
    LLIterator<LLNode<int>> nback(tail);
    for(; q > 0; --q)
    {
      CHECK(back.IsValid() && !(back == none) && back != none && *back == m[q - 1].second && back.operator->() == &m[q - 1].first->item && *nback == m[q - 1].first, "list:iterate-back", "%s: backward at %zu", nm, q);
      if(q & 1) { --back; --nback; } else { back--; nback--; }
    }
    CHECK(!back && !nback && back == none && !back.IsValid(), "list:iterate-back", "%s: the backward iterator does not end", nm);
    LLIter<int> f(l.Front());
    if(f.IsValid()) { auto g = f++; CHECK(g.cur == m[0].first && f.cur == m[0].first->next, "list:iterate", "%s: it++", nm); }
  }
  CHECK(n == m.size(), "list:iterate", "%s: iterator visits %zu of %zu", nm, n, m.size());
  if constexpr(LAST) CHECK(l.Back() == (m.empty() ? 0 : m.back().first), "list:back", "%s: Back()", nm);
  if constexpr(SIZE) CHECK(l.Length() == m.size(), "list:length", "%s: Length %zu, expected %zu", nm, l.Length(), m.size());
  if(!m.empty())
  {
    int v = (int)r.below(20);
    size_t from = r.below(m.size());
    bool back = r.chance(1, 2);
    // searching from a node goes once around the list
    LLNode<int>* want = 0;
    for(size_t k = 0; k < m.size() && !want; ++k)
    {
      size_t i = (LAST && back) ? (from + m.size() - k) % m.size() : (from + k) % m.size();
      if(m[i].second == v) want = m[i].first;
    }
    LLNode<int>* got;
    if constexpr(LAST) got = l.Item(v, m[from].first, back); else got = l.Item(v, m[from].first);
    CHECK(got == want, "list:item", "%s: Item(%d) from position %zu", nm, v, from);
    CHECK((l.Item(v) != 0) == (want != 0), "list:item", "%s: Item(%d)", nm, v);
  }
}
template<class A, bool LAST, bool SIZE, bool POL>
static void run_list(Rng& r, int steps)
{
  typedef LinkedList<int, A, LAST, SIZE> L;
  BlockPolicy<LLNode<int>>* pol = 0;
  L* l[2];
  if constexpr(POL) { pol = new BlockPolicy<LLNode<int>>(2); l[0] = new L(pol); l[1] = new L(pol); }
  else { l[0] = new L(); l[1] = new L(); }
  std::vector<std::pair<LLNode<int>*, int>> m[2];
  for(int i = 0; i < big; ++i) { int v = (int)r.below(20); m[0].insert(m[0].begin(), { l[0]->Insert(v), v }); }
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k, v = (int)r.below(20);
    L& x = *l[k];
    auto& w = m[k];
    const char* nm = "?";
    int what = (int)r.below(13);
    size_t at = w.empty() ? 0 : r.below(w.size());
    switch(what)
    {
    case 0: case 1: case 2: { nm = "Add"; auto* n = x.Add(v); if(LAST) w.push_back({ n, v }); else w.insert(w.begin(), { n, v }); break; }
    case 3: { nm = "Insert"; auto* n = x.Insert(v); w.insert(w.begin(), { n, v }); break; }
    case 4: case 5: { nm = "Insert(before)"; if(!w.empty()) { auto* n = x.Insert(v, w[at].first); w.insert(w.begin() + at, { n, v }); } else if(LAST) { auto* n = x.Insert(v, (LLNode<int>*)0); w.push_back({ n, v }); } break; }
    case 6: case 7: nm = "Remove"; if(!w.empty()) { x.Remove(w[at].first); w.erase(w.begin() + at); } break;
    case 8: nm = "Remove(dir)"; if(!w.empty()) { bool b = r.chance(1, 2); LLNode<int>* want = b ? (at ? w[at - 1].first : 0) : (at + 1 < w.size() ? w[at + 1].first : 0); CHECK(x.Remove(w[at].first, b) == want, "list:remove-next", "Remove returned another neighbour"); w.erase(w.begin() + at); } else CHECK(!x.Remove((LLNode<int>*)0, false), "list:remove-null", "Remove(null)"); break;
    case 9: nm = "Remove(iter)"; if(!w.empty()) { LLIter<int> i(w[at].first); x.Remove(i); w.erase(w.begin() + at); } break;
    case 10: nm = "Clear"; if(r.chance(1, 4)) { x.Clear(); w.clear(); } break;
    case 11: { nm = "+="; if(w.size() + m[o].size() < 200 + (size_t)big) { x += *l[o]; std::vector<LLNode<int>*> nn; LLNode<int>* c = LAST ? 0 : x.Front(); if constexpr(LAST) { c = x.Back(); for(size_t i = 0; i < m[o].size(); ++i) { CHECK(c != 0, "list:append", "+= appended too little"); nn.push_back(c); c = c->prev; } std::reverse(nn.begin(), nn.end()); for(size_t i = 0; i < m[o].size(); ++i) w.push_back({ nn[i], m[o][i].second }); }
      else { for(size_t i = 0; i < m[o].size(); ++i) { CHECK(c != 0, "list:append", "+= appended too little"); nn.push_back(c); c = c->next; } std::reverse(nn.begin(), nn.end()); for(size_t i = 0; i < m[o].size(); ++i) w.insert(w.begin(), { nn[i], m[o][i].second }); } } break; }
    case 12: nm = "MoveAssign"; if(r.chance(1, 3)) { *l[o] = std::move(x); m[o] = w; w.clear(); } break;
    }
    mon::op("list%d %s at=%zu v=%d n=%zu", k, nm, at, v, w.size());
    mon::feature(what * 100 + w.size());
    if(big && s % 16) continue;
    ll_check<L, LAST, SIZE>(*l[k], m[k], r, nm);
    ll_check<L, LAST, SIZE>(*l[o], m[o], r, nm);
  }
  delete l[0];
  delete l[1];
  delete pol;
}

// ---------------------------------------------------------------- the intrusive list helpers
struct INode : LLBase<INode> { int id; bool in; LLBase<INode> alt; };
static LLBase<INode>& altof(INode* n) { return n->alt; }
static void run_intrusive(Rng& r, int steps)
{
  INode pool[24];
  for(int i = 0; i < 24; ++i) { memset(&pool[i], 0, sizeof(INode)); pool[i].id = i; pool[i].next = pool[i].prev = (INode*)0x10; }
  INode *root = 0, *last = 0, *alt = 0;
  std::vector<INode*> m, ma;
  for(int s = 0; s < steps; ++s)
  {
    INode* n = &pool[r.below(24)];
    const char* nm = "?";
    size_t at = m.empty() ? 0 : r.below(m.size());
    if(!n->in)
    {
      n->in = true;
      switch(r.below(6))
      {
      case 0: nm = "LLAdd"; LLAdd(n, root, last); m.insert(m.begin(), n); break;
      case 1: nm = "LLAddAfter"; LLAddAfter(n, root, last); m.push_back(n); break;
      case 2: nm = "LLAddAfter="; if(m.empty()) { n->in = false; break; } last = LLAddAfter(n, last); m.push_back(n); break;
      case 3: nm = "LLInsert"; if(m.empty()) { n->in = false; break; } LLInsert(n, m[at], root); m.insert(m.begin() + at, n); break;
      case 4: nm = "LLInsertAfter"; if(m.empty()) { n->in = false; break; } LLInsertAfter(n, m[at], last); m.insert(m.begin() + at + 1, n); break;
      case 5: // the forms that leave the ends alone, away from the ends
        if(m.size() < 2) { n->in = false; break; }
        at = 1 + r.below(m.size() - 1);
        if(r.chance(1, 2)) { nm = "LLInsert(inner)"; LLInsert(n, m[at]); m.insert(m.begin() + at, n); }
        else { nm = "LLInsertAfter(inner)"; LLInsertAfter(n, m[at - 1]); m.insert(m.begin() + at, n); }
        break;
      }
    }
    else
    {
      auto it = std::find(m.begin(), m.end(), n);
      bool inner = it != m.begin() && it + 1 != m.end(), islast = it + 1 == m.end();
      m.erase(it);
      n->in = false;
      if(inner && r.chance(1, 3)) { nm = "LLRemove(inner)"; LLRemove(n); }
      else if(!islast && r.chance(1, 3)) { nm = "LLRemove(root)"; LLRemove(n, root); }
      else { nm = "LLRemove"; LLRemove(n, root, last); }
    }
    INode* a = &pool[r.below(24)];
    auto ia = std::find(ma.begin(), ma.end(), a);
    if(ia == ma.end()) { AltLLAdd<INode, altof>(a, alt); ma.insert(ma.begin(), a); }
    else { AltLLRemove<INode, altof>(a, alt); ma.erase(ia); }
    mon::op("%s node %d n=%zu", nm, n->id, m.size());
    size_t k = 0;
    INode* p = 0;
    for(INode* c = root; c; p = c, c = c->next, ++k) CHECK(k < m.size() && c == m[k] && c->prev == p, "intrusive:contents", "%s: position %zu", nm, k);
    CHECK(k == m.size() && last == p, "intrusive:ends", "%s: %zu of %zu nodes, or the wrong end", nm, k, m.size());
    k = 0;
    p = 0;
    for(INode* c = alt; c; p = c, c = c->alt.next, ++k) CHECK(k < ma.size() && c == ma[k] && c->alt.prev == p, "intrusive:alt", "second list: position %zu", k);
    CHECK(k == ma.size(), "intrusive:alt", "second list has %zu of %zu nodes", k, ma.size());
  }
}

// ---------------------------------------------------------------- LinkedArray
template<class T, class CT, ARRAY_TYPE AT>
static void run_larray(Rng& r, int steps)
{
  typedef LinkedArray<T, CT, AT> L;
  L* l[2] = { new L(), new L((CT)r.below(5)) };
  std::vector<std::pair<CT, int>> m[2]; // handle, value in list order
  size_t maxn = sizeof(CT) == 1 ? 60 : 300 + big * 2;
  for(int i = 0; i < big && (size_t)i < maxn; ++i) { int v = (int)r.below(1000); CT h = l[0]->Add(T(v)); m[0].push_back({ h, v }); }
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k, v = (int)r.below(1000);
    L& x = *l[k];
    auto& w = m[k];
    const char* nm = "?";
    int what = (int)r.below(16);
    if(w.size() >= maxn && what < 6) what = 6;
    size_t at = w.empty() ? 0 : r.below(w.size());
    auto fresh = [&](CT h) { for(auto& p : w) CHECK(p.first != h, "larray:handle", "%s returned a handle that is in use", nm); };
    switch(what)
    {
    case 0: { nm = "Add&&"; CT h = x.Add(T(v)); fresh(h); w.push_back({ h, v }); break; }
    case 1: { nm = "Add&"; T t(v); CT h = x.Add((const T&)t); fresh(h); w.push_back({ h, v }); CHECK(V(t) == v, "larray:argument", "Add changed its argument"); break; }
    case 2: case 3: { nm = "InsertBefore"; CT h; if(!w.empty() && r.chance(5, 6)) { if(r.chance(1, 2)) h = x.InsertBefore(T(v), w[at].first); else { T t(v); h = x.InsertBefore((const T&)t, w[at].first); } fresh(h); w.insert(w.begin() + at, { h, v }); } else { h = x.InsertBefore(T(v), (CT)-1); fresh(h); w.push_back({ h, v }); } break; }
    case 4: case 5: { nm = "InsertAfter"; T t(v); CT h; if(!w.empty() && r.chance(5, 6)) { h = r.chance(1, 2) ? x.InsertAfter((const T&)t, w[at].first) : x.InsertAfter(T(v), w[at].first); fresh(h); w.insert(w.begin() + at + 1, { h, v }); } else { h = x.InsertAfter(T(v), (CT)-1); fresh(h); w.push_back({ h, v }); } break; }
    case 6: case 7: case 8: nm = "Remove"; if(!w.empty() && what == 8 && r.chance(1, 3)) { nm = "iter.Remove"; auto i = x.begin(); for(size_t z = 0; z < at; ++z) ++i; (i++).Remove(); CHECK(at + 1 < w.size() ? i.cur == w[at + 1].first : !i, "larray:iter-remove", "(it++).Remove() lost the place"); w.erase(w.begin() + at); break; }
      if(!w.empty()) { T t(x.Remove(w[at].first)); CHECK(V(t) == w[at].second, "larray:remove", "Remove returned %d, expected %d", V(t), w[at].second); w.erase(w.begin() + at); } break;
    case 9: nm = "Write"; if(!w.empty()) { x[w[at].first] = T(v); w[at].second = v; } break;
    case 10: { nm = "SetCapacity"; CT c = (CT)r.below(maxn); x.SetCapacity(c); CHECK(x.Capacity() >= c, "larray:capacity", "capacity %zu after SetCapacity(%zu)", (size_t)x.Capacity(), (size_t)c); break; }
    case 11: nm = "Clear"; if(r.chance(1, 5)) { x.Clear(); w.clear(); } break;
    case 12: nm = "CopyAssign"; if(r.chance(1, 5)) { L& y = x; x = y; } else { *l[o] = x; m[o] = w; } break;
    case 13: { nm = "CopyConstruct"; L n(x); CHECK((size_t)n.Length() == w.size(), "larray:copy", "copy has another length"); n.Add(T(v)); if(!w.empty()) n[w[at].first] = T(v + 1); break; }
    case 14: { nm = "MoveConstruct"; L* n = new L(std::move(x)); CHECK(x.Length() == 0 && x.Front() == (CT)-1 && x.Back() == (CT)-1, "larray:moved-from", "moved-from array is not empty"); if(r.chance(1, 2)) { CT h = x.Add(T(v)); CHECK(x.Length() == 1 && V(x[h]) == v, "larray:moved-from", "adding to a moved-from array"); } delete l[k]; l[k] = n; break; }
    case 15: nm = "MoveAssign"; if(r.chance(1, 3)) { *l[o] = std::move(x); m[o] = w; w.clear(); } break;
    }
    mon::op("larray%d %s at=%zu v=%d n=%zu", k, nm, at, v, w.size());
    mon::feature(what * 1000 + w.size());
    if(big && s % 16) continue;
    for(int j = 0; j < 2; ++j)
    {
      L& y = *l[j];
      const L& cy = y;
      auto& u = m[j];
      CHECK((size_t)y.Length() == u.size(), "larray:length", "%s: length %zu, expected %zu", nm, (size_t)y.Length(), u.size());
      size_t n = 0;
      for(CT c = y.Front(); c != (CT)-1; y.Next(c), ++n)
      {
        CHECK(n < u.size() && c == u[n].first && V(y[c]) == u[n].second && V(*y.GetItemPtr(c)) == u[n].second, "larray:contents", "%s: position %zu", nm, n);
      }
      CHECK(n == u.size(), "larray:contents", "%s: forward walk visits %zu of %zu", nm, n, u.size());
      for(CT c = y.Back(); c != (CT)-1; y.Prev(c), --n) CHECK(n > 0 && c == u[n - 1].first, "larray:backward", "%s: backward position %zu", nm, n);
      CHECK(n == 0, "larray:backward", "%s: backward walk stops early", nm);
      for(auto i = cy.begin(); i != cy.end(); ++i, ++n) CHECK(n < u.size() && V(*i) == u[n].second, "larray:iterate", "%s: position %zu", nm, n);
      {
        size_t q = 0;
        auto i = y.begin();
        CT lastc = (CT)-1;
        for(; i != y.end(); ++q) { CHECK(q < u.size() && i.cur == u[q].first && V(*i) == u[q].second && i.operator->() == &y[u[q].first] && i.IsValid() && !!i && V(cy[i.cur]) == u[q].second, "larray:iterate", "%s: mutable iterator at %zu", nm, q); lastc = i.cur; if(q & 1) ++i; else { auto o2 = i++; CHECK(o2.cur == lastc, "larray:iterate", "%s: it++", nm); } }
        CHECK(q == u.size() && i == y.end() && !i, "larray:iterate", "%s: mutable iterator visits %zu of %zu", nm, q, u.size());
        auto bi = cy.begin();
        bi.cur = lastc;
        for(; q > 0; --q) { CHECK(bi != cy.end() && V(*bi) == u[q - 1].second, "larray:iterate-back", "%s: at %zu", nm, q); if(q & 1) --bi; else bi--; }
        CHECK(bi == cy.end(), "larray:iterate-back", "%s: backward iteration does not end", nm);
      }
      CHECK(n == u.size(), "larray:iterate", "%s: iterator visits %zu of %zu", nm, n, u.size());
    }
  }
  delete l[0];
  delete l[1];
}

// ---------------------------------------------------------------- CompactArray
template<class T, int I, class CT>
static void run_compact(Rng& r, int steps)
{
  typedef CompactArray<T, I, CT> A;
  A* a[2] = { new A(), new A() };
  std::vector<int> m[2];
  size_t maxn = 80 + big;
  for(int i = 0; i < big; ++i) { a[0]->Add((T)(i * 7)); m[0].push_back(i * 7); }
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k, v = (int)r.below(200);
    A& x = *a[k];
    auto& w = m[k];
    const char* nm = "?";
    int what = (int)r.below(16);
    if(w.size() >= maxn && what < 4) what = 4;
    switch(what)
    {
    case 0: case 1: { nm = "Add"; size_t i = x.Add((T)v); CHECK(i == w.size(), "compact:add-index", "Add returned %zu, expected %zu", i, w.size()); w.push_back(v); break; }
    case 2: case 3: { nm = "Insert"; size_t i = r.below(w.size() + 1); x.Insert((T)v, (CT)i); w.insert(w.begin() + i, v); break; }
    case 4: case 5: nm = "Remove"; if(!w.empty()) { size_t i = r.below(w.size()); x.Remove((CT)i); w.erase(w.begin() + i); } break;
    case 6: nm = "RemoveLast"; if(!w.empty()) { x.RemoveLast(); w.pop_back(); } break;
    case 7: { nm = "SetLength"; size_t n = r.below(std::min(maxn, w.size() * 2 + 4)), old = w.size(); x.SetLength((CT)n); w.resize(n, 0); for(size_t i = old; i < n; ++i) { x[i] = (T)(v + i); w[i] = (int)(v + i); } break; }
    case 8: { nm = "SetCapacity"; size_t n = w.size() + r.below(20); x.SetCapacity((CT)n); CHECK((size_t)x.Capacity() >= n, "compact:capacity", "capacity %zu after %zu", (size_t)x.Capacity(), n); break; }
    case 9: nm = "Clear"; if(r.chance(1, 3)) { x.Clear(); w.clear(); } break;
    case 10: { nm = "Set"; T src[12]; if(r.chance(1, 4) && !w.empty()) { nm = "Front="; x.Front() = (T)v; w[0] = v; x.Back() = (T)(v + 1); w.back() = v + 1; break; } size_t n = r.below(12); w.clear(); for(size_t i = 0; i < n; ++i) { src[i] = (T)(v + i); w.push_back((int)(v + i)); } if(r.chance(1, 2)) x.Set(src, (CT)n); else x = Slice<const T, CT>(src, (CT)n); break; }
    case 11: nm = "CopyAssign"; if(r.chance(1, 5)) { A& y = x; x = y; } else { *a[o] = x; m[o] = w; } break;
    case 12: nm = "MoveAssign"; *a[o] = std::move(x); m[o] = w; w.clear(); break;
    case 13: { nm = "CopyConstruct"; A n(x); CHECK((size_t)n.Length() == w.size() && std::equal(w.begin(), w.end(), n.begin(), [](int p, const T& q) { return (T)p == q; }), "compact:copy", "copy differs"); if(!w.empty()) n[0] = (T)(w[0] + 1); n.Add((T)1); break; }
    case 14: { nm = "MoveConstruct"; A* n = new A(std::move(x)); CHECK(x.Length() == 0, "compact:moved-from", "moved-from array not empty"); x.Add((T)3); delete a[k]; a[k] = n; break; }
    case 15: { nm = "InitList"; if(r.chance(1, 2)) { A n({ (T)v, (T)(v + 1) }); CHECK(n.Length() == 2 && n[0] == (T)v && n[1] == (T)(v + 1), "compact:init-list", "initializer list contents"); } else { A n({ (T)v, (T)(v + 1), (T)(v + 2), (T)(v + 3), (T)(v + 4) }); CHECK(n.Length() == 5 && n[0] == (T)v && n[4] == (T)(v + 4), "compact:init-list", "initializer list contents"); } break; }
    }
    mon::op("compact%d %s v=%d n=%zu", k, nm, v, m[k].size());
    mon::feature(what * 1000 + m[k].size());
    if(big && s % 16) continue;
    for(int j = 0; j < 2; ++j)
    {
      A& y = *a[j];
      const A& cy = y;
      CHECK((size_t)y.Length() == m[j].size() && y.Empty() == m[j].empty(), "compact:length", "%s: length %zu, expected %zu", nm, (size_t)y.Length(), m[j].size());
      CHECK((size_t)(y.end() - y.begin()) == m[j].size() && (size_t)(cy.end() - cy.begin()) == m[j].size(), "compact:range", "%s: begin/end", nm);
      CHECK((size_t)y.Capacity() >= m[j].size(), "compact:capacity", "%s: capacity below length", nm);
      for(size_t i = 0; i < m[j].size(); ++i) CHECK(y[i] == (T)m[j][i] && cy.begin()[i] == (T)m[j][i], "compact:contents", "%s: element %zu", nm, i);
      if(!m[j].empty()) CHECK(y.Front() == (T)m[j].front() && y.Back() == (T)m[j].back() && (T*)y == y.begin() && (const T*)cy == cy.begin(), "compact:ends", "%s: mutable Front/Back", nm);
      if(!m[j].empty()) CHECK(cy.Front() == (T)m[j].front() && cy.Back() == (T)m[j].back(), "compact:ends", "%s: Front/Back", nm);
    }
  }
  delete a[0];
  delete a[1];
}

void mon_case(Rng& r, uint64_t c)
{
  int steps = 20 + (int)r.below(150);
  big = r.chance(1, 200) ? 200 + (int)r.below(1500) : 0;
  if(big) mon::ev("large");
  typedef StandardAllocator<LLNode<int>> SA;
  typedef PolymorphicAllocator<LLNode<int>, BlockPolicy> PA;
  switch(c % 15)
  {
  case 14: run_intrusive(r, steps); mon::ev("intrusive"); break;
  case 0: run_list<SA, true, true, false>(r, steps); mon::ev("list<last,size>"); break;
  case 1: run_list<SA, false, true, false>(r, steps); mon::ev("list<size>"); break;
  case 2: run_list<SA, true, false, false>(r, steps); mon::ev("list<last>"); break;
  case 3: run_list<SA, false, false, false>(r, steps); mon::ev("list"); break;
  case 4: run_list<PA, true, true, true>(r, steps); mon::ev("list<pool>"); break;
  case 5: run_larray<int, size_t, ARRAY_SIMPLE>(r, steps); mon::ev("larray<int>"); break;
  case 6: run_larray<Trk, size_t, ARRAY_SAFE>(r, steps); mon::ev("larray<tracked>"); break;
  case 7: run_larray<mon::TrkR, uint32_t, ARRAY_CONSTRUCT>(r, steps); mon::ev("larray<relocatable>"); break;
  case 8: run_larray<int, uint8_t, ARRAY_SIMPLE>(r, steps); mon::ev("larray<int,u8>"); break;
  case 9: run_compact<int, 2, size_t>(r, steps); mon::ev("compact<int,2>"); break;
  case 10: run_compact<size_t, 3, size_t>(r, steps); mon::ev("compact<size_t,3>"); break;
  case 11: run_compact<short, 7, uint32_t>(r, steps); mon::ev("compact<short,7>"); break;
  case 12: run_compact<double, 1, uint32_t>(r, steps); mon::ev("compact<double,1>"); break;
  case 13: run_compact<char, 16, uint16_t>(r, steps); mon::ev("compact<char,16>"); break;
  }
  mon::nontrivial();
}
