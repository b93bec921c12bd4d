// Monitor for the order-preserving containers: circular array, queue, stack.
#include "mon.h"
#include "bss-util/ArrayCircular.h"
#include "bss-util/Queue.h"
#include "bss-util/Stack.h"
#include <deque>
#include <vector>
using namespace bss;
using mon::Rng;

static int big = 0; // elements to start with
template<class T> static int val(const T& t) { return (int)t; }
template<class T> static T make(int v) { return T(v); }

// model: front() = most recent
template<class A, class T>
static void cmp_circ(A& a, const std::deque<int>& m, const char* what)
{
  const A& ca = a;
  CHECK((size_t)a.Length() == m.size(), "circular:length", "%s: length %zu, expected %zu", what, (size_t)a.Length(), m.size());
  CHECK(a.Length() <= a.Capacity(), "circular:capacity", "%s: more elements than capacity", what);
  for(size_t i = 0; i < m.size(); ++i)
    CHECK(val(ca[i]) == m[i], "circular:element", "%s: [%zu] is %d, expected %d (length %zu capacity %zu)", what, i, val(ca[i]), m[i], m.size(), (size_t)a.Capacity());
  size_t n = 0;
  for(auto& e : a) { CHECK(n < m.size() && val(e) == m[n], "circular:iterate", "%s: iteration at %zu", what, n); ++n; }
  CHECK(n == m.size(), "circular:iterate", "%s: iteration visited %zu of %zu", what, n, m.size());
  n = 0;
  for(auto it = ca.begin(); !(it == ca.end()); it++, ++n) CHECK(n < m.size() && val(*it) == m[n], "circular:iterate", "%s: const iteration at %zu", what, n);
  CHECK(n == m.size(), "circular:iterate", "%s: const iteration visited %zu of %zu", what, n, m.size());
  auto bk = a.end();
  while(n > 0) { if(n & 1) --bk; else bk--; --n; CHECK(val(*bk) == m[n], "circular:iterate", "%s: backward iteration at %zu", what, n); }
  CHECK(bk == a.begin() && !(bk != a.begin()), "circular:iterate", "%s: backward iteration does not end at begin", what);
  if(!m.empty())
    CHECK(val(a.Front()) == m.front() && val(ca.Back()) == m.back() && val(ca.Front()) == m.front() && val(a.Back()) == m.back(), "circular:front-back", "%s: Front/Back", what);
}

template<class T, class CT, ARRAY_TYPE AT>
static void run_circular(Rng& r, int steps)
{
  typedef ArrayCircular<T, CT, AT> A;
  A* a[2] = { new A((CT)(1 + r.below(9))), new A((CT)(1 + r.below(20))) };
  std::deque<int> m[2];
  int ctr = 1;
  int bias = (int)r.below(3);
  if(big)
  {
    a[0]->SetCapacity((CT)(big + r.below(3)));
    for(int i = (int)r.below(big * 2); i > 0; --i) { a[0]->Push(make<T>(ctr)); m[0].push_front(ctr++); if(m[0].size() > (size_t)a[0]->Capacity()) m[0].pop_back(); }
  }
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k;
    A& x = *a[k];
    auto& v = m[k];
    int what = (int)r.below(15);
    if(what > 5 && what < 14 && r.chance(1, 2)) what = bias == 0 ? 0 : bias == 1 ? (int)r.below(2) * 3 : (int)r.below(6);
    size_t arg = 0;
    const char* nm = "?";
    if(x.Capacity() == 0 && what < 3) what = 8;
    switch(what)
    {
    case 0: case 1: { nm = "Push&&"; x.Push(make<T>(ctr)); v.push_front(ctr++); if(v.size() > (size_t)x.Capacity()) v.pop_back(); break; }
    case 2: { nm = "Push&"; T t(make<T>(ctr)); x.Push((const T&)t); v.push_front(ctr++); if(v.size() > (size_t)x.Capacity()) v.pop_back(); CHECK(val(t) == ctr - 1, "circular:argument", "Push(const&) changed its argument"); break; }
    case 3: case 4: nm = "PopBack"; if(!v.empty()) { T t(x.PopBack()); CHECK(val(t) == v.back(), "circular:popback", "PopBack gave %d, expected the oldest %d", val(t), v.back()); v.pop_back(); } break;
    case 5: nm = "Pop"; if(!v.empty()) { T t(x.Pop()); CHECK(val(t) == v.front(), "circular:pop", "Pop gave %d, expected the newest %d", val(t), v.front()); v.pop_front(); } break;
    case 6: nm = "Clear"; if(r.chance(1, 3)) { x.Clear(); v.clear(); } break;
    case 7: case 8: { nm = "SetCapacity(grow)"; arg = x.Capacity() + 1 + r.below(x.Capacity() < 60 ? 9 : 1); if(arg < 120 + (size_t)big * 2) { x.SetCapacity((CT)arg); CHECK((size_t)x.Capacity() == arg, "circular:capacity", "capacity %zu after asking for %zu", (size_t)x.Capacity(), arg); } break; }
    case 9: { nm = "SetCapacity(shrink)"; if(r.chance(1, 4)) { arg = 1 + r.below(x.Capacity() ? x.Capacity() : 1); bool shr = arg < (size_t)x.Capacity(); x.SetCapacity((CT)arg); if(shr) v.clear(); } break; }
    case 10: { nm = "CopyConstruct"; A n(x); cmp_circ<A, T>(n, v, "copy"); if(n.Capacity()) n.Push(make<T>(7)); break; }
    case 11: { nm = "CopyAssign"; if(r.chance(1, 4)) { A& y = x; x = y; } else { *a[o] = x; m[o] = v; } break; }
    case 12: { nm = "MoveConstruct"; A* n = new A(std::move(x)); CHECK(x.Length() == 0, "circular:moved-from", "moved-from array not empty"); delete a[k]; a[k] = n; break; }
    case 14: { nm = "[]="; if(!v.empty()) { arg = r.below(v.size()); x[(CT)arg] = make<T>(ctr); v[arg] = ctr++; if(r.chance(1, 2)) { x.Front() = make<T>(ctr); v.front() = ctr++; x.Back() = make<T>(ctr); v.back() = ctr++; } } break; }
    case 13: { nm = "MoveAssign"; if(r.chance(1, 2)) { *a[o] = std::move(x); m[o] = v; v.clear(); x.SetCapacity((CT)(1 + r.below(6))); } break; }
    }
    mon::op("circ%d %s(%zu) len=%zu cap=%zu", k, nm, arg, m[k].size(), (size_t)a[k]->Capacity());
    mon::feature(what * 9973ull + m[k].size() * 211 + (size_t)a[k]->Capacity());
    if(big && s % 10) continue;
    cmp_circ<A, T>(*a[0], m[0], nm);
    cmp_circ<A, T>(*a[1], m[1], nm);
  }
  delete a[0];
  delete a[1];
}

template<class T, class CT, ARRAY_TYPE AT>
static void run_queue(Rng& r, int steps)
{
  typedef Queue<T, CT, AT> Q;
  Q* q[2] = { new Q(), new Q((CT)r.below(7)) };
  std::deque<int> m[2]; // front = oldest
  int ctr = 1;
  for(int i = 0; i < big; ++i)
  {
    q[0]->Push(make<T>(ctr)); m[0].push_back(ctr++);
    if(r.chance(1, 5)) { T t(q[0]->Pop()); CHECK(val(t) == m[0].front(), "queue:fifo", "Pop gave %d, expected %d", val(t), m[0].front()); m[0].pop_front(); }
  }
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k;
    Q& x = *q[k];
    auto& v = m[k];
    const char* nm = "?";
    int what = (int)r.below(12);
    int phase = (s / 25) % 3; // growing, steady, draining
    if(what >= 8 && r.chance(2, 3)) what = phase == 0 ? 0 : phase == 1 ? (int)r.below(2) * 3 : 3;
    switch(what)
    {
    case 0: case 1: { nm = "Push&&"; int n = 1 + (int)r.below(4); while(n--) { x.Push(make<T>(ctr)); v.push_back(ctr++); } break; }
    case 2: { nm = "Push&"; T t(make<T>(ctr)); x.Push((const T&)t); v.push_back(ctr++); break; }
    case 3: case 4: { nm = "Pop"; int n = 1 + (int)r.below(4); while(n-- && !v.empty()) { T t(x.Pop()); CHECK(val(t) == v.front(), "queue:fifo", "Pop gave %d, expected %d", val(t), v.front()); v.pop_front(); } break; }
    case 5: nm = "Discard"; if(!v.empty()) { x.Discard(); v.pop_front(); } break;
    case 6: nm = "Clear"; if(r.chance(1, 5)) { x.Clear(); v.clear(); } break;
    case 7: { nm = "CopyConstruct"; Q n(x); auto c = v; while(!c.empty()) { T t(n.Pop()); CHECK(val(t) == c.front(), "queue:copy", "copied queue pops %d, expected %d", val(t), c.front()); c.pop_front(); } CHECK(n.Empty(), "queue:copy", "copied queue has extra elements"); break; }
    case 8: { nm = "CopyAssign"; if(r.chance(1, 4)) { Q& y = x; x = y; } else { *q[o] = x; m[o] = v; } break; }
    case 9: { nm = "MoveConstruct"; Q* n = new Q(std::move(x)); delete q[k]; q[k] = n; break; }
    case 10: { nm = "MoveAssign"; *q[o] = std::move(x); m[o] = v; v.clear(); break; }
    case 11: nm = "PeekWrite"; if(!v.empty()) { x.Peek() = make<T>(ctr); v.front() = ctr++; } break;
    }
    mon::op("queue%d %s len=%zu", k, nm, m[k].size());
    for(int i = 0; i < 2; ++i)
    {
      CHECK((size_t)q[i]->Length() == m[i].size() && q[i]->Empty() == m[i].empty(), "queue:length", "%s: length %zu, expected %zu", nm, (size_t)q[i]->Length(), m[i].size());
      CHECK(q[i]->Capacity() >= q[i]->Length(), "queue:capacity", "%s", nm);
      if(!m[i].empty()) CHECK(val(q[i]->Peek()) == m[i].front() && val(((const Q*)q[i])->Peek()) == m[i].front(), "queue:peek", "%s: Peek gives %d, expected %d", nm, val(q[i]->Peek()), m[i].front());
    }
    mon::feature(what * 9967ull + m[k].size() * 211 + (size_t)q[k]->Capacity() + 55555);
  }
  for(int i = 0; i < 2; ++i)
  {
    if(r.chance(1, 2))
    {
      while(!m[i].empty()) { T t(q[i]->Pop()); CHECK(val(t) == m[i].front(), "queue:fifo", "drain gave %d, expected %d", val(t), m[i].front()); m[i].pop_front(); }
      CHECK(q[i]->Empty(), "queue:length", "drained queue is not empty");
    }
    delete q[i];
  }
}

template<class T, class CT, ARRAY_TYPE AT>
static void run_stack(Rng& r, int steps)
{
  typedef Stack<T, CT, AT> S;
  S a((CT)r.below(5)), b;
  S* st[2] = { &a, &b };
  std::vector<int> m[2];
  int ctr = 1;
  for(int i = 0; i < big; ++i) { a.Push(make<T>(ctr)); m[0].push_back(ctr++); }
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k;
    S& x = *st[k];
    auto& v = m[k];
    const char* nm = "?";
    switch(r.below(13))
    {
    case 0: case 1: case 2: { nm = "Push&&"; int n = 1 + (int)r.below(5); while(n--) { x.Push(make<T>(ctr)); v.push_back(ctr++); } break; }
    case 3: { nm = "Push&"; T t(make<T>(ctr)); x.Push((const T&)t); v.push_back(ctr++); break; }
    case 4: case 5: nm = "Pop"; if(!v.empty()) { T t(x.Pop()); CHECK(val(t) == v.back(), "stack:lifo", "Pop gave %d, expected %d", val(t), v.back()); v.pop_back(); } break;
    case 6: nm = "Discard"; if(!v.empty()) { x.Discard(); v.pop_back(); } break;
    case 7: nm = "Clear"; if(r.chance(1, 5)) { x.Clear(); v.clear(); } break;
    case 8: nm = "Truncate"; { size_t n = r.below(v.size() + 1); x.SetLength((CT)n); v.resize(n); } break;
    case 9: nm = "CopyAssign"; if(r.chance(1, 4)) { S& y = x; x = y; } else { *st[o] = x; m[o] = v; } break;
    case 11: nm = "[]="; if(!v.empty()) { size_t i = r.below(v.size()); x[(CT)i] = make<T>(ctr); v[i] = ctr++; x.Peek() = make<T>(ctr); v.back() = ctr++; } break;
    case 10: nm = "MoveAssign"; *st[o] = std::move(x); m[o] = v; v.clear(); break;
    case 12:
    {
      nm = "Copy";
      S y(x);
      CHECK((size_t)y.Length() == v.size() && (size_t)x.Length() == v.size(), "stack:copy", "a copy has %zu items, expected %zu", (size_t)y.Length(), v.size());
      for(size_t i = 0; i < v.size(); ++i) CHECK(val(y[(CT)i]) == v[i], "stack:copy", "item %zu of a copy is %d, expected %d", i, val(y[(CT)i]), v[i]);
      y.Push(make<T>(ctr));
      S z(std::move(y));
      CHECK((size_t)z.Length() == v.size() + 1 && val(z.Peek()) == ctr, "stack:move", "a moved stack has %zu items", (size_t)z.Length());
      ++ctr;
      z.Discard();
      x = z;
      break;
    }
    }
    mon::op("stack%d %s len=%zu", k, nm, m[k].size());
    for(int i = 0; i < 2; ++i)
    {
      const S& cs = *st[i];
      CHECK((size_t)cs.Length() == m[i].size() && (size_t)cs.Capacity() >= m[i].size(), "stack:length", "%s: length %zu, expected %zu", nm, (size_t)cs.Length(), m[i].size());
      if(!m[i].empty()) CHECK(val(cs.Peek()) == m[i].back() && val(st[i]->Peek()) == m[i].back(), "stack:peek", "%s: Peek", nm);
      for(size_t j = 0; j < m[i].size(); ++j) CHECK(val(cs[j]) == m[i][j], "stack:element", "%s: [%zu] is %d, expected %d", nm, j, val(cs[j]), m[i][j]);
    }
  }
}

void mon_case(Rng& r, uint64_t c)
{
  int steps = 20 + (int)r.below(200);
  big = r.chance(1, 200) ? 150 + (int)r.below(2000) : 0;
  if(big) mon::ev("large");
  switch(c % 10)
  {
  case 0: run_circular<int, ptrdiff_t, ARRAY_SIMPLE>(r, steps); mon::ev("circular<int>"); break;
  case 1: run_circular<mon::Trk, ptrdiff_t, ARRAY_SAFE>(r, steps); mon::ev("circular<tracked>"); break;
  case 2: run_circular<mon::TrkR, int, ARRAY_CONSTRUCT>(r, steps); mon::ev("circular<relocatable>"); break;
  case 3: run_circular<mon::Trk, short, ARRAY_SAFE>(r, steps); mon::ev("circular<tracked,short>"); break;
  case 4: run_queue<int, ptrdiff_t, ARRAY_SIMPLE>(r, steps); mon::ev("queue<int>"); break;
  case 5: run_queue<mon::Trk, ptrdiff_t, ARRAY_SAFE>(r, steps); mon::ev("queue<tracked>"); break;
  case 6: run_queue<mon::TrkR, int, ARRAY_CONSTRUCT>(r, steps); mon::ev("queue<relocatable>"); break;
  case 7: run_stack<int, size_t, ARRAY_SIMPLE>(r, steps); mon::ev("stack<int>"); break;
  case 8: run_stack<mon::Trk, uint32_t, ARRAY_SAFE>(r, steps); mon::ev("stack<tracked>"); break;
  case 9: run_stack<mon::TrkR, size_t, ARRAY_CONSTRUCT>(r, steps); mon::ev("stack<relocatable>"); break;
  }
  mon::nontrivial();
}
