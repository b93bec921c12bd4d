// Monitor for bit-granular storage: DynArray<bool>, BitField, BitStream, and the bit-counting helpers they rest on.
#include "mon.h"
#include "bss-util/DynArray.h"
#include "bss-util/BitField.h"
#include "bss-util/BitStream.h"
#include <vector>
#include <sstream>
#include <string>
#include <algorithm>
using namespace bss;
using mon::Rng;

template<class A>
static void compare(A& a, const std::vector<char>& m, const char* what, Rng& r)
{
  const A& ca = a;
  CHECK(a.Length() == m.size() && a.Empty() == m.empty(), "bits:length", "%s: length %zu, expected %zu", what, (size_t)a.Length(), m.size());
  for(size_t i = 0; i < m.size(); ++i)
  {
    CHECK(ca[i] == (m[i] != 0), "bits:bit", "%s: bit %zu is %d, expected %d (length %zu)", what, i, (int)ca[i], m[i], m.size());
    CHECK((bool)a[i] == (m[i] != 0), "bits:bitref", "%s: reference to bit %zu reads wrong", what, i);
  }
  if(!m.empty())
  {
    size_t n = 0;
    for(auto it = a.begin(); it != a.end() && n <= m.size(); ++it, ++n)
      CHECK(n < m.size() && (bool)*it == (m[n] != 0), "bits:iterate", "%s: iterator at %zu reads wrong", what, n);
    CHECK(n == m.size(), "bits:iterate", "%s: iteration visited %zu of %zu", what, n, m.size());
    auto it = a.end();
    for(size_t k = m.size(); k-- > 0;) { --it; CHECK((bool)*it == (m[k] != 0), "bits:iterate-back", "%s: backward iterator at %zu reads wrong", what, k); }
    it = a.begin();
    for(size_t k = 0; k < m.size(); ++k) { CHECK((bool)*it++ == (m[k] != 0), "bits:iterate-post", "%s: it++ at %zu reads wrong", what, k); }
    CHECK(it == a.end(), "bits:iterate-post", "%s: it++ does not end at end", what);
    it--;
    CHECK((bool)*it == (m.back() != 0), "bits:iterate-post", "%s: it-- from the end reads wrong", what);
    n = 0;
    for(auto ci = ca.begin(); ci != ca.end() && n <= m.size(); ++ci, ++n) CHECK(n < m.size() && (bool)*ci == (m[n] != 0), "bits:iterate-const", "%s: const iterator at %zu", what, n);
    CHECK(n == m.size(), "bits:iterate-const", "%s: const iteration visited %zu of %zu", what, n, m.size());
    CHECK((bool)a.Front() == (m.front() != 0) && (bool)a.Back() == (m.back() != 0), "bits:front-back", "%s: Front/Back", what);
    CHECK(ca.Front() == (m.front() != 0) && ca.Back() == (m.back() != 0), "bits:front-back-const", "%s: const Front/Back (length %zu)", what, m.size());
    for(int q = 0; q < 3; ++q)
    {
      size_t b = r.below(m.size()), l = r.below(m.size() - b + 1);
      size_t c = 0;
      for(size_t i = b; i < b + l; ++i) c += m[i] != 0;
      CHECK(ca.CountBits(b, l) == c, "bits:count", "%s: CountBits(%zu,%zu) = %zu, expected %zu", what, b, l, (size_t)ca.CountBits(b, l), c);
    }
    size_t c = 0;
    for(char x : m) c += x != 0;
    CHECK(ca.CountBits(0, m.size()) == c, "bits:count", "%s: CountBits(all)", what);
  }
}

template<class CT>
static void run_dynbool(Rng& r, int steps, size_t maxlen)
{
  typedef DynArray<bool, CT> A;
  A* a[2] = { new A(), new A((CT)r.below(40)) };
  std::vector<char> m[2];
  if(r.chance(1, 8))
    for(size_t n = r.below(maxlen); m[0].size() < n;) { bool b = r.chance(1, 2); a[0]->Add(b); m[0].push_back(b); }
  bool big = maxlen > 2000;
  for(int s = 0; s < steps; ++s)
  {
    int k = (int)r.below(2), o = 1 - k;
    A& x = *a[k];
    auto& v = m[k];
    bool val = r.chance(1, 2);
    int what = (int)r.below(18);
    if(v.size() >= maxlen && (what < 5 || what == 6)) what = 5;
    const char* nm = "?";
    size_t arg = 0;
    switch(what)
    {
    case 0: case 1: { nm = "Add"; int n = 1 + (int)r.below(12); while(n-- && v.size() < maxlen) { bool b = r.chance(1, 2); size_t at = x.Add(b); CHECK(at == v.size(), "bits:add-index", "Add returned %zu", at); v.push_back(b); } break; }
    case 2: case 3: { nm = "Insert"; arg = r.below(v.size() + 1); if(r.chance(1, 4)) arg = 0; x.Insert(val, (CT)arg); v.insert(v.begin() + arg, val); break; }
    case 4: { nm = "AddConstruct"; size_t at = x.AddConstruct(); CHECK(at == v.size(), "bits:add-index", "AddConstruct returned %zu", at); v.push_back(0); break; }
    case 5: nm = "Remove"; if(!v.empty()) { arg = r.below(v.size()); x.Remove((CT)arg); v.erase(v.begin() + arg); } break;
    case 6: { nm = "SetLength"; arg = r.below(std::min<size_t>(maxlen, v.size() * 2 + 20)); x.SetLength((CT)arg); v.resize(arg, 0); break; }
    case 7: { nm = "SetCapacity"; arg = r.below(std::min<size_t>(maxlen, v.size() * 2 + 20)); x.SetCapacity((CT)arg); CHECK(x.Capacity() >= arg && x.Capacity() >= v.size(), "bits:capacity", "capacity %zu after asking for %zu", (size_t)x.Capacity(), arg); break; }
    case 8: { nm = "Flip"; x.Flip(); for(auto& b : v) b = !b; break; }
    case 9: nm = "RemoveLast"; if(!v.empty()) { x.RemoveLast(); v.pop_back(); } break;
    case 10: nm = "Clear"; if(r.chance(1, 3)) { x.Clear(); v.clear(); } break;
    case 11: { nm = "CopyConstruct"; A n(x); compare(n, v, "copy", r); n.Add(true); n.Flip(); break; }
    case 12: { nm = "MoveConstruct"; A* n = new A(std::move(x)); CHECK(x.Length() == 0, "bits:moved-from", "moved-from array not empty"); delete a[k]; a[k] = n; break; }
    case 13: { nm = "CopyAssign"; *a[o] = x; m[o] = v; break; }
    case 14: { nm = "MoveAssign"; *a[o] = std::move(x); m[o] = v; v.clear(); break; }
    case 15: nm = "SetBit"; if(!v.empty()) { arg = r.below(v.size()); x[arg] = val; v[arg] = val; } break;
    case 16: nm = "FlipBit"; if(!v.empty()) { arg = r.below(v.size()); x[arg].flip(); v[arg] = !v[arg]; } break;
    case 17: nm = "AssignBitToBit"; if(!v.empty()) { arg = r.below(v.size()); size_t j = r.below(v.size()); x[arg] = x[j]; v[arg] = v[j]; } break;
    }
    mon::op("%d:%s(%zu,%d) len=%zu", k, nm, arg, (int)val, v.size());
    mon::feature(what * 100003ull + m[k].size() * 17 + (size_t)a[k]->Capacity());
    if(big && s % 12) continue;
    compare(*a[0], m[0], nm, r);
    compare(*a[1], m[1], nm, r);
  }
  A il = { true, false, true, true, false, false, true, false, true, true };
  compare(il, std::vector<char>{ 1, 0, 1, 1, 0, 0, 1, 0, 1, 1 }, "init list", r);
  delete a[0];
  delete a[1];
}

template<class T>
static void run_bitfield(Rng& r, int steps)
{
  T m = (T)r.next();
  BitField<T> f(m);
  for(int s = 0; s < steps; ++s)
  {
    T bit = (T)((T)1 << r.below(sizeof(T) * 8)), mask = (T)r.next(), v = (T)r.next();
    if(r.chance(1, 3)) mask = (T)((T)(mask & (mask >> 1)));
    const char* nm = "";
    switch(r.below(9))
    {
    case 0: nm = "+="; f += mask; m |= mask; break;
    case 1: nm = "-="; f -= mask; m &= (T)~mask; break;
    case 2: nm = "[]="; { bool b = r.chance(1, 2); f[bit] = b; m = b ? (T)(m | bit) : (T)(m & (T)~bit); break; }
    case 3: nm = "Set(bits,mask)"; f.Set((T)(v & mask), mask); m = (T)((m & (T)~mask) | (v & mask)); break;
    case 4: nm = "group="; f(mask) = v; m = (T)((m & (T)~mask) | (v & mask)); break;
    case 5: nm = "flip"; f[bit].flip(); m ^= bit; break;
    case 6: nm = "="; f = v; m = v; break;
    case 7: nm = "Set"; f.Set(v); m = v; break;
    case 8: nm = "GetGroup="; f.GetGroup(mask) = v; m = (T)((m & (T)~mask) | (v & mask)); break;
    }
    mon::op("bitfield %s %llx %llx", nm, (unsigned long long)mask, (unsigned long long)v);
    const BitField<T>& cf = f;
    CHECK(f.Get() == m && (T)f == m, "bitfield:value", "%s: value %llx, expected %llx", nm, (unsigned long long)f.Get(), (unsigned long long)m);
    CHECK(cf[bit] == ((m & bit) != 0) && (bool)f[bit] == ((m & bit) != 0) && f.Get(bit) == ((m & bit) != 0), "bitfield:bit", "%s: bit reads wrong", nm);
    CHECK(cf(mask) == (T)(m & mask) && (T)f(mask) == (T)(m & mask) && cf.GetGroup(mask) == (T)(m & mask), "bitfield:group", "%s: group reads wrong", nm);
    {
      T b2 = (T)((T)1 << r.below(sizeof(T) * 8)), g2 = (T)r.next();
      bool on = (m & bit) != 0, on2 = (m & b2) != 0;
      char c = (char)r.below(2);
      auto br = f[bit];
      CHECK((br != on2) == (on != on2) && (br == on2) == (on == on2) && br.operator&&(on2) == (on && on2) && br.operator||(on2) == (on || on2), "bitfield:ref-logic", "%s: logic on a bit reference", nm);
      CHECK((br.operator|(c)) == (char)(on | c) && (br.operator&(c)) == (char)(on & c) && (br.operator^(c)) == (char)(on ^ c), "bitfield:ref-logic", "%s: bit logic on a bit reference", nm);
      auto gr = f(mask);
      CHECK((gr == (T)(m & mask)) && !(gr != (T)(m & mask)) && (gr == g2) == ((T)(m & mask) == g2) && (gr != g2) == ((T)(m & mask) != g2) && !gr == !(T)(m & mask), "bitfield:group-logic", "%s: logic on a bit group", nm);
      if(r.chance(1, 4))
      {
        f[b2] = br; // bit to bit
        m = on ? (T)(m | b2) : (T)(m & (T)~b2);
        BitField<T> other((T)r.next());
        T ob = other.Get();
        f(mask) = other(g2); // group to group
        m = (T)((m & (T)~mask) | (ob & g2 & mask));
        BitField<T> cpy(f);
        CHECK(f.Get() == m && cpy.Get() == m && other.Get() == ob, "bitfield:group-assign", "%s: group assigned from a group: %llx, expected %llx", nm, (unsigned long long)f.Get(), (unsigned long long)m);
      }
    }
    CHECK(!f[bit] == !(m & bit) && (f[bit] == ((m & bit) != 0)), "bitfield:ref", "%s: reference compares wrong", nm);
  }
}

static void run_bitstream(Rng& r)
{
  struct Item { int bits; uint8_t b[24]; int kind; };
  std::vector<Item> items;
  int n = 1 + (int)r.below(40);
  size_t total = 0;
  for(int i = 0; i < n; ++i)
  {
    Item it;
    it.kind = (int)r.below(5);
    it.bits = it.kind == 0 ? 1 + (int)r.below(7) : it.kind == 1 ? 1 + (int)r.below(180) : it.kind == 2 ? 1 : it.kind == 3 ? 32 : 64;
    if(it.kind == 1 && r.chance(1, 3)) it.bits = 8 * (1 + (int)r.below(20));
    for(auto& x : it.b) x = (uint8_t)r.next();
    if(it.kind == 2) it.b[0] &= 1;
    total += it.bits;
    items.push_back(it);
  }
  std::stringstream ss;
  {
    BitStream<std::ostream> w(ss);
    for(auto& it : items)
    {
      if(it.kind == 2) { bool b = it.b[0] & 1; w << b; }
      else if(it.kind == 3) { uint32_t v; memcpy(&v, it.b, 4); w << v; }
      else if(it.kind == 4) { uint64_t v; memcpy(&v, it.b, 8); w.Write(v); }
      else w.Write(it.b, it.bits);
      mon::op("write %d bits", it.bits);
    }
    if(r.chance(1, 2)) { BitStream<std::ostream> w2(std::move(w)); }
  }
  std::string bytes = ss.str();
  CHECK(bytes.size() == (total + 7) / 8, "bitstream:size", "%zu bits were written as %zu bytes", total, bytes.size());
  // independent view: the bits in order, least significant first
  size_t pos = 0;
  for(size_t i = 0; i < items.size(); ++i)
    for(int b = 0; b < items[i].bits; ++b, ++pos)
      CHECK(((items[i].b[b / 8] >> (b % 8)) & 1) == ((((uint8_t)bytes[pos / 8]) >> (pos % 8)) & 1), "bitstream:layout", "bit %d of item %zu is not at stream position %zu", b, i, pos);
  for(; pos < bytes.size() * 8; ++pos)
    CHECK(!((((uint8_t)bytes[pos / 8]) >> (pos % 8)) & 1), "bitstream:padding", "padding bit %zu is set", pos);
  std::istringstream in(bytes + std::string(1, (char)r.next()));
  BitStream<std::istream> rd(in);
  for(size_t i = 0; i < items.size(); ++i)
  {
    auto& it = items[i];
    uint8_t d[24];
    memset(d, r.chance(1, 2) ? 0xff : 0, sizeof d); // the destination's previous contents must not matter
    int nb = (it.bits + 7) / 8;
    if(it.kind == 2) { bool b = r.chance(1, 2); rd >> b; CHECK(b == (it.b[0] & 1), "bitstream:read-bool", "item %zu: bool read back wrong", i); continue; }
    if(it.kind == 3) { uint32_t v = (uint32_t)r.next(), e; memcpy(&e, it.b, 4); rd >> v; CHECK(v == e, "bitstream:read", "item %zu: 32-bit value read back wrong", i); continue; }
    if(it.kind == 4) { uint64_t v = r.next(), e; memcpy(&e, it.b, 8); rd.Read(v); CHECK(v == e, "bitstream:read", "item %zu: 64-bit value read back wrong", i); continue; }
    rd.Read(d, it.bits);
    for(int b = 0; b < it.bits; ++b)
      CHECK(((it.b[b / 8] >> (b % 8)) & 1) == ((d[b / 8] >> (b % 8)) & 1), "bitstream:read", "item %zu (%d bits): bit %d read back wrong", i, it.bits, b);
    if(it.bits & 7) CHECK((d[nb - 1] >> (it.bits & 7)) == 0, "bitstream:read-tail", "item %zu (%d bits): unread bits of the last byte are not zero", i, it.bits);
  }
}

static void run_bssserialize(Rng& r)
{
  std::stringstream ss;
  std::string s;
  int n = (int)r.below(40);
  for(int i = 0; i < n; ++i) s += (char)(1 + r.below(255));
  uint64_t a = r.next();
  double d = (double)(int64_t)r.next();
  uint16_t h = (uint16_t)r.next();
  bssSerialize(a, ss);
  bssSerialize<const char*>(s.c_str(), ss);
  bssSerialize(d, ss);
  bssSerialize(h, ss);
  uint64_t a2 = 0;
  std::string s2;
  double d2 = 0;
  uint16_t h2 = 0;
  bssDeserialize(a2, ss);
  bssDeserialize<std::string>(s2, ss);
  bssDeserialize(d2, ss);
  bssDeserialize(h2, ss);
  CHECK(a == a2 && s == s2 && d == d2 && h == h2, "bitstream:serialize", "bssSerialize/bssDeserialize changed a value");
  mon::op("serialize %d %llx", n, (unsigned long long)a);
}

void mon_case(Rng& r, uint64_t c)
{
  switch(c % 8)
  {
  case 0: case 1: run_dynbool<size_t>(r, 10 + (int)r.below(60), 10 + r.below(r.chance(1, 40) ? 12000 : 120)); mon::ev("bool arrays"); break;
  case 2: run_dynbool<uint16_t>(r, 10 + (int)r.below(60), 20 + r.below(900)); mon::ev("bool arrays (16-bit size)"); break;
  case 3: run_bitfield<uint32_t>(r, 40); run_bitfield<uint8_t>(r, 20); mon::ev("bit fields"); break;
  case 4: run_bitfield<uint64_t>(r, 40); run_bitfield<uint16_t>(r, 20); mon::ev("bit fields"); break;
  case 5: case 6: run_bitstream(r); mon::ev("bit streams"); break;
  case 7: run_bitstream(r); run_bssserialize(r); mon::ev("bit streams"); break;
  }
  mon::nontrivial();
}
