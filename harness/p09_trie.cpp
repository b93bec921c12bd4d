// Monitor for the static trie: every stored word resolves to its own index, everything else to "not found".
#include "mon.h"
#include "bss-util/Trie.h"
#include <vector>
#include <string>
#include <map>
#include <algorithm>
using namespace bss;
using mon::Rng;

static std::string lower(std::string s) { for(auto& c : s) if(c >= 'A' && c <= 'Z') c += 32; return s; }

template<class T, bool IC>
static void check(const Trie<T, IC>& t, const std::vector<std::string>& words, const std::map<std::string, size_t>& idx, const std::string& alphabet, Rng& r, const char* nm)
{
  auto want = [&](const std::string& w) -> T { auto it = idx.find(IC ? lower(w) : w); return it == idx.end() ? (T)-1 : (T)it->second; };
  auto probe = [&](const std::string& w)
  {
    T e = want(w);
    char* heap = (char*)malloc(w.size() + 1); // exact-size copies so that reads beyond the word are seen
    memcpy(heap, w.c_str(), w.size() + 1);
    T g = t.Get(heap);
    CHECK(g == e && t[heap] == e, "trie:get", "%s: Get(\"%s\") is %llu, expected %llu", nm, w.c_str(), (unsigned long long)g, (unsigned long long)e);
    free(heap);
    if(w.size() < 200)
    {
      heap = (char*)malloc(w.size() ? w.size() : 1);
      memcpy(heap, w.data(), w.size());
      g = t.Get(heap, (T)w.size());
      CHECK(g == e, "trie:get-length", "%s: Get(\"%s\", %zu) is %llu, expected %llu", nm, w.c_str(), w.size(), (unsigned long long)g, (unsigned long long)e);
      free(heap);
    }
    mon::ev(e == (T)-1 ? "lookups missing" : "lookups found");
  };
  for(auto& w : words)
  {
    probe(w);
    if(IC) { std::string u = w; for(auto& c : u) if(isalpha((unsigned char)c) && (unsigned char)c < 128 && r.chance(1, 2)) c ^= 32; probe(u); }
    if(w.size()) probe(w.substr(0, r.below(w.size()))); // prefixes
    probe(w + alphabet[r.below(alphabet.size())]);      // extensions
    if(w.size()) { std::string x = w; x[r.below(x.size())] = alphabet[r.below(alphabet.size())]; probe(x); } // mutations
  }
  for(int i = 0; i < 10; ++i)
  {
    std::string w;
    size_t n = r.below(6);
    for(size_t k = 0; k < n; ++k) w += (char)(1 + r.below(255));
    probe(w);
  }
}

template<class T, bool IC>
static void run(Rng& r, size_t maxnodes)
{
  static const char* alphas[] = { "ab", "abcdefghijklmnopqrstuvwxyz", "aAbBzZ_[]1-", "\xC3\xA9\xC3\xBC" "ab", "\x01\x7f\x80\xff" "az" };
  std::string alpha = alphas[r.below(5)];
  size_t n = 1 + r.below(maxnodes > 1000 && r.chance(1, 80) ? 1200 : r.chance(1, 4) ? 40 : 12);
  std::vector<std::string> words;
  std::map<std::string, size_t> idx;
  size_t nodes = 1;
  for(size_t i = 0; i < n; ++i)
  {
    std::string w;
    if(!words.empty() && r.chance(1, 2)) { w = words[r.below(words.size())]; if(w.size() && r.chance(1, 2)) w.resize(r.below(w.size())); } // shared prefixes
    size_t k = r.below(6);
    if(r.chance(1, 12)) k = r.below(40);
    for(size_t j = 0; j < k; ++j) w += alpha[r.below(alpha.size())];
    if(idx.count(IC ? lower(w) : w)) continue;
    if(nodes + w.size() + 2 > maxnodes) continue; // stay within what the index type can number
    nodes += w.size() + 1;
    idx[IC ? lower(w) : w] = words.size();
    words.push_back(w);
  }
  if(words.empty()) { words.push_back("x"); idx["x"] = 0; }
  std::vector<const char*> p;
  for(auto& w : words) { p.push_back(w.c_str()); mon::op("word \"%s\"", w.c_str()); }
  typedef Trie<T, IC> TT;
  TT* t = new TT((T)p.size(), p.data());
  CHECK((size_t)t->Length() == p.size(), "trie:length", "Length %zu, expected %zu", (size_t)t->Length(), p.size());
  check<T, IC>(*t, words, idx, alpha, r, "built");
  TT* c = new TT(*t);
  check<T, IC>(*c, words, idx, alpha, r, "copy");
  TT* mv = new TT(std::move(*c));
  delete c;
  check<T, IC>(*mv, words, idx, alpha, r, "moved");
  const char* two[] = { "hello", "help" };
  TT* other = new TT(two);
  CHECK(other->Get("hello") == 0 && other->Get("help") == 1 && other->Get("hel") == (T)-1, "trie:array", "two-word trie");
  *other = *t;
  delete t;
  check<T, IC>(*other, words, idx, alpha, r, "copy-assigned");
  TT v((T)3, "one", "on", "two");
  CHECK(v.Get("one") == 0 && v.Get("on") == 1 && v.Get("two") == 2 && v.Get("o") == (T)-1 && v.Get("ones") == (T)-1, "trie:varargs", "three-word trie");
  v = std::move(*mv);
  delete mv;
  check<T, IC>(v, words, idx, alpha, r, "move-assigned");
  delete other;
  mon::feature(words.size() * 1000 + nodes);
}
void mon_case(Rng& r, uint64_t c)
{
  switch(c % 6)
  {
  case 0: run<uint8_t, false>(r, 250); mon::ev("trie<u8>"); break;
  case 1: run<uint8_t, true>(r, 250); mon::ev("trie<u8,nocase>"); break;
  case 2: run<uint16_t, false>(r, 20000); mon::ev("trie<u16>"); break;
  case 3: run<uint16_t, true>(r, 20000); mon::ev("trie<u16,nocase>"); break;
  case 4: run<uint32_t, false>(r, 20000); mon::ev("trie<u32>"); break;
  case 5: run<size_t, true>(r, 20000); mon::ev("trie<size_t,nocase>"); break;
  }
  mon::nontrivial();
}
