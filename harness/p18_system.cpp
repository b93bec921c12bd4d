// Monitor for the helpers that ask the system: sizes of files, paths of fonts. All files are in the scratch directory of the runner.
#include "mon.h"
#include "bss-util/bss_util.h"
#include "bss-util/bss_util_c.h"
#include "bss-util/os.h"
#include "bss-util/../../bss-util/fontconfig/fontconfig.h"
#include <string>
#include <vector>
#include <sys/stat.h>
using namespace bss;
using mon::Rng;
typedef std::string S;
static std::wstring wide(const S& s)
{
  std::wstring w;
  for(size_t i = 0; i < s.size();)
  {
    unsigned char c = (unsigned char)s[i];
    int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
    uint32_t u = n == 0 ? c : c & (0x3F >> n);
    for(++i; n > 0; --n) u = (u << 6) | ((unsigned char)s[i++] & 0x3F);
    w += (wchar_t)u;
  }
  return w;
}
static void size(Rng& r)
{
  static const char* NAMES[] = { "plain.bin", "with space", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac.txt", "\xf0\x9f\x98\x80", "x" };
  S dir = "p18_" + std::to_string((int)getpid());
  mkdir(dir.c_str(), 0700);
  S f = dir + "/" + NAMES[r.below(6)], l = dir + "/link";
  S ask = f;
  uint64_t want, k = r.below(7);
  uint64_t n = r.below(3) ? r.below(3000) : r.below(2) ? 0 : (1ull << 31) * (1 + r.below(5)) - 2 + r.below(4); // large ones are sparse
  bool there = k != 0 && k != 3;
  if(there) { FILE* o = fopen(f.c_str(), "wb"); if(!o) abort(); fclose(o); if(truncate(f.c_str(), (off_t)n)) { n = 0; } }
  want = n;
  switch(k)
  {
  case 0: want = ~0ull; break;                       // not there
  case 1: ask = dir; want = ~0ull; break;            // a directory
  case 2: if(symlink(NAMES[0] == f.substr(dir.size() + 1) ? "plain.bin" : f.substr(dir.size() + 1).c_str(), l.c_str())) abort(); ask = l; break;
  case 3: if(symlink("nowhere", l.c_str())) abort(); ask = l; want = ~0ull; break;
  case 4: ask = f + "/inside"; want = ~0ull; break;  // inside something that is not a directory
  default: break;
  }
  mon::op("size %d %llu %s", (int)k, (unsigned long long)n, ask.c_str() + dir.size());
  uint64_t a = bssFileSize(ask.c_str()), b = bssFileSizeW(wide(ask).c_str());
  unlink(f.c_str()); unlink(l.c_str()); rmdir(dir.c_str());
  CHECK(a == want, "system:filesize", "the size of %s is said to be %lld, but it is %lld", ask.c_str(), (long long)a, (long long)want);
  CHECK(b == want, "system:filesize-wide", "the size of %s is said to be %lld, but it is %lld", ask.c_str(), (long long)b, (long long)want);
  mon::ev("file sizes");
}
static void font(Rng& r)
{
  static const char* FAM[] = { "DejaVu Sans", "DejaVu Serif", "DejaVu Sans Mono", "Arial", "monospace", "no such font at all", "serif" };
  const char* family = FAM[r.below(7)];
  int weight = r.chance(1, 2) ? (int)(1 + r.below(9)) * 100 : (int)(1 + r.below(999));
  bool italic = r.chance(1, 2);
  mon::op("font %s %d %d", family, weight, italic);
  auto p = GetFontPath(family, weight, italic);
  FcConfig* c = FcInitLoadConfigAndFonts();
  FcPattern* q = FcPatternCreate();
  FcPattern* n = FcNameParse((const FcChar8*)family);
  FcPatternDestroy(q);
  FcPatternAddInteger(n, FC_WEIGHT, FcWeightFromOpenType(weight));
  FcPatternAddInteger(n, FC_SLANT, italic ? FC_SLANT_ITALIC : FC_SLANT_ROMAN);
  FcConfigSubstitute(c, n, FcMatchPattern);
  FcDefaultSubstitute(n);
  FcResult res;
  FcPattern* m = FcFontMatch(c, n, &res);
  FcChar8* file = 0;
  bool found = m && FcPatternGetString(m, FC_FILE, 0, &file) == FcResultMatch;
  CHECK(!!p == found, "system:font", "a font for %s is %s", family, found ? "there, but was not found" : "not there, but was found");
  if(found) { size_t len = strlen(p.get()); CHECK(!strcmp(p.get(), (const char*)file), "system:font-path", "%s %d %s: %.300s (%zu), should be %s", family, weight, italic ? "italic" : "upright", p.get(), len, (const char*)file); }
  if(m) FcPatternDestroy(m);
  FcPatternDestroy(n);
  FcConfigDestroy(c);
  ::operator delete[](p.release()); // the deleter of the library relies on operator delete[] being operator delete, which ASan objects to
  mon::ev("fonts");
}
void mon_case(Rng& r, uint64_t)
{
  if(r.chance(1, 100)) font(r); else for(int i = 0; i < 5; ++i) size(r);
  mon::nontrivial();
}
