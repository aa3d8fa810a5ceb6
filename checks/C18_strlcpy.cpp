// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <sys/mman.h>
extern "C" {
size_t lcux_strlcpy(char *, const char *, size_t); size_t lcux_strlcat(char *, const char *, size_t);   // the library's, renamed by run.py
}
using namespace pbt;

Property property = {
  "C18",
  "sources, destination contents and sizes with length differences around the exact fit, sizes 0, 1 and beyond, destinations without terminator inside the size, and (suite large) strings up to 200000 characters, and (suite giant) sizes up to 8 GiB; compared with a reference; destination and source have "
  "exact size under AddressSanitizer; non-trivial: the copy was truncated or fits exactly",
  "exploration", {"the library's own strlcpy/strlcat are meant (their names are private to the check's build)"}};

static void copy(Case &c) {
  size_t n = c.size(0, 60); size_t size; switch (c.draw(3)) { case 0: size = n + c.draw(4); break; case 1: size = n >= c.draw(3) ? n - std::min<size_t>(n, c.draw(3)) : 0; break; default: size = c.size(0, 80); }
  std::string s = c.payload(n); for (auto &ch : s) if (!ch) ch = 'z'; c.note("strlcpy(%zu characters, size %zu)", n, size);
  char *src = (char *)malloc(n + 1), *dst = (char *)malloc(size ? size : 1); memcpy(src, s.c_str(), n + 1); memset(dst, 0x5a, size ? size : 1);
  size_t r = lcux_strlcpy(dst, src, size); PBT_EQ(r, n, "strlcpy result");
  if (size) { size_t k = std::min(n, size - 1); PBT_CHECK(!memcmp(dst, s.data(), k), "strlcpy: content"); PBT_CHECK(dst[k] == 0, "strlcpy: not terminated at %zu", k); for (size_t i = k + 1; i < size; ++i) PBT_CHECK(dst[i] == 0x5a, "strlcpy wrote behind the terminator"); }
  else PBT_CHECK(dst[0] == 0x5a, "strlcpy with size 0 wrote"); PBT_CHECK(!memcmp(src, s.c_str(), n + 1), "strlcpy changed the source");
  free(src); free(dst); if (n + 1 >= size) c.nontrivial(); c.label(n + 1 > size ? "truncated" : n + 1 == size ? "exact fit" : "room left");
}
static void cat(Case &c) {
  size_t have = c.size(0, 40), n = c.size(0, 40), size; switch (c.draw(3)) { case 0: size = have + n + c.draw(4); break; case 1: size = have + c.draw(n + 1); break; case 2: size = c.draw(have); break; default: size = c.size(0, 90); }
  std::string d = c.payload(have), s = c.payload(n); for (auto &ch : s) if (!ch) ch = 'z'; for (auto &ch : d) if (!ch) ch = 'y'; c.note("strlcat(%zu characters, %zu characters, size %zu)", have, n, size);
  // a destination that is longer than size has no terminator within it: exactly size bytes are given then
  size_t bytes = std::max<size_t>(size, 1); char *dst = (char *)malloc(bytes), *src = (char *)malloc(n + 1); memcpy(src, s.c_str(), n + 1); memset(dst, 0x5a, bytes); memcpy(dst, d.c_str(), std::min(have + 1, bytes)); std::string before(dst, bytes);
  size_t r = lcux_strlcat(dst, src, size); PBT_EQ(r, std::min(have, size) + n, "strlcat result");
  if (have >= size) PBT_CHECK(before == std::string(dst, bytes), "strlcat without room changed the destination");
  else { size_t k = std::min(n, size - 1 - have); PBT_CHECK(!memcmp(dst, d.data(), have), "strlcat: the old content changed"); PBT_CHECK(!memcmp(dst + have, s.data(), k), "strlcat: content"); PBT_CHECK(dst[have + k] == 0, "strlcat: not terminated"); for (size_t i = have + k + 1; i < size; ++i) PBT_CHECK(dst[i] == 0x5a, "strlcat wrote behind the terminator"); }
  free(src); free(dst); if (have + n + 1 >= size) c.nontrivial(); c.label(have >= size ? "no room" : have + n + 1 > size ? "truncated" : have + n + 1 == size ? "exact fit" : "room left");
}
static void large(Case &c) {   // both, with strings and sizes up to 200000 around powers of two
  size_t n = c.boolean() ? (size_t(1) << c.range(8, 17)) - 3 + c.draw(6) : c.size(60, 200000), have = c.draw(2) ? c.size(0, 70000) : 0, size = c.boolean() ? have + n - 2 + c.draw(5) : c.draw(have + n + 10);
  std::string s(n, 'a'), d(have, 'b'); for (size_t i = 0; i < n; ++i) s[i] = (char)(1 + (i * 7 + i / 251) % 255); c.note("%zu characters behind %zu, size %zu", n, have, size);
  if (have > size) have = size, d.resize(size); char *src = strdup(s.c_str()), *dst = (char *)malloc(size ? size : 1); size_t bytes = size ? size : 1; memset(dst, 0x5a, bytes); memcpy(dst, d.c_str(), std::min(have + 1, bytes)); bool cat = have > 0;
  size_t r = cat ? lcux_strlcat(dst, src, size) : lcux_strlcpy(dst, src, size); PBT_EQ(r, have + n, cat ? "strlcat result" : "strlcpy result");
  if (have < size) { size_t k = std::min(n, size - 1 - have); PBT_CHECK(!memcmp(dst, d.data(), have) && !memcmp(dst + have, s.data(), k) && !dst[have + k], "content of the copy"); for (size_t i = have + k + 1; i < size; ++i) PBT_CHECK(dst[i] == 0x5a, "wrote behind the terminator"); }
  PBT_CHECK(s == src, "the source changed"); free(src); free(dst); if (have + n + 1 >= size) c.nontrivial(); c.label(cat ? "strlcat" : "strlcpy");
}
// sizes of gigabytes (a mapping backs them, only what the strings need is touched)
static void giant(Case &c) {
  static char *map; static const size_t SIZE = 9ull << 30; if (!map) { map = (char *)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (map == MAP_FAILED) fail("harness: mmap"); }
  size_t n = c.size(0, 300), have = c.draw(1) ? c.size(0, 300) : 0, size = c.oneof<size_t>({1ull << 31, 1ull << 32, (1ull << 31) - 1, (1ull << 32) - 1, 1ull << 33, (size_t)c.range(1u << 20, (8ull << 30))}) + c.draw(c.boolean() ? 4 : 400); bool cat = have || c.draw(1); std::string s(n, 'a'), d(have, 'b');
  for (size_t i = 0; i < n; ++i) s[i] = (char)(1 + (i * 7) % 255); c.note("%s(%zu characters behind %zu, size %zu)", cat ? "strlcat" : "strlcpy", n, have, size); memset(map, 0x5a, 1000); map[size - 1] = 0x5b; memcpy(map, d.c_str(), have + 1); char *src = strdup(s.c_str());
  size_t r = cat ? lcux_strlcat(map, src, size) : lcux_strlcpy(map, src, size); PBT_EQ(r, have + n, cat ? "strlcat result" : "strlcpy result"); PBT_CHECK(!memcmp(map, d.data(), have) && !strcmp(map + have, s.c_str()), "content of the copy");
  for (size_t i = have + n + 1; i < 1000; ++i) PBT_CHECK(map[i] == 0x5a, "wrote behind the terminator"); PBT_EQ((int)map[size - 1], 0x5b, "the last byte"); free(src); madvise(map, SIZE, MADV_DONTNEED); c.nontrivial();
}
std::vector<Suite> suites = {{"giant", giant, 20000, 300000}, {"strlcpy", copy, 4800000, 50000000}, {"strlcat", cat, 4800000, 50000000}, {"large", large, 6000, 100000}};
