// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <sys/mman.h>
extern "C" {
#include "data/array.h"
}
using namespace pbt;

Property property = {
  "C15",
  "element sizes 1..200 and up to 5000, initial capacities 0..100, up to several hundred appends by pointer or value (up to 300000 of small elements) with reads of arbitrary indexes between them; compared with std::vector; non-trivial: the array grew at least twice",
  "exploration", {"array_append_value only with element sizes up to 4 (its argument has 4 bytes)", "little-endian machine"}};

static void history(Case &c) {
  mem::start(); size_t es = c.draw(1) ? c.size(1, c.draw(30) == 30 ? 5000 : 200) : c.range(1, 8), cap = c.size(0, 100); bool dflt = c.draw(3) == 3;
  array_t *a = dflt ? array_new(es) : array_new_with_init_capacity(es, cap); PBT_CHECK(a, "array_new failed"); if (dflt) cap = 16; if (cap < 4) cap = 4;
  c.note("array of %zu byte elements, capacity %zu", es, cap); std::vector<std::string> m; uint64_t salt = c.draw(1000), n = c.size(1, c.thorough ? 3000 : 400); bool val = false; int blocks = 0;
  for (uint64_t i = 0; i < n; ++i) {
    std::string e(es, 0); for (size_t k = 0; k < es; ++k) e[k] = (char)mix64(salt * 7919 + i * 131 + k);
    if (es <= 4 && mix64(i + salt) % 2) { uint32_t v = (uint32_t)mix64(salt + i * 3); PBT_CHECK(array_append_value(a, v), "append_value failed"); e.assign((char *)&v, es); val = true; }
    else { std::vector<char> src(e.begin(), e.end()); PBT_CHECK(array_append_ptr(a, src.data()), "append_ptr failed"); memset(src.data(), 0xee, es); }
    m.push_back(e); PBT_EQ(array_length(a), m.size(), "length");
    size_t k = (size_t)mix64(salt ^ i) % m.size(); PBT_CHECK(!memcmp(array_at(a, k), m[k].data(), es), "element %zu of %zu changed", k, m.size()); PBT_CHECK(!memcmp(array_at(a, m.size() - 1), e.data(), es), "the element appended last (%zu) differs", m.size() - 1);
    if (i % 16 == 5) { memset(array_at(a, k), (int)i, es); m[k].assign(es, (char)i); }    // elements can be changed in place
  }
  c.note("%llu appends", (unsigned long long)n); char *p = (char *)array_ptr(a);
  for (size_t k = 0; k < m.size(); ++k) { PBT_CHECK((char *)array_at(a, k) == p + k * es, "element %zu is not next to its neighbour", k); PBT_CHECK(!memcmp(p + k * es, m[k].data(), es), "element %zu differs at the end", k); }
  (void)blocks; array_free(a); array_free(nullptr); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
  if (val) c.label("append_value"); if (n > cap) c.label("grew"); if (n > cap + cap / 2) { c.nontrivial(); c.label("grew twice"); }
}
static void overflow(Case &c) {
  // more than can be addressed: NULL, or an array that works
  mem::start(); uint64_t es = c.oneof<uint64_t>({4, 1, 8, 24, 1ull << 32, 1ull << 62, SIZE_MAX, 3}); uint64_t want = c.oneof<uint64_t>({0, 1, 8, 40, 100}); unsigned shift = (unsigned)c.draw(3);
  size_t cap = (size_t)((unsigned __int128)((unsigned __int128)1 << 64) / es + want + ((uint64_t)shift << 20));   // element size * capacity just exceeds 2^64
  if ((unsigned __int128)es * cap < ((unsigned __int128)1 << 63)) { mem::stop(); c.discard(); return; }
  array_t *a = array_new_with_init_capacity(es, cap); c.note("array of %llu byte elements, capacity %zu -> %s", (unsigned long long)es, cap, a ? "array" : "NULL");
  if (a && es <= 24) { std::string e(es, 'x'); for (size_t i = 0; i < 64; ++i) if (!array_append_ptr(a, (void *)e.data())) break; }
  if (a && es > 24) fail("an array of %llu byte elements was created", (unsigned long long)es);
  array_free(a); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); c.nontrivial();
}
// far beyond what 16 bit counters or a few growths hold
static void many(Case &c) {
  mem::start(); size_t es = c.range(1, 12), n = (size_t)c.range(60000, c.thorough ? 3000000 : 300000); array_t *a = array_new_with_init_capacity(es, c.size(0, 100)); PBT_CHECK(a, "array_new failed"); c.note("%zu elements of %zu bytes", n, es); std::string all; all.reserve(n * es);
  for (size_t i = 0; i < n; ++i) { char e[12]; for (size_t k = 0; k < es; ++k) e[k] = (char)(i * 31 + (i >> 8) * 7 + k * 3); all.append(e, es); PBT_CHECK(array_append_ptr(a, e), "append %zu failed", i); if ((i & (i - 1)) == 0 || i % 4096 == 0) { PBT_EQ(array_length(a), i + 1, "length"); size_t k = (size_t)c.draw(i); PBT_CHECK(!memcmp(array_at(a, k), &all[k * es], es), "element %zu of %zu changed", k, i + 1); } }
  PBT_EQ(array_length(a), n, "length"); PBT_CHECK(!memcmp(array_ptr(a), all.data(), all.size()), "elements changed"); array_free(a); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); c.nontrivial();
}
// elements of 64 KiB to gigabytes, or room for billions of them: their contents are looked at near their ends
static void giant(Case &c) {
  static char *src; static const size_t SIZE = 6ull << 30, EDGE = 4096; if (!src) { src = (char *)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (src == MAP_FAILED) fail("harness: mmap"); }
  mem::start(); struct Tidy { ~Tidy() { mem::sparse = mem::big = 0; madvise(src, SIZE, MADV_DONTNEED); } } tidy; mem::big = 1 << 20; bool wide = c.draw(1); uint64_t salt = c.draw(1000); size_t es = wide ? c.oneof<size_t>({1 << 16, (1 << 16) + 5, 70000, 1 << 20, 1ull << 31, 1ull << 32, (1ull << 32) + 3, (size_t)c.range(60000, 5ull << 30)}) + c.draw(8) : c.range(1, 9);
  size_t cap = wide ? c.size(0, 12) : c.oneof<size_t>({1ull << 31, 1ull << 32, (1ull << 32) + 1, 1 << 16, (size_t)c.range(60000, 1ull << 34)}) + c.draw(4); if (es > (1 << 17)) mem::sparse = 2 * EDGE;
  array_t *a = array_new_with_init_capacity(es, cap); c.note("array of %zu byte elements, capacity %zu", es, cap); PBT_CHECK(a, "array_new failed"); size_t n = wide ? c.size(1, 20) : c.size(1, 200), edge = std::min(es, EDGE); char *first = nullptr; std::vector<char> head(n, 0), tail(n, 0);   // a sparse copy keeps the ends of what it copies
  auto byte = [&](size_t i, size_t k) { return (char)mix64(salt + i * 65599 + k); };
  auto same = [&](size_t i) { char *p = (char *)array_at(a, i); PBT_CHECK(p == (char *)array_ptr(a) + i * es, "element %zu is not next to its neighbour", i); for (size_t k = 0; k < edge; ++k) PBT_CHECK((!head[i] || p[k] == byte(i, k)) && (!tail[i] || p[es - 1 - k] == byte(i, es - 1 - k)), "element %zu of %zu changed", i, array_length(a)); };
  for (size_t i = 0; i < n; ++i) { for (size_t k = 0; k < edge; ++k) src[k] = byte(i, k), src[es - 1 - k] = byte(i, es - 1 - k); if (!array_append_ptr(a, src)) fail("append %zu failed", i); PBT_EQ(array_length(a), i + 1, "length"); head[i] = tail[i] = 1;
    if (first != array_ptr(a)) { if (i && !wide) fail("the array moved although there was room"); if (mem::sparse) for (size_t k = 0; k < i; ++k) { if (k) head[k] = 0; if (k + 1 < i) tail[k] = 0; } first = (char *)array_ptr(a); } same(i); same(c.draw(i)); }
  for (size_t i = 0; i < n; ++i) same(i);
  array_free(a); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); c.nontrivial();
}
std::vector<Suite> suites = {{"giant", giant, 4000, 60000}, {"many", many, 60, 400}, {"overflow", overflow, 400, 400}, {"history", history, 450000, 3000000}};
