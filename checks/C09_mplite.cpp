// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <set>
#include <map>
#include <climits>
#include <sys/mman.h>
extern "C" {
#include "mem/mplite.h"
}
using namespace pbt;
static std::vector<std::string> printed; static int puts_(const char *s) { printed.push_back(s); return 0; }

Property property = {
  "C09",
  "histories of malloc/calloc/realloc/resize/free with sizes biased to powers of two, their neighbours and the largest block available, on pools of every shape; compared with an interval model "
  "(overlap, alignment, contents, statistics, largest available block); non-trivial: at least one request failed for lack of space and one was served after a free merged blocks",
  "exploration", {"the minimum allocation is a power of two, as documented", "only live blocks of the pool are freed, as documented"}};

struct Blk { int req, full; uint64_t id; int filled; };
struct Pool {
  mplite_t h; char *mem; int atom, nblk; uint64_t salt; std::map<int, Blk> live; uint64_t nAlloc = 0, total = 0, excess = 0; uint32_t out = 0, cnt = 0, maxOut = 0, maxCnt = 0, maxReq = 0; uint64_t next = 1;
  int roundup(int n) const { long f = atom; while (f < n) f <<= 1; return (int)std::min<long>(f, INT_MAX); }
  // the largest aligned run of atoms no live block touches
  int largest() const {
    for (int lg = 30; lg >= 0; --lg) {
      long sz = 1l << lg; if (sz > nblk) continue;
      for (long k = 0; k + sz <= nblk; k += sz) {
        long a = k * atom, b = (k + sz) * atom; auto it = live.lower_bound((int)b); bool hit = false;
        if (it != live.begin()) { --it; if (it->first + it->second.full > a) hit = true; }
        if (!hit) return (int)(sz * atom);
      }
    }
    return 0;
  }
  char at(uint64_t id, int k) const { return (char)mix64(id * 1000003 + k * 17 + salt); }
  void fill(char *p, Blk &b, int n) { for (int k = 0; k < n; ++k) p[k] = at(b.id, k); b.filled = n; }
  void verify(const char *p, const Blk &b, int n, const char *when) const { for (int k = 0; k < n; ++k) if (p[k] != at(b.id, k)) fail("%s: byte %d of a %d byte block changed", when, k, b.req); }
  void took(int req) { int f = roundup(req); ++nAlloc; total += f; excess += f - req; out += f; ++cnt; maxOut = std::max(maxOut, out); maxCnt = std::max(maxCnt, cnt); }
  void stats() {
    PBT_EQ(h.nAlloc, nAlloc, "nAlloc"); PBT_EQ(mplite_alloc_count(&h), nAlloc, "mplite_alloc_count"); PBT_EQ(h.totalAlloc, total, "totalAlloc"); PBT_EQ(h.totalExcess, excess, "totalExcess"); PBT_EQ(h.currentOut, out, "currentOut");
    PBT_EQ(h.currentCount, cnt, "currentCount"); PBT_EQ(h.maxOut, maxOut, "maxOut"); PBT_EQ(h.maxCount, maxCnt, "maxCount"); PBT_EQ(h.maxRequest, maxReq, "maxRequest");
    if (nAlloc % 8 == 3) {   // the printed statistics: the number that ends each line
      printed.clear(); mplite_print_stats(&h, puts_); std::vector<long long> g, w = {(long long)nAlloc, (long long)total, (long long)excess, (long long)out, (long long)cnt, (long long)maxOut, (long long)maxCnt, (long long)maxReq};
      for (auto &l : printed) { size_t e = l.find_last_of("0123456789"); if (e == std::string::npos) continue; size_t b = e; while (b && isdigit((unsigned char)l[b - 1])) --b; g.push_back(atoll(l.c_str() + b)); }
      std::multiset<long long> a(g.begin(), g.end()), b(w.begin(), w.end()); if (a != b) { std::string t; for (auto &l : printed) t += l + "\n"; fail("mplite_print_stats printed %s", quote(t, 1000).c_str()); } mplite_print_stats(&h, nullptr); mplite_print_stats(nullptr, puts_);
    }
    PBT_EQ(mplite_freemem(&h), nblk * atom - (int)out, "mplite_freemem"); PBT_EQ(mplite_maxmem(&h), largest(), "mplite_maxmem");
  }
  int place(void *p, int req, const char *what) {
    int off = (int)((char *)p - mem), full = roundup(req);
    if ((char *)p < mem || off + full > nblk * atom) fail("%s(%d): block at offset %d of a pool of %d bytes", what, req, off, nblk * atom);
    if (off % atom) fail("%s(%d): block at offset %d, atoms of %d", what, req, off, atom);
    auto it = live.lower_bound(off); if (it != live.end() && it->first < off + full) fail("%s(%d): block at %d+%d overlaps the live block at %d+%d", what, req, off, full, it->first, it->second.full);
    if (it != live.begin()) { --it; if (it->first + it->second.full > off) fail("%s(%d): block at %d+%d overlaps the live block at %d+%d", what, req, off, full, it->first, it->second.full); }
    return off;
  }
};
static int drawsize(Case &c, Pool &P) {
  switch (c.draw(7)) {
    case 0: return (int)c.size(1, 64); case 1: return P.atom; case 2: return P.atom + (int)c.irange(-1, 1) > 0 ? P.atom + (int)c.irange(0, 1) : 1;
    case 3: { int m = mplite_maxmem(&P.h); return std::max(1, m - (int)c.draw(2)); } case 4: { int m = mplite_maxmem(&P.h); return m + 1; }
    case 5: return std::max<int>(1, (1 << c.range(0, 16)) + (int)c.irange(-1, 1)); case 6: return (int)c.size(1, std::max(1, P.nblk * P.atom)); default: return c.draw(9) == 9 ? (int)c.oneof<int>({MPLITE_MAX_ALLOC_SIZE, MPLITE_MAX_ALLOC_SIZE + 1, 0x7fffffff, 0, -1, -2147483647 - 1}) : (int)c.size(1, 300);
  }
}

static void history(Case &c) {
  Pool P; P.salt = c.draw(1000); int lg = (int)c.size(0, 9); int min_alloc = 1 << lg; P.atom = std::max(min_alloc, 8);
  int buf = c.boolean() ? (P.atom + 1) * (int)c.size(1, 130) + (int)c.draw(P.atom) : (int)c.size(1, c.thorough ? 65536 : 16384);
  char *raw = (char *)malloc(buf); memset(raw, (int)c.draw(255), buf); P.mem = raw; P.nblk = buf / (P.atom + 1);
  if (c.draw(15) == 15) { PBT_EQ(mplite_init(nullptr, raw, buf, min_alloc, nullptr), MPLITE_ERR_INVPAR, "init(NULL)"); PBT_EQ(mplite_init(&P.h, nullptr, buf, min_alloc, nullptr), MPLITE_ERR_INVPAR, "init without memory"); PBT_EQ(mplite_init(&P.h, raw, 0, min_alloc, nullptr), MPLITE_ERR_INVPAR, "init with 0 bytes"); PBT_EQ(mplite_init(&P.h, raw, buf, 0, nullptr), MPLITE_ERR_INVPAR, "init with min_alloc 0"); }
  PBT_EQ(mplite_init(&P.h, raw, buf, min_alloc, nullptr), MPLITE_OK, "mplite_init");
  c.note("pool of %d bytes, min_alloc %d: %d atoms of %d", buf, min_alloc, P.nblk, P.atom);
  const int max0 = P.largest(); PBT_EQ(mplite_maxmem(&P.h), max0, "mplite_maxmem of the fresh pool");
  bool refused = false, merged = false, freed = false; size_t n_ops = c.size(1, c.thorough ? 400 : 120);
  auto pick = [&]() { auto it = P.live.begin(); std::advance(it, c.draw(P.live.size() - 1)); return it; };
  unsigned wf = (unsigned)c.range(10, 45);
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c); unsigned op = c.weighted({40, wf, 8, 10, 3, 2});
    if (op == 0 || op == 2) {
      int n = drawsize(c, P); int big0 = P.largest();
      void *p = op == 0 ? mplite_malloc(&P.h, n) : mplite_calloc(&P.h, n);
      c.note("%s(%d) -> %ld", op == 0 ? "malloc" : "calloc", n, p ? (long)((char *)p - P.mem) : -1l);
      bool valid = n > 0 && n <= MPLITE_MAX_ALLOC_SIZE; if (valid) P.maxReq = std::max(P.maxReq, (uint32_t)n);
      bool can = valid && P.roundup(n) <= big0;
      if (can && !p) fail("request of %d bytes refused although a free block of %d bytes exists", n, big0);
      if (!can && p) fail("request of %d bytes served although the largest free block has %d bytes", n, big0);
      if (p) {
        int off = P.place(p, n, op == 0 ? "malloc" : "calloc"); if (op == 2) for (int k = 0; k < n; ++k) if (((char *)p)[k]) fail("calloc(%d): byte %d is not zero", n, k);
        Blk b{n, P.roundup(n), P.next++, 0}; P.took(n); P.fill((char *)p, b, c.boolean() ? n : b.full); P.live[off] = b; if (freed && b.full > P.atom) merged = true;
      } else if (valid) refused = true;
    } else if (op == 1) {
      if (P.live.empty()) { mplite_free(&P.h, nullptr); continue; }
      auto it = pick(); P.verify(P.mem + it->first, it->second, it->second.filled, "before free");
      c.note("free(%d: %d bytes)", it->first, it->second.req); mplite_free(&P.h, P.mem + it->first); P.out -= it->second.full; --P.cnt; P.live.erase(it); freed = true;
    } else if (op == 3) {
      if (P.live.empty()) continue; auto it = pick(); Blk b = it->second; int off = it->first; char *p = P.mem + off;
      int n = c.draw(5) == 5 ? drawsize(c, P) : (int)std::min<long>(0x40000000, (long)b.full << c.draw(3)) >> c.draw(1);
      bool valid = n > 0 && (n & (n - 1)) == 0; int big0 = P.largest();
      void *q = mplite_realloc(&P.h, p, n); c.note("realloc(%d: %d bytes, %d) -> %ld", off, b.req, n, q ? (long)((char *)q - P.mem) : -1l);
      if (!valid) { if (q) fail("realloc to %d bytes (no power of two) succeeded", n); }
      else if (n <= b.full) { if (q != p) fail("realloc(%d) of a %d byte block moved or failed", n, b.full); P.verify(p, b, b.filled, "after realloc in place"); }
      else {
        P.maxReq = std::max(P.maxReq, (uint32_t)n); bool can = P.roundup(n) <= big0;
        if (can != !!q) fail("realloc to %d bytes %s, largest free block %d", n, q ? "succeeded" : "failed", big0);
        if (q) {
          P.place(q, n, "realloc"); P.verify((char *)q, b, b.filled, "after realloc"); P.took(n); P.out -= b.full; --P.cnt; P.live.erase(off);
          Blk nb{n, P.roundup(n), P.next++, 0}; P.fill((char *)q, nb, n); P.live[(int)((char *)q - P.mem)] = nb;
        } else { P.verify(p, b, b.filled, "after a failed realloc"); refused = true; }
      }
    } else if (op == 4) {
      if (P.live.empty()) continue; auto it = pick(); int n = std::max(1, (int)(it->second.full << c.draw(2)) >> c.draw(2)); bool pw = (n & (n - 1)) == 0;
      PBT_EQ(mplite_resize(&P.h, P.mem + it->first, n), pw && n <= it->second.full ? MPLITE_OK : MPLITE_ERR_INVPAR, "mplite_resize");
    } else {
      int n = drawsize(c, P); PBT_EQ(mplite_roundup(&P.h, n), n < 1 || n > MPLITE_MAX_ALLOC_SIZE ? 0 : P.roundup(n), "mplite_roundup");
      PBT_CHECK(!mplite_malloc(nullptr, 8) && !mplite_calloc(nullptr, 8) && !mplite_realloc(&P.h, nullptr, 8) && !mplite_maxmem(nullptr) && !mplite_freemem(nullptr), "NULL arguments"); mplite_free(nullptr, raw);
    }
    P.stats();
  }
  for (auto &kv : P.live) P.verify(P.mem + kv.first, kv.second, kv.second.filled, "at the end");
  while (!P.live.empty()) { auto it = pick(); mplite_free(&P.h, P.mem + it->first); P.out -= it->second.full; --P.cnt; P.live.erase(it); P.stats(); }
  PBT_EQ(mplite_freemem(&P.h), P.nblk * P.atom, "free memory after freeing everything"); PBT_EQ(mplite_maxmem(&P.h), max0, "largest block after freeing everything");
  if (max0) { void *p = mplite_malloc(&P.h, max0); PBT_CHECK(p, "the request that fits a fresh pool fails after everything was freed"); }
  free(raw);
  if (refused) c.label("request refused"); if (merged) c.label("served after a free"); if (!P.nblk) c.label("pool without blocks"); if (refused && merged) c.nontrivial();
}

// pools of up to a million atoms, or of nearly 2 GiB with atoms of any size: every size of free block
static void play_large(Case &c, bool giant) {
  static char *span; if (giant && !span) { span = (char *)mmap(nullptr, (size_t)INT_MAX + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (span == MAP_FAILED) fail("harness: mmap"); }
  struct Tidy { bool on; ~Tidy() { if (on) { madvise(span, INT_MAX, MADV_DONTNEED); mem::sparse = 0; } } } tidy{giant}; if (giant) mem::sparse = 256;
  Pool P; P.salt = c.draw(1000); int min_alloc = 8 << c.draw(2); P.atom = min_alloc; P.nblk = (int)c.range(1, c.thorough ? 1200000 : 300000); if (c.boolean()) P.nblk = std::max(1, (1 << c.range(10, 18)) + (int)c.irange(-1, 1)); int buf = giant ? 0 : (P.atom + 1) * P.nblk; if (giant) { min_alloc = 1 << c.range(12, 30); P.atom = min_alloc; buf = c.boolean() ? INT_MAX - (int)c.draw(3) : (int)c.range(1, INT_MAX); P.nblk = (int)(buf / ((long)P.atom + 1)); }
  char *raw = giant ? span : (char *)malloc(buf); P.mem = raw;
  PBT_EQ(mplite_init(&P.h, raw, buf, min_alloc, nullptr), MPLITE_OK, "mplite_init"); c.note("%d atoms of %d", P.nblk, P.atom); const int max0 = P.largest(); P.stats(); size_t n = c.size(1, 40);
  for (size_t i = 0; i < n; ++i) {
    Span sp(c); if (giant) {
      int v = c.boolean() ? (int)c.range(1, INT_MAX) : c.oneof<int>({MPLITE_MAX_ALLOC_SIZE, MPLITE_MAX_ALLOC_SIZE - 1, MPLITE_MAX_ALLOC_SIZE / 2 + 1, INT_MAX, P.atom, P.atom + 1}); PBT_EQ(mplite_roundup(&P.h, v), v > MPLITE_MAX_ALLOC_SIZE ? 0 : P.roundup(v), "mplite_roundup");
      if (P.live.size()) { auto it = P.live.begin(); int w = 1 << c.range(3, 30); PBT_EQ(mplite_resize(&P.h, raw + it->first, w), w <= it->second.full ? MPLITE_OK : MPLITE_ERR_INVPAR, "mplite_resize"); }
      if (c.draw(7) == 7) { void *z = mplite_calloc(&P.h, P.atom); if (z) { for (int k : {0, 1, P.atom - 1, std::min(120, P.atom / 2)}) PBT_CHECK(((char *)z)[k] == 0, "calloc(%d): byte %d is not zero", P.atom, k); int off = P.place(z, P.atom, "calloc"); P.took(P.atom); P.live[off] = Blk{P.atom, P.atom, P.next++, 0}; } else if (P.largest() >= P.atom) fail("calloc(%d) refused", P.atom); if (P.atom <= MPLITE_MAX_ALLOC_SIZE) P.maxReq = std::max(P.maxReq, (uint32_t)P.atom); }
    }
    if (giant && P.live.size() && c.draw(5) == 5) {   // every block of the pool: a longer block keeps both ends of what was in the shorter one
      auto it = P.live.begin(); std::advance(it, c.draw(P.live.size() - 1)); Blk b = it->second; int off = it->first; char *p = raw + off; if (b.full > INT_MAX / 4) continue; int n = b.full << 1, big0 = P.largest(); P.fill(p, b, std::min(b.full, 64)); p[b.full - 1] = 77;
      void *q = mplite_realloc(&P.h, p, n); c.note("realloc(%d: %d bytes, %d) -> %ld", off, b.req, n, q ? (long)((char *)q - raw) : -1l); P.maxReq = std::max(P.maxReq, (uint32_t)n); if ((P.roundup(n) <= big0) != !!q) fail("realloc to %d bytes %s, largest free block %d", n, q ? "succeeded" : "failed", big0);
      char *r = q ? (char *)q : p; P.verify(r, b, b.filled, "after realloc"); PBT_CHECK(r[b.full - 1] == 77, "realloc lost the last byte of %d", b.full); b.filled = std::min(b.req, b.filled); if (!q) { P.live[off] = b; P.stats(); continue; }
      P.place(q, n, "realloc"); P.took(n); P.out -= b.full; --P.cnt; P.live.erase(off); Blk nb{n, P.roundup(n), P.next++, 0}; P.fill((char *)q, nb, 64); P.live[(int)((char *)q - raw)] = nb;
    } else if (P.live.empty() || c.draw(2)) {
      int m = std::max(P.largest(), P.atom), sz = std::max(1, (m >> c.draw(c.boolean() ? 2 : 18)) + (m < INT_MAX ? (int)c.irange(-1, 1) : 0)), big0 = P.largest(); void *p = mplite_malloc(&P.h, sz); c.note("malloc(%d) -> %ld", sz, p ? (long)((char *)p - raw) : -1l); if (sz <= MPLITE_MAX_ALLOC_SIZE) P.maxReq = std::max(P.maxReq, (uint32_t)sz);
      if ((P.roundup(sz) <= big0) != !!p) fail("request of %d bytes %s, the largest free block has %d bytes", sz, p ? "served" : "refused", big0); if (p) { int off = P.place(p, sz, "malloc"); P.took(sz); Blk b{sz, P.roundup(sz), P.next++, 0}; P.fill((char *)p, b, std::min(sz, 64)); P.live[off] = b; }
    } else { auto it = P.live.begin(); std::advance(it, c.draw(P.live.size() - 1)); P.verify(P.mem + it->first, it->second, it->second.filled, "before free"); c.note("free(%d)", it->first); mplite_free(&P.h, P.mem + it->first); P.out -= it->second.full; --P.cnt; P.live.erase(it); }
    P.stats();
  }
  while (!P.live.empty()) { auto it = P.live.begin(); P.verify(P.mem + it->first, it->second, it->second.filled, "at the end"); mplite_free(&P.h, P.mem + it->first); P.out -= it->second.full; --P.cnt; P.live.erase(it); }
  P.stats(); PBT_EQ(mplite_maxmem(&P.h), max0, "largest block after freeing everything"); if (max0) PBT_CHECK(mplite_malloc(&P.h, max0), "the request that fits a fresh pool fails after everything was freed"); if (!giant) free(raw); if (P.next > 4) c.nontrivial();
}
static void large(Case &c) { play_large(c, false); }
static void giant(Case &c) { play_large(c, true); }
std::vector<Suite> suites = {{"giant", giant, 60000, 1000000}, {"large", large, 600, 10000}, {"history", history, 1020000, 20000000}};
