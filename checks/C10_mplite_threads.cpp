// variant: sched
#include "pbt.h"
#include "intercept.h"
#include <map>
#include <pthread.h>
extern "C" {
#include "mem/mplite.h"
int lcux_pthread_mutex_lock(pthread_mutex_t *); int lcux_pthread_mutex_unlock(pthread_mutex_t *); int lcux_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
}
using namespace pbt;

Property property = {
  "C10",
  "2..4 threads doing generated malloc/calloc/realloc/free scripts on one small pool with a lock, preempted at generated loads and stores inside the allocator; non-trivial: at least 6 thread switches, "
  "and two threads found the pool locked or a request failed",
  "exploration", {"sequentially consistent interleavings", "each block is used by the thread that allocated it"}};

struct Lock { pthread_mutex_t m; int holder = -2; uint64_t acquired = 0, released = 0, contended = 0; };
static int acq(void *a) { Lock *l = (Lock *)a; if (l->holder == sched::self()) fail("the lock is acquired again by the thread that holds it"); if (l->holder != -2) ++l->contended; lcux_pthread_mutex_lock(&l->m); l->holder = sched::self(); ++l->acquired; return 0; }
static int rel(void *a) { Lock *l = (Lock *)a; if (l->holder != sched::self()) fail("the lock is released by a thread that does not hold it"); l->holder = -2; ++l->released; lcux_pthread_mutex_unlock(&l->m); return 0; }

struct Own { char *p; int req, full; uint64_t id; };
static inline char at(uint64_t id, int k) { return (char)mix64(id * 1000003 + k * 17); }

static void script(Case &c) {
  int atom = 8 << c.draw(2), nblk = (int)c.range(4, 40), buf = (atom + 1) * nblk; char *raw = (char *)malloc(buf); memset(raw, 0, buf);
  mplite_t h; Lock L; int nth = (int)c.range(2, 4); sched::Opts o = sched::draw_opts(c); o.preempt_memory = true; bool refused = false; uint64_t next = 1;
  struct Watch { ~Watch() { sched::on_store = nullptr; } } watch;
  std::map<int, int> live;   // offset -> size, of blocks handed to somebody
  sched::run(c, o, [&] {
    lcux_pthread_mutex_init(&L.m, nullptr);
    mplite_lock_t lk; lk.arg = &L; lk.acquire = acq; lk.release = rel; PBT_EQ(mplite_init(&h, raw, buf, atom, &lk), MPLITE_OK, "mplite_init"); memset(&lk, 0, sizeof lk);
    int max0 = mplite_maxmem(&h); uint64_t served = 0;
    // the bookkeeping (everything but the blocks) belongs to the holder of the lock
    sched::on_store = [&](void *a, unsigned n) { char *p = (char *)a; if (L.holder != sched::self() && ((p + n > (char *)&h && p < (char *)(&h + 1)) || (p + n > raw + nblk * atom && p < raw + buf))) fail("bookkeeping of the pool (byte %td of the %s) is changed outside of the lock", p >= raw && p < raw + buf ? p - raw - nblk * atom : p - (char *)&h, p >= raw && p < raw + buf ? "control bytes" : "handle"); };
    auto roundup = [&](int n) { int f = atom; while (f < n) f <<= 1; return f; };
    auto placed = [&](char *p, int req) {
      int off = (int)(p - raw), full = roundup(req); if (p < raw || off + full > nblk * atom || off % atom) fail("block at offset %d, %d bytes", off, full);
      for (auto &kv : live) if (kv.first < off + full && off < kv.first + kv.second) fail("two live blocks overlap: %d+%d and %d+%d", kv.first, kv.second, off, full);
      live[off] = full;
    };
    auto worker = [&](int who) {
      std::vector<Own> mine; unsigned n = (unsigned)c.range(1, 10);
      auto fill = [&](Own &b) { for (int k = 0; k < b.full; ++k) b.p[k] = at(b.id, k); };
      auto check = [&](Own &b, int m) { for (int k = 0; k < m; ++k) if (b.p[k] != at(b.id, k)) fail("thread %d: byte %d of its %d byte block changed", who, k, b.full); };
      for (unsigned i = 0; i < n; ++i) {
        Span sp(c); unsigned op = c.weighted({40, 30, 6, 14, 5});
        if (op == 0 || op == 2) {
          int sz = (int)c.size(1, 4 * atom); if (c.draw(9) == 9) sz = c.oneof<int>({max0 + 1, MPLITE_MAX_ALLOC_SIZE, MPLITE_MAX_ALLOC_SIZE + 1, 0x7fffffff, 0, -1});
          c.note("thread %d: malloc(%d)", who, sz);
          char *p = (char *)(op == 0 ? mplite_malloc(&h, sz) : mplite_calloc(&h, sz));
          if (!p) { refused = true; } else { ++served; if (sz > max0) fail("more than the pool"); placed(p, sz); if (op == 2) for (int k = 0; k < sz; ++k) if (p[k]) fail("calloc: byte %d is not zero", k); Own b{p, sz, roundup(sz), next++}; fill(b); mine.push_back(b); }
        } else if (op == 1 && !mine.empty()) {
          size_t k = c.draw(mine.size() - 1); check(mine[k], mine[k].full); live.erase((int)(mine[k].p - raw)); c.note("thread %d: free(%d)", who, (int)(mine[k].p - raw)); mplite_free(&h, mine[k].p); mine.erase(mine.begin() + k);
        } else if (op == 3 && !mine.empty()) {
          size_t k = c.draw(mine.size() - 1); Own b = mine[k]; int sz = c.draw(15) == 15 ? MPLITE_MAX_ALLOC_SIZE : b.full << c.draw(2); c.note("thread %d: realloc(%d, %d)", who, (int)(b.p - raw), sz);
          // the old range is free for others at some moment of a moving realloc
          if (sz > b.full) { live.erase((int)(b.p - raw)); }
          char *q = (char *)mplite_realloc(&h, b.p, sz);
          if (sz <= b.full) { if (q != b.p) fail("realloc in place moved"); }
          else if (q) { ++served; placed(q, sz); Own nb{q, sz, roundup(sz), b.id}; Own old = b; old.p = q; check(old, b.full); nb.id = next++; fill(nb); mine[k] = nb; }
          else { refused = true; placed(b.p, b.full); check(b, b.full); }
        } else if (op == 4) {
          int f = mplite_freemem(&h), m = mplite_maxmem(&h); if (f < 0 || f > nblk * atom || f % atom) fail("freemem %d of %d", f, nblk * atom); if (m < 0 || m > max0) fail("maxmem %d, fresh %d", m, max0);
        }
        for (Own &b : mine) check(b, b.full);
      }
      for (Own &b : mine) { check(b, b.full); live.erase((int)(b.p - raw)); mplite_free(&h, b.p); }
    };
    std::vector<int> t; for (int i = 1; i < nth; ++i) t.push_back(sched::spawn([&, i] { worker(i); }));
    worker(0); for (int x : t) sched::join(x);
    if (L.holder != -2 || L.acquired != L.released) fail("lock acquired %llu times, released %llu times", (unsigned long long)L.acquired, (unsigned long long)L.released);
    sched::on_store = nullptr; PBT_EQ(h.nAlloc, served, "number of allocations made (nAlloc)"); PBT_EQ(mplite_alloc_count(&h), served, "mplite_alloc_count");
    PBT_EQ(h.currentOut, 0, "currentOut at the end"); PBT_EQ(h.currentCount, 0, "currentCount at the end");
    PBT_EQ(mplite_freemem(&h), nblk * atom, "free memory at the end"); PBT_EQ(mplite_maxmem(&h), max0, "largest block at the end");
  });
  free(raw);
  if (L.contended) c.label("lock contended"); if (refused) c.label("request refused"); if (sched::switches >= 6 && (L.contended >= 2 || refused)) c.nontrivial();
}

// every call balances the lock, whatever its outcome
static void balance(Case &c) {
  int atom = 8 << c.draw(3), nblk = (int)c.range(1, 20), buf = (atom + 1) * nblk; char *raw = (char *)malloc(buf); Lock L; mplite_t h; lcux_pthread_mutex_init(&L.m, nullptr); bool refused = false;
  mplite_lock_t lk; lk.arg = &L; lk.acquire = acq; lk.release = rel; PBT_EQ(mplite_init(&h, raw, buf, atom, &lk), MPLITE_OK, "mplite_init"); std::vector<void *> b; size_t n = c.size(1, 60);
  auto once = [&](const char *what, uint64_t a0, int lo, int hi) { if (L.holder != -2) fail("%s returned with the lock held", what); int64_t d = (int64_t)(L.acquired - a0); if (L.acquired != L.released) fail("%s: lock acquired %llu times, released %llu times", what, (unsigned long long)L.acquired, (unsigned long long)L.released); if (d < lo || d > hi) fail("%s took the lock %lld times", what, (long long)d); };
  for (size_t i = 0; i < n; ++i) {
    Span sp(c); uint64_t a0 = L.acquired;
    switch (c.draw(5)) {
      case 0: { void *p = mplite_malloc(&h, (int)c.size(1, 4 * atom)); once("malloc", a0, 1, 1); if (p) b.push_back(p); else refused = true; break; }
      case 1: if (!b.empty()) { size_t k = c.draw(b.size() - 1); mplite_free(&h, b[k]); once("free", a0, 1, 1); b.erase(b.begin() + k); } break;
      case 2: { void *p = mplite_calloc(&h, (int)c.size(1, 2 * atom)); once("calloc", a0, 1, 1); if (p) b.push_back(p); else refused = true; break; }
      case 3: if (!b.empty()) { size_t k = c.draw(b.size() - 1); void *p = mplite_realloc(&h, b[k], atom << c.draw(3)); once("realloc", a0, 0, 1); if (p) b[k] = p; else refused = true; } break;
      case 4: mplite_freemem(&h); once("freemem", a0, 1, 1); break;
      case 5: mplite_maxmem(&h); once("maxmem", a0, 1, 1); break;
    }
  }
  free(raw); if (refused) { c.label("balance: refused"); c.nontrivial(); }
}
std::vector<Suite> suites = {{"script", script, 120000, 3000000}, {"balance", balance, 20000, 300000}};
