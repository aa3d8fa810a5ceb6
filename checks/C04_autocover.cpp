// variant: sched
#include "pbt.h"
#include "intercept.h"
#include <sys/mman.h>
extern "C" {
#include "ring/autocover_buffer.h"
extern int lcux_pthread_mutex_lock(pthread_mutex_t *); extern int lcux_pthread_mutex_unlock(pthread_mutex_t *);
extern int lcux_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
}
using namespace pbt;

Property property = {
  "C04",
  "histories of writes and of reads/availability queries at positions in, before and behind the held data; a suite that starts near the 32-bit position wrap; a suite with "
  "a writer and a reader thread sharing the buffer through its lock; non-trivial: data was overwritten unread and a read crossed the storage end",
  "exploration", {"positions are taken modulo the capacity, as the code and its demo do", "writes up to the capacity"}};

static inline char at(uint64_t pos, uint64_t salt) { return (char)mix64(pos * 31 + salt); }

// Stream positions [r, w) are held.
struct Model {
  uint64_t cap, r = 0, w = 0;
  void write(uint64_t n) { if (w - r + n > cap) r = w + n - cap; w += n; }
  // >=0: bytes readable from p on; -1: not held; -2: p is the end of the data (nothing there yet)
  int64_t avail(uint64_t p, uint64_t *abs) const {
    uint64_t off = (p - r) & (cap - 1), s = w - r; *abs = r + off;
    if (off < s) return (int64_t)(s - off);
    return off == s ? -2 : -1;
  }
};
struct Lock { int depth = 0; uint64_t acquired = 0; bool threaded = false; pthread_mutex_t mu; std::function<void()> on_acquire; };
static int acq(void *a) { Lock *l = (Lock *)a; if (l->threaded) lcux_pthread_mutex_lock(&l->mu); if (l->depth != 0) fail("lock acquired while it is held"); l->depth = 1; ++l->acquired; if (l->on_acquire) l->on_acquire(); return 0; }
static int rel(void *a) { Lock *l = (Lock *)a; if (l->depth != 1) fail("lock released while it is not held"); l->depth = 0; if (l->threaded) lcux_pthread_mutex_unlock(&l->mu); return 0; }

static void check_read(const char *what, int64_t m, uint64_t abs, uint64_t n, int got, const char *dst, uint64_t salt) {
  if (m == -1) PBT_EQ(got, AUTO_COVER_BUF_ERR_DATA_COVERED, what);
  else if (m == -2) PBT_CHECK(got == AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH, "%s at the end of the data, where nothing is covered, returned %d", what, got);
  else if ((uint64_t)m < n) PBT_EQ(got, AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH, what);
  else {
    PBT_EQ(got, n, what);
    for (uint64_t k = 0; k < n; ++k) PBT_CHECK(dst[k] == at(abs + k, salt), "%s: byte %llu of %llu is not the one written at that position", what, (unsigned long long)k, (unsigned long long)n);
  }
}

static void run_history(Case &c, bool pump) {
  mem::start(); uint64_t salt = c.draw(1000);
  uint32_t req = pump ? 1u << c.range(11, 16) : (uint32_t)c.size(3, c.chance(1, 60) ? 300000 : 600);
  bool locked = c.boolean(); Lock lk; auto_cover_buf_lock_t l = {&lk, acq, rel};
  auto_cover_buf_handle h = auto_cover_buf_create(req, locked ? &l : nullptr); PBT_CHECK(h, "create(%u)", req);
  Model m; m.cap = 1; while (m.cap < req) m.cap <<= 1;
  c.note("create(%u) capacity %llu lock=%d", req, (unsigned long long)m.cap, locked);
  if (pump) {
    uint64_t stop = (1ull << 32) - c.range(0, m.cap * 3); std::vector<char> b(m.cap);
    while (m.w < stop) {
      uint64_t n = std::min<uint64_t>(m.cap, stop - m.w); bool last = stop - m.w <= 2 * m.cap;
      if (last) for (uint64_t k = 0; k < n; ++k) b[k] = at(m.w + k, salt);
      int g = auto_cover_buf_write(h, b.data(), (uint32_t)n); if (g != (int)n) fail("write(%llu) -> %d", (unsigned long long)n, g);
      m.write(n);
    }
  }
  bool overwrote = false, crossed = false;
  size_t n_ops = c.size(1, c.thorough ? 200 : 80);
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c); uint64_t a0 = lk.acquired;
    unsigned op = c.weighted({40, 40, 20});
    if (op == 0) {
      uint64_t lim = m.cap - (m.w - m.r), n;
      switch (c.draw(4)) { case 0: n = std::min<uint64_t>(lim, m.cap); break; case 1: n = std::min(lim + 1, m.cap); break; case 2: n = m.cap - c.draw(1); break; default: n = c.size(1, m.cap); }
      if (n == 0) n = 1;
      std::vector<char> b(n); for (uint64_t k = 0; k < n; ++k) b[k] = at(m.w + k, salt);
      int g = auto_cover_buf_write(h, b.data(), (uint32_t)n); c.note("write(%llu) -> %d", (unsigned long long)n, g);
      PBT_EQ(g, n, "write"); if (m.w - m.r + n > m.cap) overwrote = true; m.write(n);
    } else {
      uint64_t p;
      switch (c.draw(5)) {
        case 0: p = m.r + c.draw(m.w - m.r); break;
        case 1: p = m.w - std::min<uint64_t>(m.w, c.draw(m.cap)); break;
        case 2: p = m.r; break;
        case 3: p = m.w; break;
        case 4: p = m.r - std::min<uint64_t>(m.r, c.range(0, 3)); break;
        default: p = (m.r & (m.cap - 1)) + c.draw(2 * m.cap); break;
      }
      uint64_t abs; int64_t a = m.avail((uint32_t)p, &abs);
      if (op == 2) {
        int g = auto_cover_buf_available_read(h, (uint32_t)p); c.note("available_read(%u) -> %d", (uint32_t)p, g);
        if (a == -1) PBT_EQ(g, AUTO_COVER_BUF_ERR_DATA_COVERED, "available_read of data that is gone");
        else if (a == -2) PBT_EQ(g, 0, "available_read at the end of the data");
        else PBT_EQ(g, a, "available_read");
      } else {
        uint64_t n = a > 0 ? c.range(1, a + 1) : c.range(1, m.cap);
        if (c.draw(3) == 0 && a > 0) n = a;
        if (c.chance(1, 30)) n = c.oneof<uint64_t>({1ull << 31, (1ull << 31) - 1, (1ull << 31) + 5, 0xffffffff, 0xfffffffe, m.cap + 1, 1ull << 30});   // far more than there is
        std::vector<char> b(std::min<uint64_t>(n, m.cap) + 8, (char)0x5a);
        int g = auto_cover_buf_read(h, (uint32_t)p, b.data(), (uint32_t)n); c.note("read(%u, %llu) -> %d", (uint32_t)p, (unsigned long long)n, g);
        check_read("read", a, abs, n, g, b.data(), salt);
        for (uint64_t k = g > 0 ? g : 0; k < b.size(); ++k) PBT_CHECK(b[k] == 0x5a, "read wrote to the target beyond what it reported");
        if (g > 0) { if ((abs & (m.cap - 1)) + n > m.cap) crossed = true; m.r = abs + n; }
      }
    }
    PBT_EQ(lk.depth, 0, "lock left held"); if (locked) PBT_CHECK(lk.acquired > a0, "operation without taking the lock");
  }
  auto_cover_buf_destroy(&h); PBT_CHECK(!h, "destroy must null the handle"); auto_cover_buf_destroy(&h); auto_cover_buf_destroy(nullptr);
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
  if (overwrote) c.label("overwrote unread data"); if (crossed) c.label("read crossed the end");
  if (overwrote && (crossed || pump)) c.nontrivial();
}
static void history(Case &c) { run_history(c, false); }
static void position_wrap(Case &c) { run_history(c, true); }

static void threads(Case &c) {
  uint64_t salt = c.draw(1000); uint32_t cap = 1u << c.range(2, 5);
  Lock lk; lk.threaded = true; auto_cover_buf_lock_t l = {&lk, acq, rel};
  sched::Opts o = sched::draw_opts(c); Model m; m.cap = cap; unsigned good = 0, covered = 0;
  sched::run(c, o, [&] {
    lcux_pthread_mutex_init(&lk.mu, nullptr);
    auto_cover_buf_handle h = auto_cover_buf_create(cap, &l);
    bool wp = false, rpend = false; int64_t wn = 0; int wid = -1; int64_t ra = 0; uint64_t rabs = 0, rp = 0, rn = 0;
    lk.on_acquire = [&] {
      if (sched::self() == wid) { if (wp) m.write((uint64_t)wn); wp = false; }
      else if (rpend) { rpend = false; ra = m.avail((uint32_t)rp, &rabs); if (ra >= (int64_t)rn) m.r = rabs + rn; }
    };
    unsigned nw = (unsigned)c.range(1, 12); bool done = false;
    int p = sched::spawn([&] {
      wid = sched::self();
      for (unsigned i = 0; i < nw; ++i) {
        wn = (int64_t)c.range(1, cap); std::vector<char> b(wn); uint64_t base = m.w; for (int64_t k = 0; k < wn; ++k) b[k] = at(base + k, salt);
        wp = true; int g = auto_cover_buf_write(h, b.data(), (uint32_t)wn); if (g != wn) fail("write(%lld) -> %d", (long long)wn, g);
      }
      done = true;
    });
    for (unsigned i = 0; i < 20 && !(done && i > 8); ++i) {
      rn = c.range(1, cap / 2); rp = m.w - std::min<uint64_t>(m.w, c.draw(cap)); std::vector<char> b(rn);
      rpend = true; int g = auto_cover_buf_read(h, (uint32_t)rp, b.data(), (uint32_t)rn);
      check_read("concurrent read", ra, rabs, rn, g, b.data(), salt); if (g > 0) ++good; else ++covered;
      if (c.boolean()) sched::yield();
    }
    sched::join(p);
    auto_cover_buf_destroy(&h);
  });
  c.note("capacity %u, %u reads with data, %u without, %llu switches", cap, good, covered, (unsigned long long)sched::switches);
  if (good && sched::switches > 4) { c.label("threads: data read"); c.nontrivial(); }
}

// Buffers of 64 KiB to 2 GiB: long blocks are moved by their ends only (mem::sparse), and compared where they hold the ends of what was written.
static void giant(Case &c) {
  mem::start(); const uint64_t SPAN = (1ull << 31) + 4096; const int64_t EDGE = 1 << 12; static char *src, *dst; uint64_t salt = c.draw(1000);
  if (!src) for (char **p : {&src, &dst}) { *p = (char *)mmap(nullptr, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (*p == MAP_FAILED) fail("harness: mmap"); }
  struct On { On() { mem::big = 64 << 10; mem::sparse = 1 << 13; } ~On() { mem::big = mem::sparse = 0; for (char *p : {src, dst}) madvise(p, (1ull << 31) + 4096, MADV_DONTNEED); } } on;
  Model m; m.cap = 1ull << c.range(16, 31); uint32_t req = (uint32_t)(c.boolean() ? m.cap : c.range(m.cap / 2 + 1, m.cap)); auto_cover_buf_handle h = auto_cover_buf_create(req, nullptr); if (!h && m.cap > 1u << 30) { PBT_CHECK(mem::live_blocks() == 0, "failed create leaked"); mem::stop(); return; }   // more than an int can count: refused, or it works
  PBT_CHECK(h, "create(%u)", req); c.note("create(%u) capacity %llu", req, (unsigned long long)m.cap);
  std::vector<std::pair<uint64_t, uint64_t>> known; bool overwrote = false, seen = false; size_t n_ops = c.size(2, 40), compared = 0;
  auto near = [&](uint64_t x) { int64_t d = c.irange(-3, 3); return d < 0 && x < (uint64_t)-d ? x : x + d; };
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c);
    if (c.draw(1) == 0) {
      uint64_t lim = m.cap - (m.w - m.r), n; switch (c.draw(4)) { case 0: n = lim; break; case 1: n = std::min(lim + 1, m.cap); break; case 2: n = m.cap - c.draw(1); break; case 3: n = std::min<uint64_t>(m.cap, near(65536)); break; default: n = c.range(1, m.cap); } n = std::max<uint64_t>(1, std::min(n, m.cap));
      for (int64_t k = 0; k < std::min<int64_t>((int64_t)n, EDGE); ++k) src[k] = at(m.w + k, salt), src[n - 1 - k] = at(m.w + n - 1 - k, salt);
      int g = auto_cover_buf_write(h, src, (uint32_t)n); c.note("write(%llu) -> %d", (unsigned long long)n, g); PBT_EQ(g, n, "write");
      if (n <= (uint64_t)EDGE * 2) known.push_back({m.w, m.w + n}); else { known.push_back({m.w, m.w + EDGE}); known.push_back({m.w + n - EDGE, m.w + n}); }
      if (m.w - m.r + n > m.cap) overwrote = true; m.write(n);
    } else {
      uint64_t p = m.r; switch (c.draw(5)) { case 0: p = m.r + c.draw(m.w - m.r); break; case 1: p = near(m.r); break; case 2: p = near(m.w); break; case 3: p = m.r & (m.cap - 1); break; default: if (!known.empty()) p = near(known[c.draw(known.size() - 1)].first); break; }
      uint64_t abs; int64_t a = m.avail((uint32_t)p, &abs);
      if (c.draw(2) == 0) {
        int g = auto_cover_buf_available_read(h, (uint32_t)p); c.note("available_read(%u) -> %d", (uint32_t)p, g);
        if (a == -1) PBT_EQ(g, AUTO_COVER_BUF_ERR_DATA_COVERED, "available_read of data that is gone"); else PBT_EQ(g, a == -2 ? 0 : a, "available_read");
      } else {
        uint64_t n = a > 0 ? c.range(1, a + 1) : c.range(1, m.cap); if (a > 0) switch (c.draw(3)) { case 0: n = a; break; case 1: n = std::min<uint64_t>(a, near(65536)); break; case 2: n = std::min<uint64_t>(a, 3000); break; } if (c.chance(1, 30)) n = c.oneof<uint64_t>({1ull << 31, 0xffffffff, m.cap + 1, m.cap + 65536}); bool ok = a >= 0 && (uint64_t)a >= n;
        int g = auto_cover_buf_read(h, (uint32_t)p, dst, (uint32_t)n); c.note("read(%u, %llu) -> %d", (uint32_t)p, (unsigned long long)n, g);
        if (!ok) check_read("read", a, abs, n, g, dst, salt);
        else {
          PBT_EQ(g, n, "read"); seen = true;
          for (auto &kn : known) for (int side = 0; side < 2; ++side) {
            uint64_t lo = side ? abs + n - std::min<uint64_t>(n, EDGE) : abs, hi = side ? abs + n : abs + std::min<uint64_t>(n, EDGE); lo = std::max(lo, kn.first); hi = std::min(hi, kn.second);
            for (uint64_t q = lo; q < hi; ++q) { ++compared; PBT_CHECK(dst[q - abs] == at(q, salt), "read: byte %llu of %llu is not the one written at that position", (unsigned long long)(q - abs), (unsigned long long)n); }
          }
          m.r = abs + n;
        }
      }
    }
  }
  auto_cover_buf_destroy(&h); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (overwrote && seen && compared) c.nontrivial();
}

std::vector<Suite> suites = {{"history", history, 500000, 12000000}, {"position_wrap", position_wrap, 120, 1500, 60000}, {"giant", giant, 40000, 500000}, {"threads", threads, 150000, 4000000}};
