// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <sys/mman.h>
extern "C" {
#include "ring/ringbuffer.h"
}
using namespace pbt;

Property property = {
  "C02",
  "histories of create/write/read/peek/discard/clear with sizes biased to the free space and the stored amount; a second suite first pumps up to 2^32 bytes "
  "through the ring so that its 32-bit positions wrap, a third has capacities up to 2 GiB; non-trivial: data wrapped around the storage end and some request was served only in part",
  "exploration", {"one thread (concurrent use is C03)", "the contents of giant blocks (over 128 KiB, in the suite giant) are only looked at near their ends"}};

static inline char at(uint64_t pos, uint64_t salt) { return (char)mix64(pos * 31 + salt); }

struct Model { uint64_t head = 0, tail = 0, base = 0; };

static void ops(Case &c, ring_buffer_handle h, Model &m, uint64_t cap, size_t n_ops, uint64_t salt, bool &wrapped, bool &partial) {
  auto invariant = [&] {
    uint64_t st = m.tail - m.head;
    PBT_EQ(RingBuffer_available_read(h), st, "available_read");
    PBT_EQ(RingBuffer_available_write(h), cap - st, "available_write");
    PBT_EQ(RingBuffer_is_empty(h), st == 0, "is_empty");
    PBT_EQ(RingBuffer_is_full(h), st == cap, "is_full");
    PBT_EQ(RingBuffer_real_capacity(h), cap, "real_capacity");
    PBT_EQ((uint32_t)(RingBuffer_current_write_position(h) - RingBuffer_current_read_position(h)), (uint32_t)st, "write position - read position");
  };
  invariant();
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c);
    unsigned op = c.weighted({30, 26, 12, 10, 2});
    uint64_t stored = m.tail - m.head, space = cap - stored;
    uint64_t maxn = std::min<uint64_t>(cap + 8, 20000);
    auto len_near = [&](uint64_t lim) -> uint32_t {
      lim = std::min<uint64_t>(lim, 20000);
      switch (c.draw(5)) {
        case 0: return c.size(0, maxn);
        case 1: return lim;
        case 2: return lim + 1;
        case 3: return lim ? lim - 1 : 0;
        default: return c.range(0, lim);
      }
    };
    if (op == 0) {
      uint32_t n = len_near(space); std::vector<char> src(n ? n : 1);
      for (uint32_t k = 0; k < n; ++k) src[k] = at(m.tail + k, salt);
      uint32_t r = RingBuffer_write(h, src.data(), n), want = (uint32_t)std::min<uint64_t>(n, space);
      c.note("write(%u) -> %u", n, r);
      PBT_EQ(r, want, "write: as much as fits");
      if (n > space) partial = true;
      if (r && (m.tail - m.base) % cap + r > cap) wrapped = true;
      m.tail += r;
    } else if (op <= 2) {
      uint32_t n = len_near(stored); std::vector<char> dst(n + 8, (char)0x5a);
      uint32_t r = op == 1 ? RingBuffer_read(h, dst.data(), n) : RingBuffer_peek(h, dst.data(), n);
      c.note("%s(%u) -> %u", op == 1 ? "read" : "peek", n, r);
      PBT_EQ(r, std::min<uint64_t>(n, stored), "read/peek: as much as is there");
      for (uint32_t k = 0; k < r; ++k) PBT_CHECK(dst[k] == at(m.head + k, salt), "%s: byte %u of %u is wrong", op == 1 ? "read" : "peek", k, r);
      for (uint32_t k = r; k < n + 8; ++k) PBT_CHECK(dst[k] == 0x5a, "read/peek wrote byte %u but reported %u", k, r);
      if (n > stored && stored) partial = true;
      if (op == 1) m.head += r;
    } else if (op == 3) {
      uint32_t n = len_near(stored); uint32_t r = RingBuffer_discard(h, n);
      c.note("discard(%u) -> %u", n, r);
      PBT_EQ(r, std::min<uint64_t>(n, stored), "discard: as much as is there");
      m.head += r;
    } else { c.note("clear"); RingBuffer_clear(h); m.head = m.tail; m.base = m.tail; }
    invariant();
  }
}

static ring_buffer_handle make(Case &c, uint64_t maxreq, char **memory, uint64_t *cap) {
  ring_buffer_handle h; *memory = nullptr;
  if (c.boolean()) {
    uint32_t total = (uint32_t)c.size(64, maxreq + 64);
    *memory = (char *)malloc(total);
    h = RingBuffer_create_with_mem(*memory, total); PBT_CHECK(h, "create_with_mem(%u) failed", total);
    *cap = RingBuffer_real_capacity(h);
    c.note("create_with_mem(%u): capacity %llu", total, (unsigned long long)*cap);
    PBT_CHECK(*cap >= 2 && *cap < total && (*cap & (*cap - 1)) == 0, "create_with_mem(%u): capacity %llu", total, (unsigned long long)*cap);
    PBT_CHECK(*cap * 2 > total - 64, "create_with_mem(%u): capacity %llu is less than the previous power of 2", total, (unsigned long long)*cap);
  } else {
    uint32_t req = (uint32_t)c.size(3, maxreq); h = RingBuffer_create(req);
    PBT_CHECK(h, "create(%u) failed", req);
    uint64_t want = 1; while (want < req) want <<= 1;
    *cap = RingBuffer_real_capacity(h); c.note("create(%u)", req);
    PBT_EQ(*cap, want, "create: capacity is the next power of two");
  }
  return h;
}

static void history(Case &c) {
  mem::start(); uint64_t salt = c.draw(1000);
  char *memory; uint64_t cap; ring_buffer_handle h = make(c, c.thorough ? 60000 : 9000, &memory, &cap);
  Model m; bool wrapped = false, partial = false;
  ops(c, h, m, cap, c.size(1, c.thorough ? 400 : 120), salt, wrapped, partial);
  RingBuffer_destroy(&h); PBT_CHECK(!h, "destroy must null the handle"); RingBuffer_destroy(&h); RingBuffer_destroy(nullptr);
  PBT_CHECK(mem::live_blocks() == 0, "memory left after destroy: %s", mem::describe().c_str());
  free(memory); mem::stop();
  if (wrapped) c.label("wrapped"); if (partial) c.label("partial");
  if (wrapped && partial) c.nontrivial();
}

// The positions are 32 bit counters that run over: nothing may change when they do.
static void counter_wrap(Case &c) {
  uint64_t salt = c.draw(1000);
  uint32_t cap = 1u << c.range(11, c.thorough ? 24 : 20);
  ring_buffer_handle h = RingBuffer_create(cap); PBT_CHECK(h, "create(%u)", cap);
  uint32_t before = (uint32_t)c.range(0, std::min<uint32_t>(cap * 3, 40000));  // stop that many bytes before 2^32
  uint64_t target = (1ull << 32) - before; Model m;
  std::vector<char> blob(cap, 'x');
  uint32_t lag = (uint32_t)(c.boolean() ? c.draw(cap / 2) : 0), low = (uint32_t)c.range(cap / 4, cap / 2); uint64_t lcg = c.draw(1u << 30);   // bytes that stay in the ring meanwhile
  while (m.tail < target) {
    lcg = lcg * 6364136223846793005ull + 1442695040888963407ull;
    uint32_t n = (uint32_t)std::min<uint64_t>(lag ? std::min<uint64_t>(cap - lag, low + (lcg >> 40) % (cap / 2)) : cap, target - m.tail);
    uint32_t r = RingBuffer_write(h, blob.data(), n); if (r != n) fail("pump: write(%u) -> %u at %llu", n, r, (unsigned long long)m.tail);
    m.tail += n; uint32_t d = (uint32_t)std::max<int64_t>(0, (int64_t)(m.tail - m.head) - lag);
    r = RingBuffer_discard(h, d); if (r != d) fail("pump: discard(%u) -> %u at %llu", d, r, (unsigned long long)m.tail);
    m.head += d; r = RingBuffer_available_read(h); if (r != m.tail - m.head) fail("pump: available_read %u, stored %llu at %llu", r, (unsigned long long)(m.tail - m.head), (unsigned long long)m.tail);
  }
  c.note("capacity %u, %u bytes before the 32 bit wrap, %u bytes kept stored on the way", cap, before, lag);
  if (uint32_t rest = (uint32_t)(m.tail - m.head)) { PBT_EQ(RingBuffer_discard(h, rest), rest, "discard the rest"); m.head = m.tail; }
  bool w = false, p = false; ops(c, h, m, cap, 250, salt, w, p);
  if (m.tail > (1ull << 32)) { c.label("position wrapped"); c.nontrivial(); }
  RingBuffer_destroy(&h);
}

// Capacities up to 2 GiB: big blocks are moved by their ends only (mem::sparse), what is looked at are small probes in between.
static void giant(Case &c) {
  mem::start(); const uint64_t SPAN = 1ull << 32; const uint32_t EDGE = 1 << 16; static char *ring_mem, *src, *dst; uint64_t salt = c.draw(1000);
  if (!ring_mem) for (char **p : {&ring_mem, &src, &dst}) { *p = (char *)mmap(nullptr, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (*p == MAP_FAILED) fail("harness: mmap"); }
  struct Tidy { ~Tidy() { mem::sparse = 0; for (char *p : {ring_mem, src, dst}) madvise(p, 1ull << 32, MADV_DONTNEED); } } tidy;
  ring_buffer_handle h; uint64_t want = 1ull << c.range(c.boolean() ? 29 : 17, 31);
  if (c.draw(49) == 49) { uint64_t req = c.oneof<uint64_t>({want, want / 2 + 1, want - 1}); h = RingBuffer_create((uint32_t)req); c.note("create(%llu)", (unsigned long long)req); PBT_CHECK(h, "create(%llu) failed", (unsigned long long)req); PBT_EQ(RingBuffer_real_capacity(h), want, "create: capacity is the next power of two"); if (req > want / 4 && want > (1u << 28)) { RingBuffer_destroy(&h); PBT_CHECK(mem::live_blocks() == 0, "memory left after destroy"); mem::stop(); return; } }
  else { uint64_t total = want + 64 + c.oneof<uint64_t>({0, want - 65, want / 2, (uint64_t)c.draw(want - 65)}); h = RingBuffer_create_with_mem(ring_mem, (uint32_t)total); c.note("create_with_mem(%llu)", (unsigned long long)total); PBT_CHECK(h, "create_with_mem(%llu) failed", (unsigned long long)total); PBT_EQ(RingBuffer_real_capacity(h), want, "create_with_mem: capacity is the previous power of two"); }
  const uint64_t cap = want; mem::sparse = 2 * EDGE; uint64_t head = 0, tail = 0; bool partial = false;
  auto counts = [&] { uint64_t st = tail - head; PBT_EQ(RingBuffer_available_read(h), st, "available_read"); PBT_EQ(RingBuffer_available_write(h), cap - st, "available_write"); PBT_EQ(RingBuffer_is_empty(h), st == 0, "is_empty"); PBT_EQ(RingBuffer_is_full(h), st == cap, "is_full"); PBT_EQ((uint32_t)(RingBuffer_current_write_position(h) - RingBuffer_current_read_position(h)), (uint32_t)st, "write position - read position"); };
  auto write = [&](uint32_t n) { for (uint32_t k = 0; k < std::min(n, EDGE); ++k) src[k] = at(tail + k, salt), src[n - 1 - k] = at(tail + n - 1 - k, salt); uint32_t r = RingBuffer_write(h, src, n), w = (uint32_t)std::min<uint64_t>(n, cap - (tail - head)); c.note("write(%u) -> %u", n, r); PBT_EQ(r, w, "write: as much as fits"); if (w < n) partial = true; tail += r; counts(); };
  auto read = [&](uint32_t n, unsigned how, bool known) { uint32_t r = how == 0 ? RingBuffer_read(h, dst, n) : how == 1 ? RingBuffer_peek(h, dst, n) : RingBuffer_discard(h, n), w = (uint32_t)std::min<uint64_t>(n, tail - head); c.note("%s(%u) -> %u", how == 0 ? "read" : how == 1 ? "peek" : "discard", n, r); PBT_EQ(r, w, "read/peek/discard: as much as is there"); if (w < n) partial = true;
    if (known && how < 2) for (uint32_t k = 0; k < r; ++k) PBT_CHECK(dst[k] == at(head + k, salt), "byte %u of %u is wrong", k, r); if (how != 1) head += r; counts(); };
  counts(); size_t n_ops = c.size(3, 30);
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c); uint64_t stored = tail - head, space = cap - stored, lim = c.boolean() ? space : stored; uint32_t big = (uint32_t)std::min<uint64_t>(0xffffffffu, c.oneof<uint64_t>({lim, lim + 1, lim - std::min<uint64_t>(lim, 1), lim / 2, (uint64_t)c.draw(lim), 1ull << 31, 0xffffffff, 70000}));
    switch (c.weighted({5, 3, 1, 6})) {
      case 0: write(big); break;
      case 1: read(big, (unsigned)c.draw(2), false); break;
      case 2: c.note("clear"); RingBuffer_clear(h); head = tail; counts(); break;
      case 3: { if (stored) read((uint32_t)stored, 2, true); uint32_t k = (uint32_t)c.range(1, 3000); write(k); if (c.boolean()) read(k, 1, true); read(k, 0, true); read(1, 0, true); break; }   // a probe
    }
  }
  if (tail > (1ull << 32)) c.label("position wrapped"); RingBuffer_destroy(&h); PBT_CHECK(!h, "destroy must null the handle"); PBT_CHECK(mem::live_blocks() == 0, "memory left after destroy"); mem::stop(); if (partial && tail > cap) c.nontrivial();
}
static void degenerate(Case &c) {
  mem::start(); uint32_t n = (uint32_t)c.draw(1); PBT_CHECK(!RingBuffer_create(n), "create(%u) must fail", n);
  uint32_t k = (uint32_t)c.draw(8); char *p = (char *)malloc(k + 1);
  PBT_CHECK(!RingBuffer_create_with_mem(p, k), "create_with_mem(%u) must fail", k);
  PBT_CHECK(!RingBuffer_create_with_mem(nullptr, 4096), "create_with_mem(NULL) must fail"); free(p);
  ring_buffer_handle h = RingBuffer_create(16); char b[16] = {1};
  PBT_EQ(RingBuffer_write(nullptr, b, 4), 0, "write(NULL)"); PBT_EQ(RingBuffer_read(nullptr, b, 4), 0, "read(NULL)");
  PBT_EQ(RingBuffer_write(h, nullptr, 4), 0, "write from NULL"); PBT_EQ(RingBuffer_write(h, b, 0), 0, "write 0");
  PBT_EQ(RingBuffer_read(h, b, 4), 0, "read from empty"); PBT_EQ(RingBuffer_write(h, b, 16), 16, "fill");
  PBT_EQ(RingBuffer_read(h, nullptr, 4), 0, "read to NULL"); PBT_EQ(RingBuffer_available_read(h), 16, "read to NULL changed the state");
  RingBuffer_peek(h, nullptr, 16); PBT_EQ(RingBuffer_available_read(h), 16, "peek to NULL changed the state");
  RingBuffer_destroy(&h); PBT_EQ(mem::live_blocks(), 0, "leak"); mem::stop();
}

std::vector<Suite> suites = {{"history", history, 250000, 8000000}, {"counter_wrap", counter_wrap, 120, 1200, 120000}, {"giant", giant, 2000, 30000}, {"degenerate", degenerate, 100, 100}};
