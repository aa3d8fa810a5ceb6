// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <sys/mman.h>
extern "C" {
#include "ring/ring_buf.h"
}
using namespace pbt;

Property property = {
  "C01",
  "histories of create(own or caller memory)/write/read/peek/discard/clear with sizes biased to the free space, the stored amount and one beyond; rings of 2 to 9 GiB whose big blocks are copied at their ends only; "
  "non-trivial: the data wrapped around the end of the storage and at least one request was refused",
  "exploration", {"one thread (concurrent use is C03)"}};

static inline char at(uint64_t pos, uint64_t salt) { return (char)mix64(pos * 31 + salt); }

static void history(Case &c) {
  mem::start();
  uint64_t salt = c.draw(1000);
  size_t size = c.size(3, c.thorough ? 70000 : 9000);
  bool own = c.boolean();
  char *memory = nullptr; ring_handle h;
  size_t hdr = 0;
  if (own) {
    // caller memory: how much of it holds data is whatever the ring reports; the rest is bookkeeping
    size_t total = size + 64;
    memory = (char *)malloc(total);
    h = ring_buf_create_with_mem(memory, total); PBT_CHECK(h != nullptr, "create_with_mem(%zu) failed", total);
    size_t room = ring_buf_available_write(h);
    PBT_CHECK(room > 0 && room < total, "create_with_mem(%zu): capacity %zu", total, room);
    PBT_CHECK(total - room <= 128, "create_with_mem(%zu): capacity only %zu", total, room);
    hdr = total - room - 1; size = room + 1;
  } else {
    h = ring_buf_create(size); PBT_CHECK(h != nullptr, "create(%zu) failed", size);
  }
  (void)hdr;
  c.note("%s size=%zu", own ? "create_with_mem" : "create", size);
  const size_t cap = size - 1;
  uint64_t head = 0, tail = 0, base = 0;  // stored bytes are positions [head, tail)
  bool wrapped = false, refused = false;
  auto invariant = [&] {
    size_t ar = ring_buf_available_read(h), aw = ring_buf_available_write(h);
    PBT_EQ(ar, tail - head, "available_read");
    PBT_EQ(aw, cap - (tail - head), "available_write");
  };
  invariant();
  size_t n_ops = c.size(1, c.thorough ? 400 : 120);
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c);
    unsigned op = c.weighted({30, 26, 12, 10, 2});
    uint64_t stored = tail - head, space = cap - stored;
    auto len_near = [&](uint64_t lim) -> size_t {
      switch (c.draw(5)) {
        case 0: return c.size(0, cap + 2);
        case 1: return lim;
        case 2: return lim + 1;
        case 3: return lim ? lim - 1 : 0;
        default: return (size_t)c.range(0, lim);
      }
    };
    if (op == 0) {
      size_t n = len_near(space); std::vector<char> src(n ? n : 1);
      for (size_t k = 0; k < n; ++k) src[k] = at(tail + k, salt);
      std::vector<char> copy = src;
      size_t r = ring_buf_write(h, src.data(), n);
      size_t want = n <= space ? n : 0;
      c.note("write(%zu) -> %zu", n, r);
      PBT_EQ(r, want, "write: all or nothing");
      PBT_CHECK(src == copy, "write modified its source");
      if (n > space) refused = true;
      if (r && (tail - base) % size + r > size) { wrapped = true; }
      tail += r;
    } else if (op <= 2) {
      size_t n = len_near(stored); std::vector<char> dst(n + 8, (char)0x5a);
      size_t r = op == 1 ? ring_buf_read(h, dst.data(), n) : ring_buf_peek(h, dst.data(), n);
      c.note("%s(%zu) -> %zu", op == 1 ? "read" : "peek", n, r);
      PBT_EQ(r, n <= stored ? n : 0, "read/peek: all or nothing");
      for (size_t k = 0; k < r; ++k) PBT_CHECK(dst[k] == at(head + k, salt), "%s: byte %zu of %zu is wrong", op == 1 ? "read" : "peek", k, r);
      for (size_t k = r; k < n + 8; ++k) PBT_CHECK(dst[k] == 0x5a, "read/peek wrote byte %zu but reported %zu", k, r);
      if (n > stored) refused = true;
      if (op == 1) head += r;
    } else if (op == 3) {
      size_t n = len_near(stored); size_t r = ring_buf_discard(h, n);
      c.note("discard(%zu) -> %zu", n, r);
      PBT_EQ(r, n <= stored ? n : 0, "discard: all or nothing");
      head += r;
    } else { c.note("clear"); ring_buf_clear(h); head = tail; base = tail; }
    invariant();
  }
  // drain: everything still stored comes out in order
  uint64_t stored = tail - head; std::vector<char> dst(stored + 1);
  PBT_EQ(ring_buf_read(h, dst.data(), stored), stored, "final drain");
  for (size_t k = 0; k < stored; ++k) PBT_CHECK(dst[k] == at(head + k, salt), "final drain: byte %zu of %zu is wrong", k, (size_t)stored);
  ring_buf_destroy(&h); PBT_CHECK(h == nullptr, "destroy must null the handle");
  ring_buf_destroy(&h); ring_buf_destroy(nullptr);
  PBT_CHECK(mem::live_blocks() == 0, "memory left after destroy: %s", mem::describe().c_str());
  free(memory); mem::stop();
  if (wrapped) c.label("wrapped"); if (refused) c.label("refused"); if (own) c.label("caller memory");
  if (wrapped && refused) c.nontrivial();
}

// Rings beyond 4 GiB: big blocks are moved by their ends only (mem::sparse), what is looked at are small probes in between.
static void giant(Case &c) {
  mem::start(); const size_t G = 1ull << 30, SPAN = 11 * G, EDGE = 1 << 16; static char *ring_mem, *src, *dst; uint64_t salt = c.draw(1000);
  if (!ring_mem) for (char **p : {&ring_mem, &src, &dst}) { *p = (char *)mmap(nullptr, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (*p == MAP_FAILED) fail("harness: mmap"); }
  struct Tidy { ~Tidy() { mem::sparse = 0; mem::big = 0; for (char *p : {ring_mem, src, dst}) madvise(p, 11ull << 30, MADV_DONTNEED); } } tidy;
  size_t size = c.oneof<size_t>({1ull << 31, 1ull << 32, (1ull << 32) + 1, 5 * G, 9 * G, 1ull << 33}) + c.draw(4096) - c.draw(2) * 2000; bool own = c.draw(1); mem::big = 1 << 30; ring_handle h = own ? ring_buf_create(size) : ring_buf_create_with_mem(ring_mem, size); PBT_CHECK(h, "%s(%zu) failed", own ? "create" : "create_with_mem", size);
  const size_t cap = ring_buf_available_write(h); PBT_CHECK(cap < size && size - cap <= 128, "create(%zu): capacity %zu", size, cap); size = cap + 1; if (own) c.label("own memory"); mem::sparse = 2 * EDGE; c.note("ring of %zu bytes", cap);
  uint64_t head = 0, tail = 0; bool wrapped = false, refused = false; size_t n_ops = c.size(3, 25);
  auto counts = [&] { PBT_EQ(ring_buf_available_read(h), tail - head, "available_read"); PBT_EQ(ring_buf_available_write(h), cap - (tail - head), "available_write"); };
  auto write = [&](size_t n) { for (size_t k = 0; k < std::min(n, EDGE); ++k) src[k] = at(tail + k, salt), src[n - 1 - k] = at(tail + n - 1 - k, salt); size_t r = ring_buf_write(h, src, n), w = n <= cap - (tail - head) ? n : 0; c.note("write(%zu) -> %zu", n, r); PBT_EQ(r, w, "write: all or nothing"); if (n && !w) refused = true; if (r && tail % size + r > size) wrapped = true; tail += r; counts(); };
  // whole says that every byte is known, otherwise nothing inside is looked at
  auto read = [&](size_t n, unsigned how, bool known) { size_t r = how == 0 ? ring_buf_read(h, dst, n) : how == 1 ? ring_buf_peek(h, dst, n) : ring_buf_discard(h, n), w = n <= tail - head ? n : 0; c.note("%s(%zu) -> %zu", how == 0 ? "read" : how == 1 ? "peek" : "discard", n, r); PBT_EQ(r, w, "read/peek/discard: all or nothing"); if (n && !w) refused = true;
    if (known && how < 2) for (size_t k = 0; k < r; ++k) PBT_CHECK(dst[k] == at(head + k, salt), "byte %zu of %zu is wrong", k, r); if (how != 1) head += r; counts(); };
  counts();
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c); uint64_t stored = tail - head, space = cap - stored, lim = c.boolean() ? space : stored; size_t big = c.oneof<size_t>({lim, lim + 1, lim - std::min<size_t>(lim, 1), lim / 2, (size_t)c.range(0, lim), 1ull << 32, (1ull << 32) - 1, (1ull << 31) + 5}); big = std::min(big, SPAN);
    switch (c.weighted({4, 3, 1, 6, 1})) {
      case 0: write(big); break;
      case 1: read(big, c.draw(2), false); break;
      case 2: c.note("clear"); ring_buf_clear(h); head = tail = 0; counts(); break;
      case 3: { if (stored) read(stored, 2, true); size_t k = c.range(1, 3000); if (k <= cap) { write(k); if (c.boolean()) read(k, 1, true); read(k, 0, true); read(1, 0, true); } break; }   // a probe
      case 4: { if (stored) read(stored, 2, true); size_t pos = (size_t)(tail % size), to = c.oneof<size_t>({0, 1ull << 32, 1ull << 31, size / 2}), k = c.range(1, 2000), step = to % size > pos ? to % size - pos : size - pos + to % size; if (step > k && step - k <= cap) { step -= k; write(step); read(step, 2, true); write(2 * k); read(2 * k, 0, true); } break; } }   // a probe across a position
  }
  ring_buf_destroy(&h); PBT_CHECK(!h, "destroy must null the handle"); PBT_CHECK(mem::live_blocks() == 0, "memory left after destroy"); mem::stop(); if (wrapped && refused) c.nontrivial();
}
static void too_small(Case &c) {
  mem::start();
  size_t n = c.draw(2); PBT_CHECK(ring_buf_create(n) == nullptr, "create(%zu) must fail", n);
  size_t m = c.draw(8); char *p = (char *)malloc(m + 1);
  PBT_CHECK(ring_buf_create_with_mem(p, m) == nullptr, "create_with_mem(%zu) must fail", m);
  PBT_CHECK(ring_buf_create_with_mem(nullptr, 1000) == nullptr, "create_with_mem(NULL) must fail");
  free(p); PBT_EQ(mem::live_blocks(), 0, "memory left by failed creates"); mem::stop();
}

std::vector<Suite> suites = {{"history", history, 600000, 10000000}, {"giant", giant, 2000, 30000}, {"too_small", too_small, 200, 1000}};
