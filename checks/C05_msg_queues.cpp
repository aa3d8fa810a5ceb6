// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <deque>
#include <sys/mman.h>
extern "C" {
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
}
using namespace pbt;

Property property = {
  "C05",
  "histories of push/pop/next-size/amounts/clear with message lengths biased to the free space, and pops into exact, larger and too small buffers; non-trivial: a push was "
  "refused as full and the messages stored wrapped around the storage end",
  "exploration", {"one thread (concurrent use is C03)"}};

static inline char at(uint64_t id, uint64_t k, uint64_t salt) { return (char)mix64(id * 100003 + k * 31 + salt); }

static void msg_queue_history(Case &c) {
  mem::start(); uint64_t salt = c.draw(1000);
  uint32_t buf = (uint32_t)c.size(48, c.thorough ? 20000 : 3000);
  msg_queue q = msg_queue_create(buf); PBT_CHECK(q, "create(%u) failed", buf);
  const uint32_t cap = msg_queue_available_push_bytes(q);
  c.note("msg_queue_create(%u): room %u", buf, cap);
  PBT_CHECK(cap > 0 && cap <= buf && (buf < 128 || cap >= buf / 4), "create(%u): room for %u bytes", buf, cap);
  PBT_EQ(msg_queue_available_pop_bytes(q), 0, "fresh queue");
  struct Msg { uint64_t id; uint32_t n; }; std::deque<Msg> m; uint64_t used = 0, next = 1, moved = 0; bool full = false, small = false;
  uint32_t over = 0; bool over_known = false;   // bytes of bookkeeping per message, learned from the first push
  size_t n_ops = c.size(1, c.thorough ? 300 : 100);
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c); unsigned op = c.weighted({40, 36, 10, 2, 4});
    uint32_t space = msg_queue_available_push_bytes(q);
    PBT_EQ(space + msg_queue_available_pop_bytes(q), cap, "free + used bytes");
    if (m.empty()) PBT_EQ(space, cap, "empty queue: free bytes");
    PBT_EQ(msg_queue_available_pop_bytes(q), used + (over_known ? m.size() * over : 0), "used bytes");
    PBT_EQ(msg_queue_next_msg_size(q), m.empty() ? 0 : m.front().n, "next_msg_size");
    if (op == 0) {
      uint32_t n; int64_t fit = (int64_t)space - (int64_t)(over_known ? over : 4);
      switch (c.draw(5)) { case 0: n = (uint32_t)c.size(1, cap); break; case 1: n = (uint32_t)std::max<int64_t>(1, fit); break; case 2: n = (uint32_t)std::max<int64_t>(1, fit + 1); break;
        case 3: n = (uint32_t)std::max<int64_t>(1, (int64_t)fit - (int64_t)c.draw(9)); break; case 4: n = (uint32_t)c.range(1, 8); break; default: n = (uint32_t)c.size(1, cap + 20); }
      std::vector<char> b(n); for (uint32_t k = 0; k < n; ++k) b[k] = at(next, k, salt);
      msg_q_code_e r = msg_queue_push(q, b.data(), n); c.note("push(%u bytes) -> %d", n, r);
      bool fits = over_known ? (uint64_t)n + over <= space : n < space;
      if (r == MSG_Q_CODE_SUCCESS) {
        uint32_t used_now = space - msg_queue_available_push_bytes(q);
        if (!over_known) { over = used_now - n; over_known = true; PBT_CHECK(over <= 16, "a message of %u bytes took %u", n, used_now); }
        PBT_EQ(used_now, n + over, "bytes taken by the push");
        m.push_back({next++, n}); used += n; moved += n + over;
        PBT_CHECK(fits, "push of %u bytes accepted with %u bytes free", n, space);
      } else {
        PBT_EQ(r, MSG_Q_CODE_FULL, "push"); full = true;
        PBT_CHECK(!over_known || !fits, "push of %u bytes refused with %u bytes free", n, space);
        PBT_CHECK(over_known || n + 16 > space, "push of %u bytes refused with %u bytes free", n, space);
        PBT_EQ(msg_queue_available_push_bytes(q), space, "refused push changed the queue");
      }
    } else if (op == 1) {
      uint32_t n = m.empty() ? 4 : m.front().n, cap_out;
      switch (c.draw(3)) { case 0: cap_out = n; break; case 1: cap_out = n + (uint32_t)c.range(1, 40); break; case 2: cap_out = n; break; default: cap_out = (uint32_t)c.draw(n - 1); }
      std::vector<char> b(cap_out + 8, (char)0x5a); uint32_t sz = cap_out;
      msg_q_code_e r = msg_queue_pop(q, b.data(), &sz); c.note("pop(buffer %u) -> %d, size %u", cap_out, r, sz);
      if (m.empty()) { PBT_EQ(r, MSG_Q_CODE_EMPTY, "pop from empty"); }
      else if (cap_out < n) {
        PBT_EQ(r, MSG_Q_CODE_BUF_NOT_ENOUGH, "pop into a small buffer"); PBT_EQ(sz, n, "pop into a small buffer: reported size"); small = true;
        for (char ch : b) PBT_CHECK(ch == 0x5a, "refused pop wrote to the buffer");
      } else {
        PBT_EQ(r, MSG_Q_CODE_SUCCESS, "pop"); PBT_EQ(sz, n, "pop: reported size of the message");
        for (uint32_t k = 0; k < n; ++k) PBT_CHECK(b[k] == at(m.front().id, k, salt), "popped message differs at byte %u of %u", k, n);
        for (size_t k = n; k < b.size(); ++k) PBT_CHECK(b[k] == 0x5a, "pop wrote beyond the message");
        used -= n; m.pop_front();
      }
    } else if (op == 3) { c.note("clear"); msg_queue_clear(q); m.clear(); used = 0; }
    else if (op == 4) {
      char b[4]; uint32_t s = 4;
      PBT_EQ(msg_queue_push(q, nullptr, 4), MSG_Q_CODE_NULL_HANDLE, "push NULL"); PBT_EQ(msg_queue_push(q, b, 0), MSG_Q_CODE_NULL_HANDLE, "push 0 bytes");
      PBT_EQ(msg_queue_push(nullptr, b, 4), MSG_Q_CODE_NULL_HANDLE, "push to NULL"); PBT_EQ(msg_queue_pop(nullptr, b, &s), MSG_Q_CODE_NULL_HANDLE, "pop from NULL");
      PBT_EQ(msg_queue_pop(q, nullptr, &s), MSG_Q_CODE_NULL_HANDLE, "pop to NULL"); PBT_EQ(msg_queue_pop(q, b, nullptr), MSG_Q_CODE_NULL_HANDLE, "pop without size");
      PBT_EQ(msg_queue_next_msg_size(nullptr), 0, "next_msg_size(NULL)");
    }
  }
  while (!m.empty()) {
    std::vector<char> b(m.front().n); uint32_t sz = m.front().n; PBT_EQ(msg_queue_pop(q, b.data(), &sz), MSG_Q_CODE_SUCCESS, "drain");
    for (uint32_t k = 0; k < m.front().n; ++k) PBT_CHECK(b[k] == at(m.front().id, k, salt), "drained message differs"); m.pop_front();
  }
  PBT_EQ(msg_queue_available_push_bytes(q), cap, "drained queue: free bytes");
  msg_queue_destroy(&q); PBT_CHECK(!q, "destroy must null the handle"); msg_queue_destroy(&q); msg_queue_destroy(nullptr);
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
  if (full) c.label("push refused: full"); if (small) c.label("pop refused: small buffer"); if (moved > cap) c.label("wrapped");
  if (full && moved > cap) c.nontrivial();
}

static void fixed_history(Case &c) {
  mem::start(); uint64_t salt = c.draw(1000);
  uint32_t one = (uint32_t)c.size(1, 300), capm = (uint32_t)c.size(1, 60);
  if (one * capm < 64) capm = (64 + one - 1) / one;
  fixed_msg_queue q = fixed_msg_queue_create(one, capm); PBT_CHECK(q, "create(%u,%u) failed", one, capm);
  uint32_t cap = fixed_msg_queue_available_push_amount(q);
  c.note("fixed_msg_queue_create(%u, %u): room for %u", one, capm, cap);
  PBT_CHECK(cap <= capm, "room for %u messages, %u asked", cap, capm);
  PBT_CHECK((uint64_t)one * capm < 128 || cap >= capm / 4, "room for %u messages, %u asked", cap, capm);   // the bookkeeping and the rounding take no more than that
  std::deque<uint64_t> m; uint64_t next = 1, moved = 0; bool full = false; size_t n_ops = c.size(1, c.thorough ? 300 : 120);
  uint32_t maxseen = 0;
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c); unsigned op = c.weighted({44, 40, 2});
    uint32_t pa = fixed_msg_queue_available_push_amount(q), po = fixed_msg_queue_available_pop_amount(q);
    PBT_EQ(po, m.size(), "pop amount"); PBT_EQ(fixed_msg_queue_is_empty(q), m.empty(), "is_empty"); PBT_EQ(fixed_msg_queue_is_full(q), pa == 0, "is_full agrees with push amount");
    PBT_CHECK(pa + po <= capm, "%u + %u messages in a queue for %u", pa, po, capm); PBT_CHECK(pa + po == cap || pa + po + 1 == cap, "free %u + used %u, capacity %u", pa, po, cap);
    if (op == 0) {
      std::vector<char> b(one); for (uint32_t k = 0; k < one; ++k) b[k] = at(next, k, salt);
      bool r = fixed_msg_queue_push(q, b.data()); c.note("push -> %d", r);
      PBT_EQ(r, pa > 0, "push succeeds iff there is room");
      if (r) { m.push_back(next++); ++moved; } else full = true;
      maxseen = std::max<uint32_t>(maxseen, (uint32_t)m.size());
    } else if (op == 1) {
      std::vector<char> b(one + 8, (char)0x5a);
      if (c.draw(15) == 15) PBT_EQ(fixed_msg_queue_pop(q, nullptr), false, "pop to NULL");
      bool r = fixed_msg_queue_pop(q, b.data()); c.note("pop -> %d", r);
      PBT_EQ(r, !m.empty(), "pop succeeds iff there is a message");
      if (r) { for (uint32_t k = 0; k < one; ++k) PBT_CHECK(b[k] == at(m.front(), k, salt), "popped message differs at byte %u of %u", k, one); m.pop_front(); }
      for (size_t k = r ? one : 0; k < b.size(); ++k) PBT_CHECK(b[k] == 0x5a, "pop wrote outside the message");
    } else { c.note("clear"); fixed_msg_queue_clear(q); m.clear(); }
  }
  fixed_msg_queue_destroy(&q); PBT_CHECK(!q, "destroy must null the handle"); fixed_msg_queue_destroy(&q); fixed_msg_queue_destroy(nullptr);
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
  if (full) c.label("fixed: push refused"); if (moved > cap && cap) c.label("fixed: wrapped");
  if (full && moved > cap && cap > 1) c.nontrivial();
}

static void degenerate(Case &c) {
  mem::start(); uint32_t n = (uint32_t)c.draw(7);
  PBT_CHECK(!msg_queue_create(n), "msg_queue_create(%u) must fail", n);
  PBT_CHECK(!fixed_msg_queue_create(0, 10) && !fixed_msg_queue_create(10, 0), "fixed_msg_queue_create with 0 must fail");
  { // a total size of 2^32 and more: refused, or a queue with room for a fair part of what was asked for
    uint32_t one = c.oneof<uint32_t>({65536, 1u << 20, 3, 48, 0x10000010, 0xffffffff, 0x80000000}), cap = (uint32_t)std::min<uint64_t>(0xffffffffull, (1ull << 32) / one + 1 + c.draw(2000)); if ((uint64_t)one * cap < (1ull << 32)) cap = 0;
    if (cap) { fixed_msg_queue f = fixed_msg_queue_create(one, cap); c.note("fixed_msg_queue_create(%u, %u) -> %s", one, cap, f ? "queue" : "NULL"); if (f) { PBT_CHECK(fixed_msg_queue_available_push_amount(f) >= cap / 4, "a queue for %u messages of %u bytes has room for %u", cap, one, fixed_msg_queue_available_push_amount(f)); fixed_msg_queue_destroy(&f); } }
  }
  uint32_t k = (uint32_t)c.range(8, 47); msg_queue q = msg_queue_create(k);   // too little for the bookkeeping: NULL or a working queue
  if (q) { char b[64]; uint32_t s = 64; if (msg_queue_push(q, "x", 1) == MSG_Q_CODE_SUCCESS) { PBT_EQ(msg_queue_pop(q, b, &s), MSG_Q_CODE_SUCCESS, "pop"); PBT_CHECK(b[0] == 'x', "content"); } msg_queue_destroy(&q); }
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
}

// Messages from 60 KiB to nearly 4 GiB: long ones are moved by their ends only (mem::sparse) and compared there.
namespace big {
const size_t SPAN = (1ull << 32) + 8192; const uint32_t EDGE = 1 << 12; static char *src, *dst;
struct On {
  On() { if (!src) for (char **p : {&src, &dst}) { *p = (char *)mmap(nullptr, SPAN + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (*p == MAP_FAILED) fail("harness: mmap"); mprotect(*p + SPAN, 4096, PROT_NONE); } mem::big = 64 << 10; mem::sparse = 2 * EDGE; }
  ~On() { mem::big = mem::sparse = 0; for (char *p : {src, dst}) madvise(p, SPAN, MADV_DONTNEED); }
};
static char *message(uint64_t id, uint32_t n, uint64_t salt) { char *p = src + SPAN - n; for (uint32_t k = 0; k < std::min(n, EDGE); ++k) p[k] = at(id, k, salt), p[n - 1 - k] = at(id, n - 1 - k, salt); return p; }   // nothing behind its end can be read
static char *room(uint32_t n) { char *p = dst + SPAN - n; memset(p, 0, std::min(n, EDGE)); if (n > EDGE) memset(p + n - EDGE, 0, EDGE); return p; }
static void same(const char *p, uint64_t id, uint32_t n, uint64_t salt) { for (uint32_t k = 0; k < std::min(n, EDGE); ++k) for (uint32_t j : {k, n - 1 - k}) PBT_CHECK(p[j] == at(id, j, salt), "popped message differs at byte %u of %u", j, n); }
}
static uint32_t giant_len(Case &c, uint64_t lim) {
  uint64_t n; switch (c.draw(4)) { case 0: n = lim; break; case 1: n = (uint64_t)c.range(1, (int64_t)std::max<uint64_t>(lim, 1)); break; case 2: n = c.oneof<uint64_t>({65531, 65532, 65535, 65536, 65537, 1 << 17}) ; break; case 3: n = c.oneof<uint64_t>({1u << 31, (1u << 31) + 1, (1u << 31) - 5, 1u << 30, 1u << 24, 0xfffffffb, 0xfffffffc, 0xffffffff}); break; default: n = (uint64_t)c.range(1, 3000); }
  return (uint32_t)std::min<uint64_t>(0xffffffff, std::max<uint64_t>(n, 1));
}
static void giant(Case &c) {
  mem::start(); big::On on; uint64_t salt = c.draw(1000), used = 0, next = 1; uint32_t buf = (uint32_t)(c.boolean() ? c.range(66000, 1 << 20) : c.oneof<uint64_t>({1u << 31, (1u << 31) + 100, 0xffffffff, 0xfffffff0, 1u << 30, (1u << 26) + 77, (1u << 17) - 1, 0xc0000000}));
  msg_queue q = msg_queue_create(buf); PBT_CHECK(q, "create(%u) failed", buf); const uint32_t cap = msg_queue_available_push_bytes(q); PBT_CHECK(cap <= buf && cap >= buf / 4, "create(%u): room for %u bytes", buf, cap); c.note("msg_queue_create(%u): room %u", buf, cap);
  uint32_t one = 4; PBT_EQ(msg_queue_push(q, big::message(0, 1, salt), 1), MSG_Q_CODE_SUCCESS, "first push"); const uint32_t over = cap - 1 - msg_queue_available_push_bytes(q); PBT_CHECK(over <= 16, "%u bytes of bookkeeping for a message", over); PBT_EQ(msg_queue_pop(q, big::room(4), &one), MSG_Q_CODE_SUCCESS, "first pop");
  std::deque<std::pair<uint64_t, uint32_t>> m; bool full = false, large = false; size_t n_ops = c.size(2, 24);
  for (size_t i = 0; i < n_ops || !m.empty(); ++i) {
    Span sp(c); uint32_t space = cap - (uint32_t)used; PBT_EQ(msg_queue_available_push_bytes(q), space, "free bytes"); PBT_EQ(msg_queue_available_pop_bytes(q), used, "used bytes"); PBT_EQ(msg_queue_next_msg_size(q), m.empty() ? 0 : m.front().second, "next_msg_size");
    if (i < n_ops && c.draw(4) < 3) {
      uint32_t n = giant_len(c, space > over ? space - over + c.draw(1) : space); char *b = big::message(next, n, salt); msg_q_code_e r = msg_queue_push(q, b, n); c.note("push(%u bytes) -> %d", n, r);
      PBT_EQ(r, (uint64_t)n + over <= space ? MSG_Q_CODE_SUCCESS : MSG_Q_CODE_FULL, "push"); if (r == MSG_Q_CODE_SUCCESS) { m.push_back({next++, n}); used += (uint64_t)n + over; large |= n > 65535; } else full = true;
    } else if (m.empty()) { uint32_t s = 100; PBT_EQ(msg_queue_pop(q, big::room(100), &s), MSG_Q_CODE_EMPTY, "pop from empty"); if (i >= n_ops) break; }
    else {
      uint32_t n = m.front().second, sz = n; if (i < n_ops && n > 1 && c.draw(3) == 3) { sz = (uint32_t)c.oneof<uint64_t>({n - 1, n & 0xffff, n / 2}); if (sz == n) --sz; PBT_EQ(msg_queue_pop(q, big::room(sz), &sz), MSG_Q_CODE_BUF_NOT_ENOUGH, "pop into a small buffer"); PBT_EQ(sz, n, "pop into a small buffer: reported size"); continue; }
      char *d = big::room(n); sz = n; PBT_EQ(msg_queue_pop(q, d, &sz), MSG_Q_CODE_SUCCESS, "pop"); c.note("pop -> %u bytes", sz); PBT_EQ(sz, n, "pop: reported size"); big::same(d, m.front().first, n, salt); used -= (uint64_t)n + over; m.pop_front();
    }
  }
  msg_queue_destroy(&q); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (full && large) c.nontrivial();
}
static void fixed_giant(Case &c) {
  mem::start(); big::On on; uint64_t salt = c.draw(1000), next = 1; uint32_t one = giant_len(c, (uint64_t)c.range(1, 1 << 20)), most = 0xffffffffu / one, capm = (uint32_t)c.oneof<uint64_t>({most, (uint64_t)c.range(1, (int64_t)std::min<uint32_t>(most, 100)), most / 2, (uint64_t)c.range(1, most), 65536, 70000}); capm = std::max(1u, std::min(capm, most)); if ((uint64_t)one * capm < 64) return;
  fixed_msg_queue q = fixed_msg_queue_create(one, capm); PBT_CHECK(q, "create(%u,%u) failed", one, capm); const uint32_t cap = fixed_msg_queue_available_push_amount(q); PBT_CHECK(cap <= capm && cap >= capm / 4, "room for %u messages, %u asked", cap, capm); c.note("fixed_msg_queue_create(%u, %u): room for %u", one, capm, cap);
  std::deque<uint64_t> m; bool full = false; size_t n_ops = c.size(2, 40);
  for (size_t i = 0; i < n_ops || !m.empty(); ++i) {
    Span sp(c); uint32_t pa = fixed_msg_queue_available_push_amount(q); PBT_EQ(fixed_msg_queue_available_pop_amount(q), m.size(), "pop amount"); PBT_CHECK(pa + m.size() == cap || pa + m.size() + 1 == cap, "free %u + used %zu, capacity %u", pa, m.size(), cap); PBT_EQ(fixed_msg_queue_is_empty(q), m.empty(), "is_empty"); PBT_EQ(fixed_msg_queue_is_full(q), pa == 0, "is_full");
    if (i < n_ops && c.draw(4) < 3) { bool r = fixed_msg_queue_push(q, big::message(next, one, salt)); c.note("push -> %d", r); PBT_EQ(r, pa > 0, "push succeeds iff there is room"); if (r) m.push_back(next++); else full = true; }
    else { char *d = big::room(one); bool r = fixed_msg_queue_pop(q, d); c.note("pop -> %d", r); PBT_EQ(r, !m.empty(), "pop succeeds iff there is a message"); if (r) { big::same(d, m.front(), one, salt); m.pop_front(); } else if (i >= n_ops) break; }
  }
  fixed_msg_queue_destroy(&q); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (one > 65535 || cap > 65535) c.nontrivial(); (void)full;
}

std::vector<Suite> suites = {{"msg_queue", msg_queue_history, 900000, 8000000}, {"fixed_msg_queue", fixed_history, 900000, 8000000}, {"giant", giant, 50000, 600000}, {"fixed_giant", fixed_giant, 50000, 600000}, {"degenerate", degenerate, 300, 300}};
