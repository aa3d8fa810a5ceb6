// variant: sched
#include "pbt.h"
#include "intercept.h"
extern "C" {
#include "ring/ring_buf.h"
#include "ring/ringbuffer.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
}
using namespace pbt;

Property property = {
  "C03",
  "one producer and one consumer with generated request sizes on a small queue; the thread switches are part of the case and may fall between any two loads or "
  "stores of the library; non-trivial: at least 4 switches and the stored data wrapped around the storage end or a request was refused",
  "exploration", {"sequentially consistent interleavings of the compiled code (clang -O1)", "memcpy is one step"}};

static inline char at(uint64_t pos, uint64_t salt) { return (char)mix64(pos * 31 + salt); }

struct Stream { uint64_t total, salt; std::vector<size_t> wr; };

template <class W, class R>
static void byte_stream(Case &c, size_t cap, bool partial, W write, R read, std::function<size_t(void *, size_t)> peek, std::function<size_t(size_t)> discard, std::function<size_t()> avail_r, std::function<size_t()> avail_w) {
  uint64_t salt = c.draw(1000), total = c.range(cap, cap * 3 + 10);
  unsigned rstyle = c.draw(3), wstyle = c.draw(2);
  sched::Opts o = sched::draw_opts(c);
  uint64_t produced = 0, consumed = 0; bool refused = false;
  sched::run(c, o, [&] {
    int p = sched::spawn([&] {
      while (produced < total) {
        size_t n = (size_t)c.range(1, std::min<uint64_t>(cap, total - produced));
        if (wstyle == 1) { size_t a = avail_w(); if (a > cap) fail("available_write %zu exceeds the capacity %zu", a, cap); if (!a) { sched::yield(); continue; } n = std::min(n, a); }
        std::vector<char> b(n); for (size_t k = 0; k < n; ++k) b[k] = at(produced + k, salt);
        size_t r = write(b.data(), n);
        if (r > n || (!partial && r != 0 && r != n)) fail("write(%zu) returned %zu", n, r);
        if (wstyle == 1 && r != n) fail("write(%zu) took only %zu although available_write had promised the room", n, r);
        if (r < n) { refused = true; sched::yield(); }
        produced += r;
      }
    });
    while (consumed < total) {
      size_t n = (size_t)c.range(1, std::min<uint64_t>(cap, total - consumed));
      if (rstyle == 1) { size_t a = avail_r(); if (a > cap) fail("available_read %zu exceeds the capacity %zu", a, cap); if (!a) { sched::yield(); continue; } n = std::min(n, a); }
      std::vector<char> b(n + 1);
      if (rstyle >= 2) {
        size_t r = peek(b.data(), n); if (r > n) fail("peek(%zu) returned %zu", n, r);
        for (size_t k = 0; k < r; ++k) if (b[k] != at(consumed + k, salt)) fail("peek saw a wrong byte at stream position %llu", (unsigned long long)(consumed + k));
        if (rstyle == 3) {   // consume by discarding what was looked at
          if (!r) { refused = true; sched::yield(); continue; }
          size_t d = discard(r); if (d != r) fail("discard(%zu) after a peek of as many returned %zu", r, d);
          consumed += d; continue;
        }
      }
      size_t r = read(b.data(), n);
      if (r > n || (!partial && r != 0 && r != n)) fail("read(%zu) returned %zu", n, r);
      if (rstyle == 1 && r != n) fail("read(%zu) got only %zu although available_read had promised them", n, r);
      for (size_t k = 0; k < r; ++k) if (b[k] != at(consumed + k, salt)) fail("wrong byte at stream position %llu of %llu", (unsigned long long)(consumed + k), (unsigned long long)total);
      consumed += r;
      if (r < n) { refused = true; sched::yield(); }
    }
    sched::join(p);
    if (avail_r() != 0) fail("%zu bytes left although everything written was read", avail_r());
  });
  c.note("capacity %zu, %llu bytes, styles w%u r%u, gap<=%u mem=%d, %llu steps, %llu switches", cap, (unsigned long long)total, wstyle, rstyle, o.max_gap, o.preempt_memory, (unsigned long long)sched::steps, (unsigned long long)sched::switches);
  if (sched::switches >= 4) { c.nontrivial(); c.label("switches>=4"); } if (refused) c.label("refused");
}

static void ring_buf_stream(Case &c) {
  size_t size = c.size(3, 40); ring_handle h = ring_buf_create(size);
  byte_stream(c, size - 1, false, [&](char *p, size_t n) { return ring_buf_write(h, p, n); }, [&](char *p, size_t n) { return ring_buf_read(h, p, n); },
              [&](void *p, size_t n) { return ring_buf_peek(h, p, n); }, [&](size_t n) { return ring_buf_discard(h, n); }, [&] { return ring_buf_available_read(h); }, [&] { return ring_buf_available_write(h); });
  ring_buf_destroy(&h);
}
static void ringbuffer_stream(Case &c) {
  uint32_t cap = 1u << c.range(2, 5); ring_buffer_handle h = RingBuffer_create(cap);
  byte_stream(c, cap, true, [&](char *p, size_t n) { return RingBuffer_write(h, p, n); }, [&](char *p, size_t n) { return RingBuffer_read(h, p, n); },
              [&](void *p, size_t n) { return (size_t)RingBuffer_peek(h, p, n); }, [&](size_t n) { return (size_t)RingBuffer_discard(h, n); }, [&] { return (size_t)RingBuffer_available_read(h); }, [&] { return (size_t)RingBuffer_available_write(h); });
  RingBuffer_destroy(&h);
}

static void msg_queue_stream(Case &c) {
  uint32_t buf = (uint32_t)c.size(48, 200); msg_queue q = msg_queue_create(buf); PBT_CHECK(q, "create(%u)", buf);
  uint32_t room = msg_queue_available_push_bytes(q); uint32_t maxmsg = room - 4;
  uint64_t salt = c.draw(1000); unsigned n_msgs = (unsigned)c.range(1, 14), style = c.draw(1);
  sched::Opts o = sched::draw_opts(c);
  std::vector<uint32_t> sizes; for (unsigned i = 0; i < n_msgs; ++i) sizes.push_back((uint32_t)c.size(1, maxmsg));
  bool full = false, again = false;
  sched::run(c, o, [&] {
    int p = sched::spawn([&] {
      for (unsigned i = 0; i < n_msgs;) {
        std::vector<char> b(sizes[i]); for (uint32_t k = 0; k < sizes[i]; ++k) b[k] = at(i * 1000 + k, salt);
        msg_q_code_e r = msg_queue_push(q, b.data(), sizes[i]);
        if (r == MSG_Q_CODE_SUCCESS) ++i;
        else if (r == MSG_Q_CODE_FULL) { full = true; sched::yield(); }
        else fail("push returned %d", r);
      }
    });
    unsigned got = 0;
    while (got < n_msgs) {
      std::vector<char> b(maxmsg); uint32_t sz = maxmsg;
      if (style == 1) {
        uint32_t nx = msg_queue_next_msg_size(q);
        if (nx == 0) { sched::yield(); continue; }
        if (nx != sizes[got]) fail("next_msg_size says %u, message %u has %u bytes", nx, got, sizes[got]);
        sz = nx;
      }
      msg_q_code_e r = msg_queue_pop(q, b.data(), &sz);
      if (r == MSG_Q_CODE_EMPTY || r == MSG_Q_CODE_AGAIN) { again |= r == MSG_Q_CODE_AGAIN; sched::yield(); continue; }
      if (r != MSG_Q_CODE_SUCCESS) fail("pop returned %d", r);
      for (uint32_t k = 0; k < sizes[got]; ++k) if (b[k] != at(got * 1000 + k, salt)) fail("message %u: byte %u of %u is wrong", got, k, sizes[got]);
      ++got;
    }
    sched::join(p);
    if (msg_queue_available_pop_bytes(q)) fail("%u bytes left in the empty queue", msg_queue_available_pop_bytes(q));
  });
  c.note("msg_queue(%u), %u messages, %llu steps, %llu switches", buf, n_msgs, (unsigned long long)sched::steps, (unsigned long long)sched::switches);
  if (full) c.label("full"); if (again) c.label("again (half-pushed message seen)");
  if (sched::switches >= 4 && n_msgs > 2) c.nontrivial();
  msg_queue_destroy(&q);
}

static void fixed_msg_queue_stream(Case &c) {
  uint32_t one = (uint32_t)c.size(1, 20), cap = (uint32_t)c.range(2, 12);
  while (one * cap < 64) ++cap;
  fixed_msg_queue q = fixed_msg_queue_create(one, cap); PBT_CHECK(q, "create(%u,%u)", one, cap);
  uint64_t salt = c.draw(1000); unsigned n_msgs = (unsigned)c.range(1, 24), style = c.draw(1);
  if (fixed_msg_queue_available_push_amount(q) == 0) { fixed_msg_queue_destroy(&q); c.discard(); return; }
  sched::Opts o = sched::draw_opts(c); bool full = false;
  sched::run(c, o, [&] {
    int p = sched::spawn([&] {
      for (unsigned i = 0; i < n_msgs;) {
        std::vector<char> b(one); for (uint32_t k = 0; k < one; ++k) b[k] = at(i * 1000 + k, salt);
        if (style && fixed_msg_queue_is_full(q)) { full = true; sched::yield(); continue; }
        bool r = fixed_msg_queue_push(q, b.data());
        if (style && !r) fail("push refused although the queue was not full");
        if (r) ++i; else { full = true; sched::yield(); }
      }
    });
    unsigned got = 0;
    while (got < n_msgs) {
      std::vector<char> b(one);
      uint32_t am = style ? fixed_msg_queue_available_pop_amount(q) : 0;
      if (am > cap) fail("%u messages in a queue for %u", am, cap);
      bool r = fixed_msg_queue_pop(q, b.data());
      if (am && !r) fail("pop refused although %u messages were there", am);
      if (!r) { sched::yield(); continue; }
      for (uint32_t k = 0; k < one; ++k) if (b[k] != at(got * 1000 + k, salt)) fail("message %u: byte %u of %u is wrong", got, k, one);
      ++got;
    }
    sched::join(p);
    if (!fixed_msg_queue_is_empty(q)) fail("queue not empty at the end");
  });
  c.note("fixed_msg_queue(%u x %u), %u messages, %llu steps, %llu switches", one, cap, n_msgs, (unsigned long long)sched::steps, (unsigned long long)sched::switches);
  if (full) c.label("full"); if (sched::switches >= 4 && n_msgs > 2) c.nontrivial();
  fixed_msg_queue_destroy(&q);
}

std::vector<Suite> suites = {
  {"ring_buf", ring_buf_stream, 100000, 4000000, 20000}, {"ringbuffer", ringbuffer_stream, 100000, 4000000, 20000},
  {"msg_queue", msg_queue_stream, 100000, 4000000, 20000}, {"fixed_msg_queue", fixed_msg_queue_stream, 100000, 4000000, 20000}};
