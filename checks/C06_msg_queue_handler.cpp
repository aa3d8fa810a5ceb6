// variant: sched
#include "pbt.h"
#include "intercept.h"
#include <climits>
#include <memory>
#include <deque>
#include <sys/mman.h>
extern "C" {
#include "ring/msg_queue_handler.h"
}
using namespace pbt;

Property property = {
  "C06",
  "scripts of push (generated sizes, also larger than the worker's initial buffer), waiting, stopping from the callback and destroy at a generated moment, against the worker thread under a "
  "generated schedule; non-trivial: at least 3 messages delivered and at least 6 thread switches",
  "exploration", {"one pushing thread, as documented", "sequentially consistent interleavings"}};

struct Msg { int what, a1, a2; std::string obj; };
struct World {
  Case *c; std::vector<Msg> accepted; size_t delivered = 0; int ready = 0, stop = 0; bool destroyed = false, stopped_by_cb = false;
  int64_t stop_at = -1; unsigned slow = 0; int worker = -1; bool offered_valid = false; Msg offered;
  msg_queue_handler h = nullptr; unsigned slow_status = 0;
};
static int on_msg(queue_msg_t *m, void *ud) {
  World &w = *(World *)ud;
  if (w.destroyed) fail("message delivered after destroy returned");
  if (!w.ready) fail("message delivered before the ready notification"); if (w.stop) fail("message delivered after the stop notification");
  if (w.stopped_by_cb) fail("message delivered after the callback asked to stop");
  if (w.worker < 0) w.worker = sched::self(); if (w.worker != sched::self()) fail("messages delivered on two threads");
  if (sched::self() == 0) fail("message delivered on the pushing thread");
  // a message may be delivered before push returned to the pusher
  const Msg *e0 = w.delivered < w.accepted.size() ? &w.accepted[w.delivered] : (w.offered_valid && w.delivered == w.accepted.size()) ? &w.offered : nullptr;
  if (!e0) fail("message %zu delivered, only %zu were pushed", w.delivered, w.accepted.size());
  const Msg copy = *e0, *e = &copy;
  if (m->what != e->what || m->arg1 != e->a1 || m->arg2 != e->a2) fail("message %zu: got what/arg1/arg2 %d/%d/%d, expected %d/%d/%d", w.delivered, m->what, m->arg1, m->arg2, e->what, e->a1, e->a2);
  if (m->obj_len != (int)e->obj.size()) fail("message %zu: obj_len %d, expected %zu", w.delivered, m->obj_len, e->obj.size());
  if (memcmp(m->obj, e->obj.data(), e->obj.size())) fail("message %zu: obj of %zu bytes differs", w.delivered, e->obj.size());
  ++w.delivered;
  if (w.slow == 1) sched::yield(); else if (w.slow == 2) sched::sleep_us(1000);
  // the message stays valid for the whole callback
  if (m->obj_len != (int)e->obj.size() || memcmp(m->obj, e->obj.data(), e->obj.size())) fail("message %zu changed while the callback was running", w.delivered - 1);
  if (w.stop_at == (int64_t)w.delivered) { w.stopped_by_cb = true; return 1 + (int)w.c->draw(3); }
  return 0;
}
static void on_status(msg_q_handler_status_e s, void *ud) {
  World &w = *(World *)ud; if (w.destroyed) fail("status callback after destroy returned");
  if (s == MSG_Q_HANDLER_STATUS_READY_TO_GO) { if (w.ready || w.stop) fail("ready notified twice or after stop"); ++w.ready; }
  else if (s == MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP) { if (!w.ready || w.stop) fail("stop notified before ready, or twice"); ++w.stop; }
  else fail("unknown status %d", (int)s);
  if (s == MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP && w.stopped_by_cb && w.h && w.slow_status) {
    queue_msg_t q; memset(&q, 0, sizeof q); msg_q_code_e r = msg_queue_handler_push(w.h, &q); if (r != MSG_Q_CODE_NULL_HANDLE) fail("push from the stop notification of a stopped handler returned %d", r);
  }
  if (w.slow_status == 1) sched::yield(); else if (w.slow_status == 2) sched::sleep_us(2000);
}

static void script(Case &c) {
  mem::start();
  uint32_t buf = c.chance(1, 4) ? (uint32_t)c.range(20000, 70000) : (uint32_t)c.size(64, 3000);
  World w; w.c = &c; w.slow = (unsigned)c.draw(2); w.slow_status = (unsigned)c.draw(2); bool with_status = c.draw(3) != 3;
  if (!with_status) w.ready = 1;
  if (c.chance(1, 4)) w.stop_at = (int64_t)c.range(1, 8);
  unsigned n_ops = (unsigned)c.range(1, 16); sched::Opts o = sched::draw_opts(c);
  bool refused = false, big = false, fail_thread = c.chance(1, 40);
  sched::run(c, o, [&] {
    msg_queue_handler_init_param_t p; memset(&p, 0, sizeof p); p.user_data = &w; p.fn_handle_msg = on_msg; p.fn_on_status_changed = with_status ? on_status : nullptr;
    if (fail_thread) {
      sched::fail_create_at(1); msg_queue_handler h = msg_queue_handler_create(buf, &p); if (h) fail("create succeeded without a thread"); sched::fail_create_at(0);
      if (mem::live_blocks()) fail("failed create leaked: %s", mem::describe().c_str());
    }
    msg_queue_handler h = msg_queue_handler_create(buf, &p); if (!h) fail("create(%u) failed", buf); w.h = h;
    memset(&p, 0xEE, sizeof p);  // the parameter block is the caller's
    uint32_t total = msg_queue_handler_available_push_bytes(h); (void)total;
    for (unsigned i = 0; i < n_ops; ++i) {
      Span sp(c);
      switch (c.weighted({60, 12, 8, 8})) {
        case 0: {
          uint32_t avail = msg_queue_handler_available_push_bytes(h);
          int64_t room = (int64_t)avail - (int64_t)sizeof(queue_msg_t) - 4; size_t len;
          switch (c.draw(4)) { case 0: len = c.size(0, 64); break; case 1: len = (size_t)std::max<int64_t>(0, room); break; case 2: len = (size_t)std::max<int64_t>(0, room + 1 + (int64_t)c.draw(4)); break;
            case 3: len = (size_t)c.range(4000, 4200); break; default: len = c.size(0, buf); }
          Msg m; m.what = (int)c.draw(1000); m.a1 = (int)i; m.a2 = -(int)i; m.obj = c.payload(len);
          std::string raw(sizeof(queue_msg_t) + len, 0); queue_msg_t *q = (queue_msg_t *)&raw[0]; q->what = m.what; q->arg1 = m.a1; q->arg2 = m.a2; q->obj_len = (int)len; memcpy(q->obj, m.obj.data(), len);
          w.offered = m; w.offered_valid = true; bool over = with_status && w.stop;
          msg_q_code_e r = msg_queue_handler_push(h, q);
          w.offered_valid = false;
          c.note("push(%zu bytes of obj, %u free) -> %d", len, avail, r);
          memset(&raw[0], 0xDD, raw.size());
          if (over && r != MSG_Q_CODE_NULL_HANDLE) fail("push after the stop notification returned %d", r);
          if (r == MSG_Q_CODE_SUCCESS) { w.accepted.push_back(m); if (len + sizeof(queue_msg_t) > 4096) big = true; }
          else if (r == MSG_Q_CODE_FULL) { refused = true; if (w.delivered > w.accepted.size()) fail("a refused message was delivered"); if ((int64_t)len + 16 <= room) fail("push of %zu bytes refused with %u bytes free", len, avail); }
          else if (r == MSG_Q_CODE_NULL_HANDLE) { if (!w.stopped_by_cb) fail("push refused as if the handler had stopped"); }
          else fail("push returned %d", r);
          break;
        }
        case 1:
          c.note("wait for delivery");
          sched::wait_until([&] { return w.stopped_by_cb || w.delivered == w.accepted.size(); }, "delivery of every accepted message");
          if (!w.stopped_by_cb) { sched::settle(); if (msg_queue_handler_available_pop_bytes(h)) fail("%u bytes queued although all was delivered", msg_queue_handler_available_pop_bytes(h)); }
          break;
        case 2: sched::yield(); break;
        case 3:
          if (w.stopped_by_cb) {
            sched::wait_until([&] { return !with_status || w.stop; }, "the stop notification after the callback asked to stop"); sched::settle();
            queue_msg_t q; memset(&q, 0, sizeof q); msg_q_code_e r = msg_queue_handler_push(h, &q); if (r != MSG_Q_CODE_NULL_HANDLE) fail("push to a stopped handler returned %d", r);
          } else sched::sleep_us((int64_t)c.range(1, 3000));
          break;
      }
    }
    if (c.boolean()) { c.note("wait for delivery"); sched::wait_until([&] { return w.stopped_by_cb || w.delivered == w.accepted.size(); }, "delivery of every accepted message"); }
    msg_queue_handler_destroy(&h); c.note("destroy: %zu of %zu delivered", w.delivered, w.accepted.size());
    w.destroyed = true; if (h) fail("destroy must null the handle");
    if (with_status && (w.ready != 1 || w.stop != 1)) fail("after destroy: %d ready and %d stop notifications", w.ready, w.stop);
    if (sched::threads_alive() != 1) fail("destroy returned but the worker thread still runs");
    msg_queue_handler_destroy(&h); msg_queue_handler_destroy(nullptr);
    sched::settle();
  });
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
  if (refused) c.label("push refused"); if (big) c.label("message > 4096"); if (w.stopped_by_cb) c.label("stopped by callback"); if (w.delivered < w.accepted.size()) c.label("destroyed with messages queued");
  if (w.delivered >= 3 && sched::switches >= 6) c.nontrivial();
}

// Messages up to INT_MAX bytes in queues up to 4 GiB: long ones are moved by their ends only (mem::sparse) and compared there.
struct Giant { struct M { int id; int len; }; std::deque<M> due; int delivered = 0; bool bad = false; unsigned slow = 0; uint64_t salt = 0; };
static const int EDGE = 1 << 12;
static inline char gat(uint64_t id, uint64_t k, uint64_t salt) { return (char)mix64(id * 100003 + k * 31 + salt); }
static int giant_msg(queue_msg_t *m, void *ud) {
  Giant &g = *(Giant *)ud; if (g.due.empty()) fail("a message was delivered that nobody pushed"); Giant::M e = g.due.front();
  if (m->what != e.id || m->arg1 != ~e.id || m->arg2 != e.len / 2) fail("message #%d: got what/arg1/arg2 %d/%d/%d", e.id, m->what, m->arg1, m->arg2);
  if (m->obj_len != e.len) fail("message #%d: obj_len %d, expected %d", e.id, m->obj_len, e.len);
  for (int k = 0; k < std::min(e.len, EDGE - 64); ++k) for (int j : {k, e.len - 1 - k}) if (m->obj[j] != gat((uint64_t)e.id, (uint64_t)j, g.salt)) fail("message #%d: byte %d of %d differs", e.id, j, e.len);
  g.due.pop_front(); ++g.delivered; if (g.slow == 1) sched::yield(); else if (g.slow == 2) sched::sleep_us(1000); return 0;
}
static void giant(Case &c) {
  mem::start(); static char *src; const size_t SPAN = (1ull << 31) + (1 << 16); if (!src) { src = (char *)mmap(nullptr, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (src == MAP_FAILED) fail("harness: mmap"); }
  struct On { On() { mem::big = 64 << 10; mem::sparse = 2 * EDGE; } ~On() { mem::big = mem::sparse = 0; madvise(src, (1ull << 31) + (1 << 16), MADV_DONTNEED); } } on;
  Giant g; g.salt = c.draw(1000); g.slow = (unsigned)c.draw(2); uint32_t buf = (uint32_t)(c.boolean() ? c.range(66000, 1 << 20) : c.oneof<uint64_t>({1u << 31, 0xffffffff, 0xfffffff0, 1u << 30, (1u << 26) + 77, 0xc0000000}));
  unsigned n_ops = (unsigned)c.range(1, 14); sched::Opts o = sched::draw_opts(c); o.preempt_memory = false; bool large = false, full = false;
  sched::run(c, o, [&] {
    msg_queue_handler_init_param_t p; memset(&p, 0, sizeof p); p.user_data = &g; p.fn_handle_msg = giant_msg; msg_queue_handler h = msg_queue_handler_create(buf, &p); if (!h) fail("create(%u) failed", buf);
    const uint32_t room0 = msg_queue_handler_available_push_bytes(h); if (room0 < buf / 4 || room0 > buf) fail("create(%u): room for %u", buf, room0); c.note("create(%u): room %u", buf, room0);
    for (unsigned i = 0; i < n_ops; ++i) {
      Span sp(c); if (c.draw(3) == 3) { sched::wait_until([&] { return g.due.empty(); }, "delivery of every accepted message"); continue; }
      int64_t avail = msg_queue_handler_available_push_bytes(h), room = avail - (int64_t)sizeof(queue_msg_t) - 4, len;
      switch (c.draw(3)) { case 0: len = room; break; case 1: len = (int64_t)c.range(0, std::max<int64_t>(room, 1)); break; case 2: len = c.oneof<int64_t>({65519, 65520, 65521, 65535, 65536, 70000, 1 << 17, 0, 1}); break; default: len = c.oneof<int64_t>({1 << 30, (1 << 30) - 16, (1 << 30) - 15, (1ll << 31) - 17, (1ll << 31) - 16, (1ll << 31) - 1, 1500000000}); }
      len = std::min<int64_t>(std::max<int64_t>(len, 0), (int64_t)INT_MAX); int id = (int)i + 7; queue_msg_t *q = (queue_msg_t *)src; q->what = id; q->arg1 = ~id; q->arg2 = (int)len / 2; q->obj_len = (int)len;
      for (int k = 0; k < std::min<int64_t>(len, EDGE); ++k) q->obj[k] = gat((uint64_t)id, (uint64_t)k, g.salt), q->obj[len - 1 - k] = gat((uint64_t)id, (uint64_t)(len - 1 - k), g.salt);
      g.due.push_back({id, (int)len}); int d0 = g.delivered; msg_q_code_e r = msg_queue_handler_push(h, q); c.note("push(%lld bytes of obj, %lld free) -> %d", (long long)len, (long long)avail, r);
      if (r == MSG_Q_CODE_SUCCESS) large |= len > 65535; else if (r != MSG_Q_CODE_FULL) fail("push returned %d", r); else { full = true; if (g.due.empty()) fail("a refused message was delivered"); g.due.pop_back(); if (len + 12 <= room) fail("push of %lld bytes refused with %lld bytes free", (long long)len, (long long)avail); }
      (void)d0; memset(src, 0xDD, 64);
    }
    sched::wait_until([&] { return g.due.empty(); }, "delivery of every accepted message"); sched::settle(); if (msg_queue_handler_available_push_bytes(h) != room0) fail("room %u when empty, was %u", msg_queue_handler_available_push_bytes(h), room0);
    msg_queue_handler_destroy(&h); if (h) fail("destroy must null the handle");
  });
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (full) c.label("giant: refused"); if (large && g.delivered >= 2) c.nontrivial();
}

static void bad_params(Case &c) {
  mem::start(); msg_queue_handler_init_param_t p; memset(&p, 0, sizeof p);
  PBT_CHECK(!msg_queue_handler_create(1000, nullptr), "create without parameters"); PBT_CHECK(!msg_queue_handler_create(1000, &p), "create without callback");
  p.fn_handle_msg = on_msg; uint32_t n = (uint32_t)c.draw(7); PBT_CHECK(!msg_queue_handler_create(n, &p), "create(%u)", n);
  queue_msg_t q; memset(&q, 0, sizeof q); PBT_EQ(msg_queue_handler_push(nullptr, &q), MSG_Q_CODE_NULL_HANDLE, "push(NULL)");
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
}

std::vector<Suite> suites = {{"script", script, 250000, 10000000, 30000}, {"giant", giant, 20000, 200000}, {"bad_params", bad_params, 50, 50}};
