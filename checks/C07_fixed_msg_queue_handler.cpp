// variant: sched
#include "pbt.h"
#include "intercept.h"
extern "C" {
#include "ring/fixed_msg_queue_handler.h"
#include <semaphore.h>
extern int lcux_sem_init(sem_t *, int, unsigned), lcux_sem_wait(sem_t *), lcux_sem_post(sem_t *);
}
using namespace pbt;

Property property = {
  "C07",
  "scripts of push, clear (from the pusher or from inside the callback), waiting, stopping from the callback and destroy at a generated moment, against the worker thread under a generated "
  "schedule; non-trivial: at least 3 messages delivered, at least 6 thread switches, and a clear or a refused push happened",
  "exploration", {"one pushing thread, as documented", "sequentially consistent interleavings"}};

enum State { REQUIRED, DROPPED, EITHER };
struct World {
  Case *c; fixed_msg_queue_handler h = nullptr; std::vector<fixed_msg_t> msgs; std::vector<int> st; size_t next = 0, delivered = 0, offered = 0; int ready = 0, stop = 0; bool destroyed = false, stopped_by_cb = false;
  int64_t stop_at = -1, clear_at = -1; unsigned slow = 0; int worker = -1; bool pushing = false, in_cb = false; int grace = 0; size_t clears = 0;
  unsigned slow_status = 0; bool in_status = false, hold = false; sem_t gate; size_t aging = 0, aged = 0;   // messages that are exchanged before the script starts
  // everything pushed so far and not delivered is dropped; a message already taken out by the worker may still arrive
  void cleared() {
    ++clears; for (size_t i = next; i < msgs.size(); ++i) { if (i == offered - 1 && pushing) st[i] = EITHER; else st[i] = DROPPED; }
    grace = in_cb ? 0 : 1;
  }
  bool all_done() { if (stopped_by_cb) return true; for (size_t i = next; i < st.size(); ++i) if (st[i] == REQUIRED) return false; return true; }
};
static int on_msg(fixed_msg_t *m, void *ud) {
  World &w = *(World *)ud;
  if (w.destroyed) fail("message delivered after destroy returned");
  if (!w.ready) fail("message delivered before the ready notification"); if (w.stop) fail("message delivered after the stop notification");
  if (w.stopped_by_cb) fail("message delivered after the callback asked to stop");
  if (w.worker < 0) w.worker = sched::self(); if (w.worker != sched::self() || sched::self() == 0) fail("message delivered on another thread");
  if (w.aging) { if (m->arg1 != (int)w.aged || m->what != -m->arg1) fail("message %d delivered when message %zu was due", m->arg1, w.aged); ++w.aged; return 0; }
  size_t i = (size_t)m->arg1;
  if (i >= w.msgs.size()) fail("unknown message (index %zu, %zu pushed)", i, w.msgs.size());
  if (i < w.next) fail("message %zu delivered again or out of order (next is %zu)", i, w.next);
  for (size_t k = w.next; k < i; ++k) if (w.st[k] == REQUIRED) fail("message %zu delivered, but message %zu before it was not", i, k);
  if (w.st[i] == DROPPED) { if (!w.grace) fail("message %zu delivered although it was still queued when clear returned", i); --w.grace; }
  if (memcmp(m, &w.msgs[i], sizeof *m)) fail("message %zu differs from what was pushed", i);
  w.next = i + 1; ++w.delivered; w.in_cb = true;
  const fixed_msg_t copy = *m;
  if (w.slow == 1) sched::yield(); else if (w.slow == 2) sched::sleep_us(1000);
  if (w.clear_at == (int64_t)w.delivered) {
    w.c->note("clear from the callback"); bool was = w.pushing; fixed_msg_queue_handler_clear(w.h); bool now = w.pushing;
    ++w.clears; for (size_t k = w.next; k < w.msgs.size(); ++k) w.st[k] = EITHER; (void)was; (void)now;
    w.grace = 0;
  }
  if (memcmp(m, &copy, sizeof *m)) fail("message %zu changed while the callback was running", i);
  w.in_cb = false;
  if (w.stop_at == (int64_t)w.delivered) { w.stopped_by_cb = true; return 1 + (int)w.c->draw(3); }
  return 0;
}
static void on_status(msg_q_handler_status_e s, void *ud) {
  World &w = *(World *)ud; if (w.destroyed) fail("status callback after destroy returned");
  if (s == MSG_Q_HANDLER_STATUS_READY_TO_GO) { if (w.ready || w.stop) fail("ready notified twice or after stop"); ++w.ready; if (w.hold) lcux_sem_wait(&w.gate); }
  else if (s == MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP) { if (!w.ready || w.stop) fail("stop notified before ready, or twice"); ++w.stop; }
  else fail("unknown status %d", (int)s);
  if (s == MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP && w.stopped_by_cb && w.h && w.slow_status) {
    fixed_msg_t q; memset(&q, 0, sizeof q); msg_q_code_e r = fixed_msg_queue_handler_push(w.h, &q); if (r != MSG_Q_CODE_NULL_HANDLE) fail("push from the stop notification of a stopped handler returned %d", r);
  }
  w.in_status = true; if (w.slow_status == 1) sched::yield(); else if (w.slow_status == 2) sched::sleep_us(2000); w.in_status = false;
}

static void play(Case &c, size_t age) {
  mem::start();
  uint32_t cap = (uint32_t)c.size(2, 12);
  World w; w.c = &c; w.slow_status = (unsigned)c.draw(2); w.slow = (unsigned)c.draw(2); bool with_status = c.draw(3) != 3; if (!with_status) w.ready = 1;
  if (c.chance(1, 4)) w.stop_at = (int64_t)c.range(1, 8);
  if (c.chance(1, 5)) w.clear_at = (int64_t)c.range(1, 5);
  unsigned n_ops = (unsigned)c.range(1, 20); sched::Opts o = sched::draw_opts(c); if (age) { o.max_gap = 300; o.preempt_memory = false; o.max_steps = 50000000; cap += 20; if (with_status && c.chance(1, 4)) { w.hold = true; cap = (uint32_t)age * 2 + 70; mem::big = 1 << 20; } } struct Tidy { ~Tidy() { mem::big = 0; } } tidy;
  bool refused = false, fail_thread = c.chance(1, 40);
  sched::run(c, o, [&] {
    lcux_sem_init(&w.gate, 0, 0); fixed_msg_queue_handler_init_param_t p; memset(&p, 0, sizeof p); p.user_data = &w; p.fn_handle_msg = on_msg; p.fn_on_status_changed = with_status ? on_status : nullptr;
    if (fail_thread) {
      sched::fail_create_at(1); fixed_msg_queue_handler h = fixed_msg_queue_handler_create(cap, &p); if (h) fail("create succeeded without a thread"); sched::fail_create_at(0);
      if (mem::live_blocks()) fail("failed create leaked: %s", mem::describe().c_str());
    }
    fixed_msg_queue_handler h = w.h = fixed_msg_queue_handler_create(cap, &p); if (!h) fail("create(%u) failed", cap);
    c.note("create(%u)", cap);
    memset(&p, 0xEE, sizeof p);
    uint32_t room = fixed_msg_queue_handler_available_push_amount(h); if (room > cap) fail("room for %u messages, %u asked", room, cap); if (!room) fail("no room in a fresh queue of %u", cap);
    if (age) {
      for (w.aging = age; w.aging;) {
        fixed_msg_t m; memset(&m, 0, 64); size_t sent = w.aged; 
        while (sent < age && fixed_msg_queue_handler_available_push_amount(h)) { m.arg1 = (int)sent; m.what = -m.arg1; msg_q_code_e r = fixed_msg_queue_handler_push(h, &m); if (r != MSG_Q_CODE_SUCCESS) fail("push returned %d with room left", r); ++sent; }
        if (w.hold) { if (sent != age) fail("room for %zu messages, %u asked", sent, cap); if (fixed_msg_queue_handler_available_pop_amount(h) != sent) fail("%u messages queued, pushed %zu", fixed_msg_queue_handler_available_pop_amount(h), sent); w.hold = false; lcux_sem_post(&w.gate); c.label("all queued at once"); }
        sched::wait_until([&] { return w.aged == sent; }, "delivery of every accepted message");
        if (sent == age) { sched::settle(); w.aging = 0; }
      }
      c.note("%zu messages exchanged", age);
    }
    for (unsigned i = 0; i < n_ops; ++i) {
      Span sp(c);
      switch (c.weighted({60, 10, 8, 6, 14})) {
        case 0: {
          uint32_t avail = fixed_msg_queue_handler_available_push_amount(h), used = fixed_msg_queue_handler_available_pop_amount(h);
          if (avail > room || used > cap) fail("%u free, %u used in a queue for %u", avail, used, cap);
          fixed_msg_t m; memset(&m, 0, sizeof m); m.what = (int)c.draw(1000); m.arg1 = (int)w.msgs.size(); m.arg2 = -m.arg1; int len = (int)c.size(0, MSG_OBJ_MAX_CAPACITY); m.obj.data_len = len;
          std::string b = c.payload(len); memcpy(m.obj.data, b.data(), len);
          w.msgs.push_back(m); w.st.push_back(EITHER); w.offered = w.msgs.size(); w.pushing = true; size_t clears0 = w.clears; bool over = with_status && w.stop;
          fixed_msg_t mine = m; msg_q_code_e r = fixed_msg_queue_handler_push(h, &mine); w.pushing = false; memset(&mine, 0xDD, sizeof mine);
          c.note("push(#%d, %u free) -> %d", m.arg1, avail, r);
          if (over && r != MSG_Q_CODE_NULL_HANDLE) fail("push after the stop notification returned %d", r);
          if (r == MSG_Q_CODE_SUCCESS) { if (w.clears == clears0 && w.next < w.msgs.size()) w.st.back() = REQUIRED; }
          else {
            if (w.next >= w.msgs.size()) fail("a refused message was delivered"); w.msgs.pop_back(); w.st.pop_back();
            if (r == MSG_Q_CODE_FULL) { refused = true; if (avail) fail("push refused as full with room for %u", avail); }
            else if (r == MSG_Q_CODE_NULL_HANDLE) { if (!w.stopped_by_cb) fail("push refused as if the handler had stopped"); }
            else fail("push returned %d", r);
          }
          break;
        }
        case 1:
          c.note("wait for delivery");
          sched::wait_until([&] { return w.all_done(); }, "delivery of every accepted message");
          if (!w.stopped_by_cb) { sched::settle(); sched::wait_until([&] { return !w.in_cb && (w.ready || w.stopped_by_cb) && !w.in_status; }, "end of the callback"); sched::settle();
            if (w.stopped_by_cb) break;
            if (fixed_msg_queue_handler_available_pop_amount(h) || !fixed_msg_queue_handler_is_empty(h)) fail("%u messages queued although all were handled", fixed_msg_queue_handler_available_pop_amount(h));
            uint32_t a = fixed_msg_queue_handler_available_push_amount(h); if (a != room && a + 1 != room) fail("room for %u messages when empty, was %u", a, room);
            if (fixed_msg_queue_handler_is_full(h) != (a == 0)) fail("is_full disagrees with %u free", a); }
          break;
        case 2: sched::yield(); break;
        case 3:
          if (w.stopped_by_cb) {
            sched::wait_until([&] { return !with_status || w.stop; }, "the stop notification after the callback asked to stop"); sched::settle();
            fixed_msg_t q; memset(&q, 0, sizeof q); msg_q_code_e r = fixed_msg_queue_handler_push(h, &q); if (r != MSG_Q_CODE_NULL_HANDLE) fail("push to a stopped handler returned %d", r);
          } else sched::sleep_us((int64_t)c.range(1, 3000));
          break;
        case 4: {
          // a message that was being handled when clear was called was delivered; one the worker already took out may still arrive
          bool in_cb0 = w.in_cb; size_t before = w.delivered; fixed_msg_queue_handler_clear(h); bool same = in_cb0 && w.in_cb && before == w.delivered;
          w.cleared(); if (!same) w.grace = 1; c.note("clear%s", same ? " during a callback" : "");
          break;
        }
      }
    }
    if (c.boolean()) { c.note("wait for delivery"); sched::wait_until([&] { return w.all_done(); }, "delivery of every accepted message"); }
    fixed_msg_queue_handler_destroy(&h); c.note("destroy: %zu of %zu delivered", w.delivered, w.msgs.size());
    w.destroyed = true; if (h) fail("destroy must null the handle");
    if (with_status && (w.ready != 1 || w.stop != 1)) fail("after destroy: %d ready and %d stop notifications", w.ready, w.stop);
    if (sched::threads_alive() != 1) fail("destroy returned but the worker thread still runs");
    fixed_msg_queue_handler_destroy(&h); fixed_msg_queue_handler_destroy(nullptr);
    sched::settle();
  });
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
  if (refused) c.label("push refused"); if (w.clears) c.label("cleared"); if (w.stopped_by_cb) c.label("stopped by callback"); if (w.delivered < w.msgs.size()) c.label("not all delivered");
  if (w.delivered >= 3 && sched::switches >= 6 && (w.clears || refused)) c.nontrivial();
}

static void script(Case &c) { play(c, 0); }
// A handler that has been in use for long: message counters that are too narrow have run over by then.
static void aged(Case &c) { play(c, c.chance(1, 2) ? (size_t)c.range(65536 - 20, 65536 + 4) : (size_t)c.range(100, 300)); }

static void bad_params(Case &c) {
  mem::start(); fixed_msg_queue_handler_init_param_t p; memset(&p, 0, sizeof p);
  PBT_CHECK(!fixed_msg_queue_handler_create(10, nullptr), "create without parameters"); PBT_CHECK(!fixed_msg_queue_handler_create(10, &p), "create without callback");
  p.fn_handle_msg = on_msg; uint32_t n = (uint32_t)c.draw(1); PBT_CHECK(!fixed_msg_queue_handler_create(n, &p), "create(%u)", n);
  fixed_msg_t q; memset(&q, 0, sizeof q); PBT_EQ(fixed_msg_queue_handler_push(nullptr, &q), MSG_Q_CODE_NULL_HANDLE, "push(NULL)");
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
}

std::vector<Suite> suites = {{"script", script, 300000, 8000000, 30000}, {"aged", aged, 400, 1000, 120000}, {"bad_params", bad_params, 50, 50}};
