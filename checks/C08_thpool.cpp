// variant: sched
// cflags: -DDISABLE_PRINT
#include "pbt.h"
#include "intercept.h"
#include <memory>
#include <set>
#include <map>
extern "C" {
#include "thread/thpool.h"
}
using namespace pbt;

Property property = {
  "C08",
  "scripts of add, wait, pause/resume, sleep and destroy on one thread, optionally a second thread that adds and waits, with jobs that yield, sleep and add further jobs, on 0..4 worker threads under a "
  "generated schedule; non-trivial: at least 4 jobs ran, at least 10 thread switches, and the script waited or paused after the first add",
  "exploration", {"a paused pool is resumed before it is waited for or destroyed", "signals reach a thread at its next scheduling point"}};

struct Job { int id; unsigned kind; unsigned arg; int children; int by = 0; bool started = false, finished = false; };
struct World {
  Case *c; threadpool p = nullptr; std::vector<std::unique_ptr<Job>> jobs; std::vector<int> start_order, accept_order; int running = 0, max_running = 0, n_threads = 0; bool paused = false, destroyed = false; std::set<int> workers; int started = 0, finished = 0; bool destroying = false;
};
static World *W;
static void job_fn(void *a);
static Job *add(World &w, unsigned kind, unsigned arg, int children) {
  auto up = std::make_unique<Job>(); Job *j = up.get(); j->id = (int)w.jobs.size(); j->kind = kind; j->arg = arg; j->children = children; j->by = sched::self(); w.jobs.push_back(std::move(up));
  int r = thpool_add_work(w.p, job_fn, j); if (r) fail("thpool_add_work returned %d", r);
  w.accept_order.push_back(j->id);
  return j;
}
static void job_fn(void *a) {
  World &w = *W; if (w.destroyed) fail("a job started after thpool_destroy returned");
  Job *j = (Job *)a; bool known = false; for (auto &u : w.jobs) if (u.get() == j) known = true;
  if (!known) fail("job called with a wrong argument");
  if (j->started) fail("job %d ran twice", j->id);
  if (w.paused) fail("job %d started while the pool was paused", j->id);
  j->started = true; ++w.started; w.start_order.push_back(j->id);
  if (sched::self() == 0) fail("job ran on the submitting thread");
  w.workers.insert(sched::self()); if ((int)w.workers.size() > w.n_threads) fail("jobs ran on %zu threads, the pool has %d", w.workers.size(), w.n_threads);
  if (++w.running > w.n_threads) fail("%d jobs run at once on %d threads", w.running, w.n_threads);
  w.max_running = std::max(w.max_running, w.running);
  switch (j->kind) { case 1: sched::yield(); break; case 2: { int64_t until = sched::now_us() + j->arg; while (sched::now_us() < until) sched::sleep_us(until - sched::now_us()); break; } case 3: for (unsigned i = 0; i < j->arg % 5; ++i) sched::yield(); break; }
  for (int k = 0; k < j->children && !w.destroying; ++k) add(w, 1, 0, 0);
  if (w.destroyed) fail("a job still ran after thpool_destroy returned");
  --w.running; ++w.finished; j->finished = true;
}
static void drawjob(Case &c, World &w) {
  unsigned kind = (unsigned)c.weighted({10, 10, 4, 4}), arg = kind == 2 ? (unsigned)c.size(1, 3000000) : (unsigned)c.draw(9); int ch = c.chance(1, 6) ? (int)c.range(1, 3) : 0;
  Job *j = add(w, kind, arg, ch); c.note("add job %d kind %u arg %u children %d", j->id, kind, arg, ch);
}
static void wait_checked(World &w, const char *who) {
  std::vector<Job *> before; for (auto &u : w.jobs) if (u->started) before.push_back(u.get()); for (int id : w.accept_order) before.push_back(w.jobs[id].get());
  thpool_wait(w.p);
  for (Job *j : before) if (!j->finished) fail("%s: thpool_wait returned but job %d added before %s", who, j->id, j->started ? "still runs" : "did not start");
}

static void script(Case &c) {
  mem::start();
  World w; W = &w; w.c = &c; w.n_threads = c.chance(1, 40) ? 0 : c.chance(1, 80) ? (int)c.range(5, 40) : (int)c.range(1, 4);
  unsigned n_ops = (unsigned)c.range(1, 14); sched::Opts o = sched::draw_opts(c); o.tick_us = 100000; o.spurious = c.chance(1, 8); o.max_steps = 2000000;
  bool second = w.n_threads && c.chance(1, 3), waited = false, paused_once = false, ever_paused = false; int added = 0;
  sched::run(c, o, [&] {
    threadpool p = w.p = thpool_init(c.chance(1, 50) && !w.n_threads ? -1 : w.n_threads); if (!p) fail("thpool_init(%d) failed", w.n_threads);
    c.note("thpool_init(%d)", w.n_threads);
    if (sched::threads_alive() != 1 + w.n_threads) fail("%d worker threads, %d asked", sched::threads_alive() - 1, w.n_threads);
    if (thpool_add_work(p, nullptr, nullptr) == 0) fail("a NULL function was accepted");
    int t2 = -1; unsigned n2 = second ? (unsigned)c.range(1, 5) : 0; bool t2done = true;
    if (second) { t2done = false; t2 = sched::spawn([&] { for (unsigned i = 0; i < n2; ++i) { Span sp(c); if (c.chance(1, 3)) wait_checked(w, "second thread"); else drawjob(c, w); } wait_checked(w, "second thread"); t2done = true; }); }
    for (unsigned i = 0; i < n_ops; ++i) {
      Span sp(c);
      switch (c.weighted({50, 12, 8, 8, 10})) {
        case 0: drawjob(c, w); ++added; break;
        case 1: if (w.n_threads) { c.note("wait"); wait_checked(w, "main"); waited = added > 0; } break;
        case 2: c.note("yield"); sched::yield(); break;
        case 3: c.note("sleep"); sched::sleep_us((int64_t)c.range(1, 2000000)); break;
        case 4: if (w.n_threads) {
          thpool_pause(p); ever_paused = true; paused_once = added > 0; bool immediate = c.chance(1, 4);
          c.note("pause%s", immediate ? ", resumed at once" : "");
          if (!immediate) {
            sched::settle(); w.paused = true; int s0 = w.started, f0 = w.finished; unsigned k = (unsigned)c.draw(3);
            for (unsigned q = 0; q < k; ++q) { drawjob(c, w); ++added; }
            sched::sleep_us((int64_t)c.range(1, 3500000)); sched::settle();
            if (w.started != s0) fail("%d jobs started while the pool was paused", w.started - s0); if (w.finished != f0) fail("%d jobs finished while the pool was paused", w.finished - f0);
            w.paused = false;
          }
          c.note("resume"); thpool_resume(p);
        } break;
      }
      if (!w.n_threads && w.started) fail("a job ran on a pool without threads");
    }
    if (second) { sched::wait_until([&] { return t2done; }, "the second thread's thpool_wait to return", 600ll * 1000000); sched::join(t2); }
    if (w.n_threads && c.boolean()) {
      c.note("wait"); wait_checked(w, "main"); waited = added > 0;
      for (auto &u : w.jobs) if (!u->finished) fail("job %d did not finish", u->id);
      sched::settle(); int n = thpool_num_threads_working(p); if (n) fail("%d threads work although every job finished", n);
    }
    if (c.boolean()) { sched::settle(); int n = thpool_num_threads_working(p); if (w.n_threads && !ever_paused && n != w.running) fail("thpool_num_threads_working says %d while %d jobs run", n, w.running); }
    c.note("destroy: %d of %zu started, %d finished", w.started, w.jobs.size(), w.finished);
    w.destroying = true; thpool_destroy(p); w.destroyed = true;
    if (w.running) fail("thpool_destroy returned while %d jobs run", w.running);
    if (mem::live_blocks()) fail("leak: %s", mem::describe().c_str());
    sched::settle(); sched::sleep_us(10 * 1000000); sched::settle();
    if (sched::threads_alive() != 1) fail("%d worker threads outlive the pool", sched::threads_alive() - 1);
    thpool_destroy(nullptr);
  });
  mem::stop();
  if (w.n_threads == 1) {
    std::map<int, int> last; for (int id : w.start_order) { int by = w.jobs[id]->by; if (last.count(by) && last[by] > id) fail("one worker: job %d ran before job %d, which the same thread had added earlier", last[by], id); last[by] = id; }
    c.label("one worker");
  }
  if (paused_once) c.label("paused"); if (w.started < (int)w.jobs.size()) c.label("destroyed with jobs queued"); if (second) c.label("two submitters"); if (w.max_running > 1) c.label("jobs ran in parallel"); if (waited) c.label("waited");
  if (w.started >= 4 && sched::switches >= 10 && (waited || paused_once)) c.nontrivial();
}
// Several pools: each has its own jobs, and pausing, resuming, creating or destroying one leaves the others alone.
struct PJob { int pool; bool started = false, finished = false; int64_t arg; };
static bool g_held[3];
static void pool_job(void *a) {
  PJob *j = (PJob *)a; if (j->started) fail("a job ran twice"); j->started = true;
  if (g_held[j->pool]) fail("a job of pool %d started while that pool was paused", j->pool);
  if (j->arg == 1) sched::yield(); else if (j->arg > 1) { int64_t until = sched::now_us() + j->arg; while (sched::now_us() < until) sched::sleep_us(until - sched::now_us()); }
  j->finished = true;
}
static void pools(Case &c) {
  mem::start(); std::vector<std::unique_ptr<PJob>> jobs; threadpool p[3] = {}; int nt[3] = {}; bool paused[3] = {}, crossed = false; for (bool &h : g_held) h = false;
  unsigned n_ops = (unsigned)c.range(2, 20); sched::Opts o = sched::draw_opts(c); o.tick_us = 100000; o.max_steps = 2000000;
  auto unfinished = [&](int k) { int n = 0; for (auto &j : jobs) if (j->pool == k && !j->finished) ++n; return n; };
  auto wait = [&](int k) { c.note("wait %d", k); thpool_wait(p[k]); if (int n = unfinished(k)) fail("thpool_wait on pool %d returned with %d of its jobs unfinished", k, n); };
  auto resume = [&](int k) { c.note("resume %d", k); g_held[k] = paused[k] = false; thpool_resume(p[k]); };
  auto destroy = [&](int k) {
    if (paused[k]) resume(k); if (c.boolean()) wait(k); c.note("destroy %d", k); thpool_destroy(p[k]); p[k] = nullptr;
    for (auto &j : jobs) if (j->pool == k) { if (j->started && !j->finished) fail("thpool_destroy returned while a job of pool %d ran", k); j->started = j->finished = true; }
    sched::settle(); int left = 0; for (int q = 0; q < 3; ++q) if (p[q]) left += nt[q]; if (sched::threads_alive() != 1 + left) fail("%d worker threads live, the pools have %d", sched::threads_alive() - 1, left);
  };
  sched::run(c, o, [&] {
    for (unsigned i = 0; i < n_ops; ++i) {
      Span sp(c); int k = (int)c.draw(2);
      if (!p[k]) { nt[k] = (int)c.range(1, 3); p[k] = thpool_init(nt[k]); if (!p[k]) fail("thpool_init"); c.note("pool %d: thpool_init(%d)", k, nt[k]); for (int q = 0; q < 3; ++q) if (q != k && paused[q]) crossed = true; continue; }
      switch (c.weighted({30, 16, 12, 12, 6, 6})) {
        case 0: { auto j = std::make_unique<PJob>(); j->pool = k; j->arg = c.chance(1, 4) ? (int64_t)c.range(2, 1500000) : (int64_t)c.draw(1); c.note("job for pool %d", k); if (thpool_add_work(p[k], pool_job, j.get())) fail("thpool_add_work"); jobs.push_back(std::move(j)); break; }
        case 1: if (!paused[k]) { c.note("pause %d", k); thpool_pause(p[k]); sched::settle(); g_held[k] = paused[k] = true; } break;
        case 2: if (paused[k]) { resume(k); for (int q = 0; q < 3; ++q) if (paused[q]) crossed = true; } break;
        case 3: if (!paused[k]) { wait(k); for (int q = 0; q < 3; ++q) if (paused[q]) crossed = true; } break;
        case 4: destroy(k); break;
        case 5: sched::sleep_us((int64_t)c.range(1, 3000000)); sched::settle(); break;
      }
    }
    for (int k = 0; k < 3; ++k) if (p[k]) destroy(k);
    if (mem::live_blocks()) fail("leak: %s", mem::describe().c_str());
  });
  mem::stop();
  if (crossed) c.label("a pool was used while another was paused");
  if (crossed && jobs.size() >= 3) c.nontrivial();
}

// Very many jobs, most of them queued at once: counters that are too narrow run over.
static int g_ran; static size_t g_next; static bool g_fifo;
static void count_job(void *a) { if (g_fifo && (size_t)a != g_next) fail("job %zu ran when job %zu was due", (size_t)a, g_next); ++g_next; ++g_ran; }
static void many(Case &c) {
  mem::start(); g_ran = 0; g_next = 0; int nt = (int)c.range(1, 3); g_fifo = nt == 1; size_t n = c.boolean() ? (size_t)c.range(65530, 65560) : (size_t)c.range(250, 300); if (c.chance(1, 4)) n += 65536; bool held = c.boolean();
  sched::Opts o = sched::draw_opts(c); o.max_gap = 400; o.preempt_memory = false; o.tick_us = 100000; o.max_steps = 80000000;
  sched::run(c, o, [&] {
    threadpool p = thpool_init(nt); if (!p) fail("thpool_init"); if (held) { thpool_pause(p); sched::settle(); }
    for (size_t i = 0; i < n; ++i) if (thpool_add_work(p, count_job, (void *)i)) fail("thpool_add_work #%zu", i);
    if (held && g_ran) fail("%d jobs ran while the pool was paused", g_ran); if (held) thpool_resume(p);
    c.note("thpool_init(%d), %zu jobs%s", nt, n, held ? " added while paused" : ""); thpool_wait(p); if ((size_t)g_ran != n) fail("thpool_wait returned, %d of %zu jobs ran", g_ran, n);
    thpool_destroy(p); if ((size_t)g_ran != n) fail("%d of %zu jobs ran", g_ran, n); if (mem::live_blocks()) fail("leak: %s", mem::describe().c_str());
  });
  mem::stop(); if (n > 65535) c.nontrivial();
}

std::vector<Suite> suites = {{"pools", pools, 12000, 300000, 30000}, {"script", script, 78000, 2000000, 30000}, {"many", many, 60, 600, 120000}};
