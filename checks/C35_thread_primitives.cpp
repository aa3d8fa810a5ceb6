// variant: sched
#include "pbt.h"
#include "intercept.h"
#include <limits.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" {
#include "thread/portable_thread.h"
}
using namespace pbt;

Property property = {
  "C35",
  "2 to 5 portable threads run generated scripts over shared portable mutexes, rwlocks and semaphores (critical sections, nested ones, reader groups that must all be inside at once, more waits than posts) under a generated schedule, "
  "compared with counters of who may be inside and how many tokens exist; and generated creations with names, attributes, arguments, results, initial counts and failing allocations on real threads; "
  "non-trivial: at least two threads met at one object",
  "exploration", {"sequentially consistent interleavings for the scheduled suite", "thread names of at most 15 characters, the limit of the platform"}};

static const int NM = 2, NR = 2, NS = 2;
static portable_mutex_t M[NM];
static portable_rwlock_t R[NR];
static portable_sem_t S[NS];
static int m_owner[NM], r_writer[NR], r_readers[NR];
static int64_t s_init[NS], s_posts[NS], s_done[NS], s_waits[NS];
static bool met;

struct Op { int kind, obj, nested, len; };
struct Script { int id; std::vector<Op> ops; void *ret; bool finished; };

static void pass(int n) { for (int i = 0; i < n; ++i) sched::yield(); }

static void mutex_section(int id, int o, int len) {
  if (m_owner[o]) met = true;
  PBT_EQ(portable_mutex_lock(&M[o]), 0, "portable_mutex_lock");
  PBT_CHECK(!m_owner[o], "two threads hold one mutex");
  m_owner[o] = id; pass(len);
  PBT_CHECK(m_owner[o] == id, "two threads hold one mutex");
  m_owner[o] = 0;
  PBT_EQ(portable_mutex_unlock(&M[o]), 0, "portable_mutex_unlock");
}

static void *thread_main(void *p) {
  Script &s = *(Script *)p;
  for (Op &o : s.ops) switch (o.kind) {
    case 0: mutex_section(s.id, o.obj, o.len); break;
    case 1:
      if (r_writer[o.obj]) met = true;
      PBT_EQ(portable_rwlock_rdlock(&R[o.obj]), 0, "portable_rwlock_rdlock");
      PBT_CHECK(!r_writer[o.obj], "a reader and a writer hold one rwlock");
      ++r_readers[o.obj];
      if (o.nested) mutex_section(s.id, 1, 1);
      pass(o.len); PBT_CHECK(!r_writer[o.obj], "a writer got in while a reader was inside");
      --r_readers[o.obj];
      PBT_EQ(portable_rwlock_unlock(&R[o.obj]), 0, "portable_rwlock_unlock");
      break;
    case 2:
      if (r_writer[o.obj] || r_readers[o.obj]) met = true;
      PBT_EQ(portable_rwlock_wrlock(&R[o.obj]), 0, "portable_rwlock_wrlock");
      PBT_CHECK(!r_writer[o.obj] && !r_readers[o.obj], "a writer is not alone inside the rwlock");
      r_writer[o.obj] = s.id; pass(o.len);
      PBT_CHECK(r_writer[o.obj] == s.id && !r_readers[o.obj], "a writer is not alone inside the rwlock");
      r_writer[o.obj] = 0;
      PBT_EQ(portable_rwlock_unlock(&R[o.obj]), 0, "portable_rwlock_unlock");
      break;
    case 3:
      ++s_posts[o.obj];
      PBT_EQ(portable_sem_post(&S[o.obj]), 0, "portable_sem_post");
      break;
    case 4: {
      int v = -1; PBT_EQ(portable_sem_getvalue(&S[o.obj], &v), 0, "portable_sem_getvalue");
      PBT_CHECK(v >= 0 && v <= s_init[o.obj] + s_posts[o.obj], "the semaphore shows %d, more than was put in", v);
      if (!v) met = true;
      PBT_EQ(portable_sem_wait(&S[o.obj]), 0, "portable_sem_wait");
      ++s_done[o.obj];
      PBT_CHECK(s_done[o.obj] <= s_init[o.obj] + s_posts[o.obj], "%lld waits returned with only %lld tokens", (long long)s_done[o.obj], (long long)(s_init[o.obj] + s_posts[o.obj]));
      break;
    }
  }
  s.finished = true;
  return s.ret;
}

static void contend(Case &c) {
  sched::Opts so = sched::draw_opts(c);
  size_t n = c.range(2, 5); std::vector<Script> sc(n); met = false;
  for (int i = 0; i < NM; ++i) m_owner[i] = 0;
  for (int i = 0; i < NR; ++i) r_writer[i] = r_readers[i] = 0;
  for (int i = 0; i < NS; ++i) { s_init[i] = (int64_t)c.draw(3); s_posts[i] = s_done[i] = s_waits[i] = 0; }
  for (size_t t = 0; t < n; ++t) {
    Span sp(c); sc[t].id = (int)t + 1; sc[t].ret = (void *)(uintptr_t)c.next64(); sc[t].finished = false; bool poster = t == 0 || c.boolean();
    size_t k = c.size(1, 10);
    for (size_t i = 0; i < k; ++i) {
      Span s2(c); Op o; o.kind = (int)c.draw(3); o.obj = (int)c.draw(1); o.nested = (int)c.draw(1); o.len = (int)c.draw(3);
      if (o.kind == 3 && !poster) { o.kind = 4; ++s_waits[o.obj]; }
      sc[t].ops.push_back(o); c.note("thread %zu: %s %d%s", t, (const char *[]){"mutex", "read", "write", "post", "wait"}[o.kind], o.obj, o.kind == 1 && o.nested ? " with a mutex" : "");
    }
  }
  mem::start();
  sched::run(c, so, [&] {
    for (auto &m : M) PBT_EQ(portable_mutex_init(&m, nullptr), 0, "portable_mutex_init");
    for (auto &r : R) PBT_EQ(portable_rwlock_init(&r, nullptr), 0, "portable_rwlock_init");
    for (int i = 0; i < NS; ++i) PBT_EQ(portable_sem_init(&S[i], (int)c.draw(1), (unsigned)s_init[i]), 0, "portable_sem_init");
    std::vector<portable_thread_t> th(n);
    for (size_t t = 0; t < n; ++t) { th[t] = (void *)1; PBT_EQ(portable_thread_create(&th[t], nullptr, thread_main, &sc[t]), 0, "portable_thread_create"); PBT_CHECK(th[t], "no handle"); }
    sched::settle();
    for (int i = 0; i < NS; ++i) {
      int64_t total = s_init[i] + s_posts[i]; int v = -1; PBT_EQ(portable_sem_getvalue(&S[i], &v), 0, "portable_sem_getvalue");
      PBT_EQ(v, total - s_done[i], "tokens left in the semaphore");
    }
    // Whoever still waits is short of tokens: provide them one by one.
    for (int guard = 0;; ++guard) {
      bool all = true; for (auto &s : sc) all &= s.finished; if (all) break;
      bool posted = false;
      for (int i = 0; i < NS; ++i) {
        if (s_done[i] >= s_waits[i]) continue;
        int64_t before = s_done[i]; int v; portable_sem_getvalue(&S[i], &v); if (v > 0) continue;
        ++s_posts[i]; PBT_EQ(portable_sem_post(&S[i]), 0, "portable_sem_post"); sched::settle(); posted = true;
        PBT_CHECK(s_done[i] <= before + 1 || s_posts[i] + s_init[i] >= s_done[i], "one post let several waits through");
      }
      if (!posted || guard > 200) fail("a thread never finished although every semaphore has tokens");
      met = true;
    }
    for (size_t t = 0; t < n; ++t) {
      void *r = (void *)1; PBT_EQ(portable_thread_join(th[t], &r), 0, "portable_thread_join"); PBT_CHECK(sc[t].finished, "join returned before the thread ended");
      PBT_CHECK(r == sc[t].ret, "join delivered another result");
    }
    for (auto &m : M) { PBT_EQ(portable_mutex_destroy(&m), 0, "portable_mutex_destroy"); PBT_CHECK(!m, "the handle was not cleared"); }
    for (auto &r : R) { PBT_EQ(portable_rwlock_destroy(&r), 0, "portable_rwlock_destroy"); PBT_CHECK(!r, "the handle was not cleared"); }
    for (auto &s : S) { PBT_EQ(portable_sem_destroy(&s), 0, "portable_sem_destroy"); PBT_CHECK(!s, "the handle was not cleared"); }
  });
  PBT_CHECK(!mem::live_blocks(), "memory left behind: %s", mem::describe().c_str()); mem::stop();
  if (met) c.nontrivial();
}

// Readers share: all of them are inside at once, and a writer gets in only afterwards.
static int inside, want_inside; static bool writer_in;
static void *reader(void *p) {
  PBT_EQ(portable_rwlock_rdlock((portable_rwlock_t *)p), 0, "portable_rwlock_rdlock"); PBT_CHECK(!writer_in, "reader and writer together"); ++inside;
  for (int i = 0; inside < want_inside; ++i) { PBT_CHECK(i < 1000, "%d readers asked for the rwlock, only %d are let in at the same time", want_inside, inside); sched::sleep_us(1000); }
  PBT_EQ(portable_rwlock_unlock((portable_rwlock_t *)p), 0, "portable_rwlock_unlock"); return nullptr;
}
static int left;
static void *writer(void *p) {
  PBT_EQ(portable_rwlock_wrlock((portable_rwlock_t *)p), 0, "portable_rwlock_wrlock"); writer_in = true; sched::yield(); writer_in = false; ++left;
  PBT_EQ(portable_rwlock_unlock((portable_rwlock_t *)p), 0, "portable_rwlock_unlock"); return nullptr;
}
static void readers(Case &c) {
  sched::Opts so = sched::draw_opts(c); want_inside = (int)c.range(2, 5); inside = 0; left = 0; writer_in = false; int nw = (int)c.draw(2); c.note("%d readers, %d writers", want_inside, nw);
  mem::start();
  sched::run(c, so, [&] {
    portable_rwlock_t l; PBT_EQ(portable_rwlock_init(&l, nullptr), 0, "portable_rwlock_init"); std::vector<portable_thread_t> th; portable_thread_t t;
    for (int i = 0; i < want_inside; ++i) { PBT_EQ(portable_thread_create(&t, nullptr, reader, &l), 0, "portable_thread_create"); th.push_back(t); }
    // writers only compete once the readers hold the lock: which side the platform prefers is its own business
    sched::wait_until([] { return inside > 0; }, "a reader inside");
    if (inside >= want_inside || c.boolean()) sched::wait_until([] { return inside >= want_inside; }, "all readers inside");
    for (int i = 0; i < nw; ++i) if (inside >= want_inside) { PBT_EQ(portable_thread_create(&t, nullptr, writer, &l), 0, "portable_thread_create"); th.push_back(t); }
    for (auto &h : th) PBT_EQ(portable_thread_join(h, nullptr), 0, "portable_thread_join");
    PBT_EQ(portable_rwlock_destroy(&l), 0, "portable_rwlock_destroy");
  });
  PBT_CHECK(!mem::live_blocks(), "memory left behind: %s", mem::describe().c_str()); mem::stop(); c.nontrivial();
}

// Creation, attributes and refusals on real threads.
struct Probe { std::string name; unsigned long tid, sys; void *stack, *arg; portable_sem_t go; std::string rename; std::string renamed; int rename_ret; void *ret; };
static void *probe(void *p) {
  Probe *q = (Probe *)p; PBT_EQ(portable_sem_wait(&q->go), 0, "portable_sem_wait"); q->arg = p; char b[32] = {0}; prctl(PR_GET_NAME, b); q->name = b; q->tid = portable_thread_gettid(); q->sys = (unsigned long)syscall(SYS_gettid);
  pthread_attr_t a; size_t sz; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &q->stack, &sz); pthread_attr_destroy(&a);
  q->rename_ret = portable_thread_set_current_name(q->rename.c_str()); memset(b, 0, sizeof b); prctl(PR_GET_NAME, b); q->renamed = b; return q->ret;
}
static void create(Case &c) {
  mem::start(); size_t n = c.range(1, 4); std::vector<Probe> ps(n); std::vector<portable_thread_t> th(n); std::vector<std::string> names(n); std::vector<void *> stacks(n); char own[32] = {0}; prctl(PR_SET_NAME, "parent name"); prctl(PR_GET_NAME, own);
  for (size_t i = 0; i < n; ++i) {
    Span sp(c); Probe &q = ps[i]; q.ret = (void *)(uintptr_t)c.next64(); q.rename = c.str(0, 15, "abc xyz%"); PBT_EQ(portable_sem_init(&q.go, 0, 0), 0, "portable_sem_init"); portable_thread_attr_t a; memset(&a, 0, sizeof a); bool attr = c.boolean(); if (attr) { names[i] = c.str(0, 15, "qrs-/%s9"); strcpy(a.name, names[i].c_str()); a.stack_size = (unsigned)c.draw(1) * 65536; }
    pthread_attr_t pa; pthread_attr_init(&pa); if (attr && c.boolean()) { stacks[i] = mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); pthread_attr_setstack(&pa, stacks[i], 1 << 20); a.platform_attr = &pa; }
    int fault = c.draw(5) == 5 ? (int)c.range(1, 2) : 0; th[i] = (void *)1;
    if (fault) { if (fault == 1) mem::fail_at(1); else sched::fail_create_at(1); int r = portable_thread_create(&th[i], attr ? &a : nullptr, probe, &q); mem::fail_at(0); PBT_CHECK(r != 0 && !th[i], "creating a thread without %s returned %d with handle %p", fault == 1 ? "memory" : "resources", r, th[i]); c.label("creation fails"); }
    PBT_EQ(portable_thread_create(&th[i], attr ? &a : nullptr, probe, &q), 0, "portable_thread_create"); PBT_CHECK(th[i], "no handle"); pthread_attr_destroy(&pa); memset(&a, 0x5a, sizeof a);
  }
  for (size_t i = n; i-- > 0;) { Probe &q = ps[i]; PBT_EQ(portable_sem_post(&q.go), 0, "portable_sem_post"); void *r = nullptr; PBT_EQ(portable_thread_join(th[i], c.boolean() || !c.idx ? &r : &r), 0, "portable_thread_join"); PBT_CHECK(r == q.ret, "join delivered another result"); PBT_CHECK(q.arg == &q, "the thread got another argument");
    PBT_CHECK(q.name == (names[i].empty() ? std::string(own) : names[i]), "the thread is named %s, asked for %s", quote(q.name).c_str(), quote(names[i]).c_str()); PBT_CHECK(q.tid == q.sys, "portable_thread_gettid is %lu, the thread is %lu", q.tid, q.sys); if (stacks[i]) { PBT_CHECK(q.stack == stacks[i], "the platform attributes were ignored"); munmap(stacks[i], 1 << 20); }
    PBT_EQ(q.rename_ret == 0, !q.rename.empty(), "portable_thread_set_current_name"); PBT_CHECK(q.renamed == (q.rename.empty() ? q.name : q.rename), "renamed to %s, asked for %s", quote(q.renamed).c_str(), quote(q.rename).c_str()); PBT_EQ(portable_sem_destroy(&q.go), 0, "portable_sem_destroy"); }
  memset(own, 0, sizeof own); prctl(PR_GET_NAME, own); PBT_CHECK(!strcmp(own, "parent name"), "the calling thread was renamed to %s", own); PBT_CHECK(!mem::live_blocks(), "memory left behind: %s", mem::describe().c_str()); mem::stop(); c.nontrivial();
}
static void objects(Case &c) {
  mem::start(); unsigned what = (unsigned)c.draw(2), fault = c.draw(3) == 3; unsigned init = (unsigned)c.oneof<uint64_t>({0, 1, 2, c.draw(1000), SEM_VALUE_MAX, (uint64_t)SEM_VALUE_MAX + 1, UINT_MAX}); void *h = (void *)1;
  if (what == 0) {
    pthread_mutexattr_t a; pthread_mutexattr_init(&a); int type = (int)c.oneof<int64_t>({-1, PTHREAD_MUTEX_RECURSIVE, PTHREAD_MUTEX_ERRORCHECK}); if (type >= 0) pthread_mutexattr_settype(&a, type); if (fault) mem::fail_at(1); int r = portable_mutex_init(&h, type >= 0 ? &a : nullptr); pthread_mutexattr_destroy(&a);
    if (fault) PBT_CHECK(r != 0 && !h, "init without memory returned %d", r); else { PBT_EQ(r, 0, "portable_mutex_init"); PBT_EQ(portable_mutex_lock(&h), 0, "lock"); if (type == PTHREAD_MUTEX_RECURSIVE) { PBT_EQ(portable_mutex_lock(&h), 0, "second lock of a recursive mutex"); PBT_EQ(portable_mutex_unlock(&h), 0, "unlock"); } if (type == PTHREAD_MUTEX_ERRORCHECK) PBT_CHECK(portable_mutex_lock(&h) != 0, "second lock of an error checking mutex succeeded"); PBT_EQ(portable_mutex_unlock(&h), 0, "unlock"); if (type >= 0) PBT_CHECK(portable_mutex_unlock(&h) != 0, "an unlocked mutex was unlocked"); PBT_EQ(portable_mutex_destroy(&h), 0, "destroy"); }
    PBT_CHECK(!h, "the handle was not cleared"); PBT_CHECK(portable_mutex_lock(&h) != 0 && portable_mutex_unlock(&h) != 0 && portable_mutex_destroy(&h) != 0, "a destroyed mutex was accepted"); PBT_CHECK(portable_mutex_init(nullptr, nullptr) && portable_mutex_lock(nullptr) && portable_mutex_unlock(nullptr) && portable_mutex_destroy(nullptr), "NULL was accepted");
  } else if (what == 1) {
    if (fault) mem::fail_at(1); int r = portable_rwlock_init(&h, nullptr); if (fault) PBT_CHECK(r != 0 && !h, "init without memory returned %d", r); else { PBT_EQ(r, 0, "init"); size_t k = c.draw(4); for (size_t i = 0; i < k; ++i) PBT_EQ(portable_rwlock_rdlock(&h), 0, "rdlock"); for (size_t i = 0; i < k; ++i) PBT_EQ(portable_rwlock_unlock(&h), 0, "unlock"); PBT_EQ(portable_rwlock_wrlock(&h), 0, "wrlock"); PBT_CHECK(portable_rwlock_wrlock(&h) != 0, "a second write lock of the same thread succeeded"); PBT_EQ(portable_rwlock_unlock(&h), 0, "unlock"); PBT_EQ(portable_rwlock_destroy(&h), 0, "destroy"); }
    PBT_CHECK(!h, "the handle was not cleared"); PBT_CHECK(portable_rwlock_rdlock(&h) && portable_rwlock_wrlock(&h) && portable_rwlock_unlock(&h) && portable_rwlock_destroy(&h), "a destroyed rwlock was accepted"); PBT_CHECK(portable_rwlock_init(nullptr, nullptr) && portable_rwlock_rdlock(nullptr) && portable_rwlock_wrlock(nullptr) && portable_rwlock_unlock(nullptr) && portable_rwlock_destroy(nullptr), "NULL was accepted");
  } else {
    int v = -7; if (fault) mem::fail_at(1); int r = portable_sem_init(&h, (int)c.draw(1), init); if (fault || init > SEM_VALUE_MAX) PBT_CHECK(r != 0 && !h, "init (count %u) returned %d", init, r); else { PBT_EQ(r, 0, "portable_sem_init"); int64_t model = init; size_t k = c.size(0, 30); for (size_t i = 0; i < k; ++i) { if (c.boolean() && model > 0) { PBT_EQ(portable_sem_wait(&h), 0, "wait"); --model; } else { bool full = model == SEM_VALUE_MAX; PBT_EQ(portable_sem_post(&h) == 0, !full, "post"); if (!full) ++model; } PBT_EQ(portable_sem_getvalue(&h, &v), 0, "getvalue"); PBT_EQ(v, model, "value of the semaphore"); } PBT_EQ(portable_sem_destroy(&h), 0, "destroy"); }
    PBT_CHECK(!h, "the handle was not cleared"); PBT_CHECK(portable_sem_wait(&h) && portable_sem_post(&h) && portable_sem_getvalue(&h, &v) && portable_sem_destroy(&h), "a destroyed semaphore was accepted"); PBT_CHECK(portable_sem_init(nullptr, 0, 1) && portable_sem_wait(nullptr) && portable_sem_post(nullptr) && portable_sem_getvalue(nullptr, &v) && portable_sem_destroy(nullptr), "NULL was accepted"); if (init > 1) c.nontrivial();
  }
  PBT_CHECK(portable_thread_join(nullptr, nullptr) != 0, "a NULL thread was joined"); portable_thread_t th = nullptr; PBT_CHECK(portable_thread_create(nullptr, nullptr, probe, nullptr) != 0 && portable_thread_create(&th, nullptr, nullptr, nullptr) != 0, "a thread without handle or function was created");
  PBT_CHECK(portable_thread_set_current_name(nullptr) != 0 && portable_thread_set_current_name("") != 0, "an empty name was set");
  PBT_CHECK(!mem::live_blocks(), "memory left behind: %s", mem::describe().c_str()); mem::stop(); c.label("%s%s", what == 0 ? "mutex" : what == 1 ? "rwlock" : "semaphore", fault ? " without memory" : "");
}

std::vector<Suite> suites = {{"contend", contend, 40000, 300000}, {"readers", readers, 8000, 50000}, {"create", create, 40000, 100000}, {"objects", objects, 200000, 500000}};
