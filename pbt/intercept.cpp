#include <execinfo.h>
#include "intercept.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <atomic>
#include <malloc.h>
#include <map>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

// ------------------------------------------------------------------ memory ---
namespace mem {
static bool on = false;
static std::mutex mu;
static std::unordered_map<void *, size_t> *blocks = nullptr;
static size_t bytes = 0, total = 0;
static int64_t countdown = 0; size_t sparse = 0, big = 0; static bool sticky = false, delivered = false;
void start() {
  std::lock_guard<std::mutex> l(mu);
  if (!blocks) blocks = new std::unordered_map<void *, size_t>;
  blocks->clear(); bytes = 0; total = 0; countdown = 0; sticky = false; delivered = false; on = true;
}
void stop() { on = false; }
size_t live_blocks() { std::lock_guard<std::mutex> l(mu); return blocks ? blocks->size() : 0; }
size_t live_bytes() { return bytes; }
bool is_live(const void *p) { std::lock_guard<std::mutex> l(mu); return blocks && blocks->count((void *)p); }
size_t block_size(const void *p) { std::lock_guard<std::mutex> l(mu); if (!blocks) return 0; auto i = blocks->find((void *)p); return i == blocks->end() ? 0 : i->second; }
size_t total_allocs() { return total; }
std::string describe() {
  std::lock_guard<std::mutex> l(mu); std::string r; int n = 0;
  if (blocks) for (auto &b : *blocks) { if (n++ > 12) { r += " ..."; break; } r += " " + std::to_string(b.second); }
  return "live block sizes:" + r;
}
void fail_at(int64_t k) { countdown = k; sticky = false; delivered = false; }
void fail_from(int64_t k) { countdown = k; sticky = true; delivered = false; }
bool failed() { return delivered; }
static bool inject() {
  if (!on || !countdown) return false;
  if (countdown > 1) { __atomic_sub_fetch(&countdown, 1, __ATOMIC_SEQ_CST); return false; }
  delivered = true; if (!sticky) countdown = 0; return true;
}
static void add(void *p, size_t n) { if (!on || !p) return; std::lock_guard<std::mutex> l(mu); (*blocks)[p] = n; bytes += n; ++total; }
static void del(void *p) { if (!on || !p) return; std::lock_guard<std::mutex> l(mu); auto i = blocks->find(p); if (i != blocks->end()) { bytes -= i->second; blocks->erase(i); } }
}

// Blocks of mem::big bytes and more are mapped, not touched, and end at a page nobody may touch.
namespace mem {
struct Map { char *base; size_t len, n; };
static std::unordered_map<void *, Map> maps; static std::atomic<int> n_maps{0};
static void *map_big(size_t n) {
  size_t body = (n + 4095) & ~(size_t)4095, len = body + 4096; char *b = (char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == (char *)MAP_FAILED) { errno = ENOMEM; return nullptr; }
  mprotect(b + body, 4096, PROT_NONE); char *p = b + ((body - n) & ~(size_t)15); std::lock_guard<std::mutex> l(mu); maps[p] = {b, len, n}; ++n_maps; return p;
}
static size_t mapped_size(void *p) { if (!n_maps) return 0; std::lock_guard<std::mutex> l(mu); auto i = maps.find(p); return i == maps.end() ? 0 : i->second.n; }
static bool unmap_big(void *p) { if (!n_maps) return false; std::lock_guard<std::mutex> l(mu); auto i = maps.find(p); if (i == maps.end()) return false; munmap(i->second.base, i->second.len); maps.erase(i); --n_maps; return true; }
static void *raw_malloc(size_t n) { return big && n >= big ? map_big(n) : malloc(n); }
static void *raw_calloc(size_t a, size_t b) { return big && a && b <= ((size_t)1 << 40) / a && a * b >= big ? map_big(a * b) : calloc(a, b); }
static void raw_free(void *p) { if (!unmap_big(p)) free(p); }
static void *raw_realloc(void *q, size_t n) {
  size_t old = mapped_size(q); if (!old && !(big && n >= big)) return realloc(q, n);
  if (q && !n) { raw_free(q); return nullptr; }
  void *p = raw_malloc(n); if (!p || !q) return p;
  if (!old) old = malloc_usable_size(q);
  size_t m = std::min(old, n); char *a = (char *)((uintptr_t)q & ~(uintptr_t)4095), *e = (char *)q + m; std::vector<unsigned char> there(((size_t)(e - a) + 4095) / 4096, 1);
  if (m >= 1 << 20 && mapped_size(q)) mincore(a, (size_t)(e - a), there.data());   // what was never touched need not be moved
  for (size_t i = 0; i < there.size(); ++i) if (there[i] & 1) { char *f = std::max(a + i * 4096, (char *)q), *t = std::min(a + (i + 1) * 4096, e); memcpy((char *)p + (f - (char *)q), f, (size_t)(t - f)); }
  raw_free(q); return p;
}
}

extern "C" {
void *lcux_malloc(size_t n) { if (mem::inject()) { errno = ENOMEM; return nullptr; } void *p = mem::raw_malloc(n); mem::add(p, n); return p; }
void *lcux_calloc(size_t a, size_t b) { if (mem::inject()) { errno = ENOMEM; return nullptr; } void *p = mem::raw_calloc(a, b); mem::add(p, a * b); return p; }
void *lcux_realloc(void *q, size_t n) {
  if (mem::inject()) { errno = ENOMEM; return nullptr; }
  if (mem::on && q) { mem::del(q); }
  void *p = mem::raw_realloc(q, n); if (p) mem::add(p, n); else if (q && n) mem::add(q, 0); return p;
}
void lcux_free(void *p) { mem::del(p); mem::raw_free(p); }
char *lcux_strdup(const char *s) { if (mem::inject()) { errno = ENOMEM; return nullptr; } char *p = strdup(s); mem::add(p, strlen(s) + 1); return p; }
char *lcux_strndup(const char *s, size_t n) { if (mem::inject()) { errno = ENOMEM; return nullptr; } char *p = strndup(s, n); mem::add(p, p ? strlen(p) + 1 : 0); return p; }
char *lcux___strdup(const char *s) { return lcux_strdup(s); }
char *lcux___strndup(const char *s, size_t n) { return lcux_strndup(s, n); }
int lcux_vasprintf(char **o, const char *f, va_list ap) {
  if (mem::inject()) { *o = nullptr; errno = ENOMEM; return -1; }
  int n = vasprintf(o, f, ap); if (n >= 0) mem::add(*o, (size_t)n + 1); return n;
}
int lcux_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int n = lcux_vasprintf(o, f, ap); va_end(ap); return n; }
void *lcux_aligned_alloc(size_t a, size_t n) { if (mem::inject()) { errno = ENOMEM; return nullptr; } void *p = aligned_alloc(a, n); mem::add(p, n); return p; }
// Used only if the library does not bring its own (it does, see src/mem/strings.c).
__attribute__((weak)) size_t lcux_strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
__attribute__((weak)) size_t lcux_strlcat(char *d, const char *s, size_t n) { size_t l = strnlen(d, n); return l == n ? n + strlen(s) : l + lcux_strlcpy(d + l, s, n - l); }
int lcux_posix_memalign(void **o, size_t a, size_t n) { if (mem::inject()) return ENOMEM; int r = posix_memalign(o, a, n); if (!r) mem::add(*o, n); return r; }
}

// --------------------------------------------------------------- scheduler ---
namespace sched {
uint64_t steps = 0, switches = 0;
static bool g_active = false;
static pbt::Case *g_case = nullptr;
static Opts g_o;
static int64_t g_gap = 0, g_now = 0;
static int64_t g_create_fail = 0;

enum St { RUN, BLOCKED, DONE };
struct VT {
  int id; St st = RUN; const void *on = nullptr; int64_t deadline = -1; bool timed_out = false;
  sem_t baton; pthread_t pt; bool has_pt = false; bool detached = false; bool joined = false;
  std::vector<int> sigs; uint64_t mask = 0; bool in_handler = false; bool interrupted = false; bool interruptible = false;
  std::function<void()> fn; void *(*start)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
  const char *why = "";
  const void *susp_on = nullptr; bool susp_woken = false;   // the wait a signal handler interrupted
};
static std::vector<VT *> T;
static VT *cur = nullptr;
static thread_local VT *me = nullptr;
struct Mu { int owner = -1; int depth = 0; bool recursive = false; };
struct Cv { std::vector<int> waiters; };
struct Se { int v = 0; };
struct Rw { int writer = -1; std::vector<int> readers; };
static std::unordered_map<const void *, Rw> rws;
static std::unordered_map<const void *, Mu> mus; static std::unordered_map<const void *, Cv> cvs; static std::unordered_map<const void *, Se> ses;
static std::map<int, void (*)(int)> handlers;

bool active() { return g_active && me; }
int self() { return me ? me->id : -1; }
int64_t now_us() { return g_now; }
int threads_alive() { int n = 0; for (VT *t : T) n += t->st != DONE; return n; }
void fail_create_at(int64_t k) { g_create_fail = k; }

static void new_gap() { g_gap = (int64_t)g_case->draw(g_o.max_gap); }
static bool has_sig(VT *t) { if (t->in_handler) return false; for (int s : t->sigs) if (!(t->mask >> s & 1)) return true; return false; }
static bool can_run(VT *t) { return t->st == RUN || (t->st == BLOCKED && has_sig(t)); }

static void hand_to(VT *t) {
  VT *self_ = me;
  if (t == self_) return;
  ++switches; cur = t;
  sem_post(&t->baton);
  while (sem_wait(&self_->baton) != 0) {}
}
static void dump_threads() {
  for (VT *t : T) fprintf(stderr, "  vthread %d: %s %s deadline=%lld\n", t->id, t->st == RUN ? "runnable" : t->st == BLOCKED ? "blocked in" : "finished", t->why, (long long)t->deadline);
}
// Picks a thread to run; the caller may be blocked or finished.
static VT *choose(bool self_last = false) {
  for (;;) {
    std::vector<VT *> r;
    if (!self_last && can_run(me)) r.push_back(me);
    size_t nt = T.size(); for (size_t k = 1; k < nt; ++k) { VT *t = T[(me->id + k) % nt]; if (can_run(t)) r.push_back(t); }
    if (self_last && can_run(me)) r.push_back(me);
    if (!r.empty()) return r.size() == 1 ? r[0] : r[g_case->draw(r.size() - 1)];
    // nobody can run: let time pass
    int64_t d = -1; for (VT *t : T) if (t->st == BLOCKED && t->deadline >= 0 && (d < 0 || t->deadline < d)) d = t->deadline;
    if (d < 0) {
      dump_threads();
      std::string s; for (VT *t : T) if (t->st == BLOCKED) s += " [thread " + std::to_string(t->id) + " in " + t->why + "]";
      pbt::fail("deadlock: every thread is blocked:%s", s.c_str());
    }
    if (d > g_now) g_now = d;
    for (VT *t : T) if (t->st == BLOCKED && t->deadline >= 0 && t->deadline <= g_now) { t->st = RUN; t->timed_out = true; t->deadline = -1; }
  }
}
// satisfied waits are recorded here: a waiter may be inside a signal handler
static std::map<int, bool> woken;
static void pass_time(int64_t us) {
  g_now += us;
  for (VT *t : T) if (t->st == BLOCKED && t->deadline >= 0 && t->deadline <= g_now) { t->st = RUN; t->timed_out = true; t->deadline = -1; }
}
static void clock_tick() { if (g_o.tick_us) pass_time(g_o.tick_us); }
static void run_signals() {
  while (me && has_sig(me)) {
    size_t si = 0; while (me->mask >> me->sigs[si] & 1) ++si;
    int s = me->sigs[si]; me->sigs.erase(me->sigs.begin() + si);
    auto h = handlers.find(s); if (h == handlers.end() || !h->second) continue;
    bool was_blocked = me->st == BLOCKED; const void *on = me->on; int64_t dl = me->deadline; const char *why = me->why; bool to = me->timed_out;
    if (was_blocked) { me->susp_on = on; me->susp_woken = woken[me->id]; }
    me->st = RUN; me->in_handler = true; me->deadline = -1; me->timed_out = false;
    h->second(s);
    me->in_handler = false; me->interrupted = true;
    if (was_blocked) { me->st = BLOCKED; me->on = on; me->deadline = dl; me->timed_out = to; woken[me->id] = me->susp_woken; me->susp_on = nullptr; }
    me->why = why;
  }
}
std::function<void(void *, unsigned)> on_store;
static void step_count() { if (++steps > g_o.max_steps) { fprintf(stderr, "step limit in thread %d at virtual %lld us\n", me ? me->id : -1, (long long)g_now); if (getenv("PBT_DBG")) { FILE *df = fopen(getenv("PBT_DBG"), "w"); void *bt[40]; int nb = backtrace(bt, 40); backtrace_symbols_fd(bt, nb, fileno(df)); for (VT *t : T) fprintf(df, "%d %d %s %lld now %lld\n", t->id, t->st, t->why, (long long)t->deadline, (long long)g_now); fclose(df); } dump_threads(); pbt::fail("no end of the run after %llu scheduling points", (unsigned long long)steps); } }
static void point(bool memory) {
  if (!g_active || !me || (memory && !g_o.preempt_memory)) return;
  step_count();
  if (has_sig(me) && g_case->draw(1)) run_signals();
  if (g_gap-- > 0) return;
  new_gap();
  hand_to(choose());
}

static bool block(const void *on, const char *why, int64_t deadline, bool interruptible = false) {
  // returns false on timeout
  VT *m = me; m->st = BLOCKED; m->on = on; m->deadline = deadline; m->timed_out = false; m->why = why; m->interrupted = false; woken[m->id] = false;
  for (;;) {
    VT *t = choose(false);
    hand_to(t);
    if (m->st == BLOCKED && has_sig(m)) {
      run_signals();
      if (woken[m->id]) { m->st = RUN; m->deadline = -1; }
      else if (deadline >= 0 && g_now >= deadline) { m->st = RUN; m->timed_out = true; m->deadline = -1; }
      else if (interruptible) { m->st = RUN; m->deadline = -1; }
    }
    if (m->st == RUN) break;
  }
  m->on = nullptr; m->why = "";
  step_count();
  return !m->timed_out;
}
// ASan fills fresh memory with 0xbe: an object with that content was never initialised
template <class M> static void initialised(const M &m, const void *o, const char *what) {
  const unsigned char *p = (const unsigned char *)o; if (p[0] != 0xbe || m.count(o)) return;
  for (int i = 1; i < 8; ++i) if (p[i] != 0xbe) return;
  pbt::fail("a %s is used that was never initialised", what);
}
static void wake(VT *t) { if (t->susp_on) { t->susp_woken = true; return; } woken[t->id] = true; t->timed_out = false; if (t->st == BLOCKED) { t->st = RUN; t->deadline = -1; } }
static bool waits_on(VT *t, const void *o) { return t->st != DONE && (t->susp_on ? t->susp_on == o : t->on == o); }
static void wake_all_on(const void *o) { for (VT *t : T) if (waits_on(t, o)) wake(t); }

static void *tmain(void *p) {
  VT *t = (VT *)p; me = t;
  while (sem_wait(&t->baton) != 0) {}
  if (t->start) t->ret = t->start(t->arg); else t->fn();
  t->st = DONE; t->why = "";
  wake_all_on(t);
  VT *n = choose(false);
  me = nullptr; ++switches; cur = n; sem_post(&n->baton);
  return nullptr;
}
static VT *mk() { VT *t = new VT; t->id = (int)T.size(); sem_init(&t->baton, 0, 0); T.push_back(t); return t; }
static int launch(VT *t) {
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 << 10);
  int r = pthread_create(&t->pt, &a, tmain, t); pthread_attr_destroy(&a); t->has_pt = r == 0; return r;
}
int spawn(const std::function<void()> &fn) { VT *t = mk(); t->fn = fn; if (launch(t)) pbt::fail("harness: pthread_create failed"); point(false); return t->id; }
static void join_vt(VT *t) { while (t->st != DONE) block(t, "join", -1); }
void join(int id) { join_vt(T[id]); }
void yield() { if (active()) { step_count(); run_signals(); new_gap(); hand_to(choose(true)); } else sched_yield(); }
void sleep_us(int64_t us) { if (!active()) { usleep(us); return; } block(nullptr, "sleep", g_now + us, true); }
bool quiescent() { for (VT *t : T) if (t != me && can_run(t)) return false; return true; }
void settle() { while (!quiescent()) { std::vector<VT *> r; for (VT *t : T) if (t != me && can_run(t)) r.push_back(t); step_count(); new_gap(); hand_to(r.size() == 1 ? r[0] : r[g_case->draw(r.size() - 1)]); } }
void wait_until(const std::function<bool()> &pred, const char *what, int64_t max_us) {
  int64_t end = g_now + max_us;
  while (!pred()) {
    if (!quiescent()) { settle(); continue; }
    // time must pass for anything to happen
    int64_t d = -1; for (VT *t : T) if (t != me && t->st == BLOCKED && t->deadline >= 0 && (d < 0 || t->deadline < d)) d = t->deadline;
    if (d < 0) { dump_threads(); pbt::fail("%s: never happens, every thread is blocked for good", what); }
    if (d > end) { dump_threads(); pbt::fail("%s: did not happen within %lld virtual ms", what, (long long)max_us / 1000); }
    sleep_us(d > g_now ? d - g_now : 1);
  }
}
Opts draw_opts(pbt::Case &c) {
  static const uint32_t gaps[] = {2000, 400, 100, 30, 8, 3};
  Opts o; o.max_gap = gaps[c.draw(5)]; o.preempt_memory = c.draw(3) != 1; return o;
}
void run(pbt::Case &c, const Opts &o, const std::function<void()> &body) {
  T.clear(); mus.clear(); cvs.clear(); ses.clear(); rws.clear(); handlers.clear(); woken.clear();
  g_case = &c; g_o = o; steps = switches = 0; g_now = 1700000000ll * 1000000; g_create_fail = 0;
  VT *t = mk(); t->pt = pthread_self(); t->has_pt = true; me = cur = t; new_gap(); g_active = true;
  body();
  for (VT *x : T) if (x->start && x->st == DONE && !x->joined && !x->detached) pbt::fail("thread %d, which the library created, ended but was neither joined nor detached: its resources are never released", x->id);
  g_active = false; me = nullptr;
  for (VT *t_ : T) if (t_->st == DONE && t_->has_pt && t_->id != 0) pthread_join(t_->pt, nullptr);
}
}  // namespace sched
using sched::active;

// ------------------------------------------------------------------- clock ---
namespace vclock {
static bool on = false; static int64_t t = 0; uint64_t calls = 0; thread_local int64_t last_us = 0; thread_local uint64_t readings = 0;
void set_us(int64_t us) { on = true; t = us; }
void advance_us(int64_t us) { t += us; }
int64_t now_us() { return t; }
void off() { on = false; }
}
static bool virt_now1(int64_t *us) {
  ++vclock::calls;
  if (vclock::on) { *us = vclock::t; return true; }
  if (sched::active()) { sched::clock_tick(); *us = sched::now_us(); return true; }
  return false;
}
static bool virt_now(int64_t *us) { bool r = virt_now1(us); if (r) { vclock::last_us = *us; ++vclock::readings; } return r; }
extern "C" {
int lcux_gettimeofday(struct timeval *tv, void *tz) {
  int64_t us; if (!virt_now(&us)) return gettimeofday(tv, (struct timezone *)tz);
  int64_t s = us / 1000000, f = us % 1000000; if (f < 0) { f += 1000000; --s; }
  if (tv) { tv->tv_sec = s; tv->tv_usec = f; } if (tz) memset(tz, 0, sizeof(struct timezone)); return 0;
}
time_t lcux_time(time_t *o) {
  int64_t us; if (!virt_now(&us)) return time(o);
  int64_t s = us / 1000000; if (us % 1000000 < 0) --s; if (o) *o = s; return s;
}
int lcux_clock_gettime(clockid_t id, struct timespec *ts) {
  int64_t us; if (!virt_now(&us)) return clock_gettime(id, ts);
  int64_t s = us / 1000000, f = us % 1000000; if (f < 0) { f += 1000000; --s; }
  ts->tv_sec = s; ts->tv_nsec = f * 1000; return 0;
}
int lcux_usleep(useconds_t us) { if (active()) { sched::sleep_us(us); return 0; } return usleep(us); }
unsigned lcux_sleep(unsigned s) {
  if (!active()) return sleep(s);
  int64_t end = sched::now_us() + (int64_t)s * 1000000; sched::sleep_us((int64_t)s * 1000000);
  int64_t left = end - sched::now_us(); return left > 0 ? (unsigned)((left + 999999) / 1000000) : 0;
}
int lcux_nanosleep(const struct timespec *a, struct timespec *rem) {
  if (!active()) return nanosleep(a, rem);
  sched::sleep_us(a->tv_sec * 1000000ll + a->tv_nsec / 1000); if (rem) rem->tv_sec = rem->tv_nsec = 0; return 0;
}
int lcux_sched_yield(void) { if (active()) { sched::yield(); return 0; } return sched_yield(); }
}

// ---------------------------------------------------------------------- io ---
namespace io {
int64_t open_files = 0; static int64_t wcd = 0, ocd = 0; static bool del_ = false;
void clear_opened(); void reset() { open_files = 0; wcd = ocd = 0; del_ = false; clear_opened(); }
void fail_fwrite_at(int64_t k) { wcd = k; }
void fail_fopen_at(int64_t k) { ocd = k; }
bool delivered() { return del_; }
std::vector<std::string> escapes; std::string tty;
std::function<int64_t(size_t)> short_rw; std::function<ssize_t(int, char *, size_t)> stand_in_rw;
// Calls that would change something outside the scratch directory are recorded, not made.
static bool escaped(const char *what, const char *p) { if (p && (!*p || pbt::inside_scratch(p) || !strncmp(p, "/dev/", 5))) return false; escapes.push_back(std::string(what) + " " + (p ? p : "(null)")); errno = EACCES; return true; }
static std::vector<std::string> opened_; static std::mutex opened_mu;
std::vector<std::string> opened() { std::lock_guard<std::mutex> l(opened_mu); return opened_; }
void clear_opened() { std::lock_guard<std::mutex> l(opened_mu); opened_.clear(); }
static void note_open(const char *p, const char *m) { if (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+')) { std::lock_guard<std::mutex> l(opened_mu); opened_.push_back(p); } }
static bool inj(int64_t &c) { if (!c) return false; if (--c) return false; del_ = true; return true; }
}
// Output calls are scheduling points (before and after): lines written in pieces can be torn.
namespace sched { static void point(bool memory); }
struct IoPoint { IoPoint() { sched::point(false); } ~IoPoint() { sched::point(false); } };
extern "C" {
FILE *lcux_fopen(const char *p, const char *m) { IoPoint ip; if ((strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+')) && io::escaped("fopen", p)) return nullptr; if (io::inj(io::ocd)) { errno = EMFILE; return nullptr; } FILE *f = fopen(p, m); if (f) { __atomic_add_fetch(&io::open_files, 1, __ATOMIC_SEQ_CST); io::note_open(p, m); } return f; }
ssize_t lcux_read(int fd, void *b, size_t n) { if (io::stand_in_rw) return io::stand_in_rw(fd, (char *)b, n); if (io::short_rw) { int64_t k = io::short_rw(n); if (k < 0) { errno = (int)-k; return -1; } n = (size_t)k < n ? (size_t)k : n; } return read(fd, b, n); }
ssize_t lcux_write(int fd, const void *b, size_t n) { if (io::stand_in_rw) return io::stand_in_rw(fd, (char *)b, n); if (io::short_rw) { int64_t k = io::short_rw(n); if (k < 0) { errno = (int)-k; return -1; } n = (size_t)k < n ? (size_t)k : n; } return write(fd, b, n); }
FILE *lcux_freopen(const char *p, const char *m, FILE *f) { if (p && !io::tty.empty() && !strcmp(p, "/dev/tty")) p = io::tty.c_str(); if (p && !strchr(m, 'r') && io::escaped("freopen", p)) return nullptr; return freopen(p, m, f); }
int lcux_mkdir(const char *p, mode_t m) { IoPoint ip; if (io::escaped("mkdir", p)) return -1; return mkdir(p, m); }
int lcux_rmdir(const char *p) { if (io::escaped("rmdir", p)) return -1; return rmdir(p); }
int lcux_unlink(const char *p) { if (io::escaped("unlink", p)) return -1; return unlink(p); }
int lcux_remove(const char *p) { if (io::escaped("remove", p)) return -1; return remove(p); }
int lcux_rename(const char *a, const char *b) { if (io::escaped("rename", a) || io::escaped("rename", b)) return -1; return rename(a, b); }
int lcux_chmod(const char *p, mode_t m) { if (io::escaped("chmod", p)) return -1; return chmod(p, m); }
int lcux_system(const char *p) { io::escapes.push_back(std::string("system ") + (p ? p : "")); return -1; }
FILE *lcux_fopen64(const char *p, const char *m) { return lcux_fopen(p, m); }
FILE *lcux_fdopen(int fd, const char *m) { FILE *f = fdopen(fd, m); if (f) __atomic_add_fetch(&io::open_files, 1, __ATOMIC_SEQ_CST); return f; }
int lcux_fclose(FILE *f) { IoPoint ip; __atomic_sub_fetch(&io::open_files, 1, __ATOMIC_SEQ_CST); return fclose(f); }
size_t lcux_fwrite(const void *p, size_t s, size_t n, FILE *f) { IoPoint ip; if (io::inj(io::wcd)) { errno = ENOSPC; return 0; } return fwrite(p, s, n, f); }
int lcux_fputs(const char *s, FILE *f) { IoPoint ip; if (io::inj(io::wcd)) { errno = ENOSPC; return EOF; } return fputs(s, f); }
int lcux_fputc(int c, FILE *f) { IoPoint ip; if (io::inj(io::wcd)) { errno = ENOSPC; return EOF; } return fputc(c, f); }
int lcux_putc(int c, FILE *f) { return lcux_fputc(c, f); }
int lcux_vfprintf(FILE *f, const char *fmt, va_list ap) { IoPoint ip; if (io::inj(io::wcd)) { errno = ENOSPC; return -1; } return vfprintf(f, fmt, ap); }
int lcux_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = lcux_vfprintf(f, fmt, ap); va_end(ap); return n; }
int lcux_vprintf(const char *fmt, va_list ap) { IoPoint ip; return vprintf(fmt, ap); }
int lcux_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = lcux_vprintf(fmt, ap); va_end(ap); return n; }
int lcux_puts(const char *s) { IoPoint ip; return puts(s); }
int lcux_putchar(int c) { IoPoint ip; return putchar(c); }
int lcux_fflush(FILE *f) { return fflush(f); }
int lcux_setvbuf(FILE *f, char *b, int m, size_t n) { return setvbuf(f, b, m, n); }
int lcux_prctl(int op, unsigned long a, unsigned long b, unsigned long c, unsigned long d) { return prctl(op, a, b, c, d); }
}

// ----------------------------------------------------------------- threads ---
using namespace sched;
namespace sched {
static VT *by_pt(pthread_t p) { for (VT *t : T) if (t->has_pt && pthread_equal(t->pt, p)) return t; return nullptr; }
static Mu &mu(const void *m) { return mus[m]; }
static int lock_mu(const void *m) {
  for (;;) {
    Mu &x = mu(m);
    if (x.owner < 0) { x.owner = me->id; x.depth = 1; return 0; }
    if (x.owner == me->id && x.recursive) { ++x.depth; return 0; }
    block(m, x.owner == me->id ? "pthread_mutex_lock (already held by this thread)" : "pthread_mutex_lock", -1);
  }
}
static int unlock_mu(const void *m) {
  Mu &x = mu(m);
  if (x.owner != me->id) pbt::fail("pthread_mutex_unlock of a mutex the calling thread does not hold");
  if (--x.depth > 0) return 0;
  x.owner = -1; wake_all_on(m); return 0;
}
static int64_t abs_us(const struct timespec *ts) { return ts->tv_sec * 1000000ll + (ts->tv_nsec + 999) / 1000; }
static int cv_wait(const void *c, const void *m, int64_t deadline) {
  if (mu(m).owner != me->id) pbt::fail("pthread_cond_wait with a mutex the calling thread does not hold");
  int depth = mu(m).depth; mu(m).depth = 1;
  cvs[c].waiters.push_back(me->id);
  unlock_mu(m);
  bool ok = true;
  if (g_o.spurious && g_case->draw(15) == 15) { step_count(); hand_to(choose()); }
  else ok = block(c, "pthread_cond_wait", deadline);
  auto &w = cvs[c].waiters; for (size_t i = 0; i < w.size(); ++i) if (w[i] == me->id) { w.erase(w.begin() + i); break; }
  lock_mu(m); mu(m).depth = depth;
  return ok ? 0 : ETIMEDOUT;
}
static void cv_signal(const void *c, bool all) {
  auto &w = cvs[c].waiters;
  std::vector<int> b; for (int i : w) if (waits_on(T[i], c) && !(T[i]->susp_on ? T[i]->susp_woken : (woken[i] || T[i]->timed_out))) b.push_back(i);
  if (b.empty()) return;
  if (all) { for (int i : b) wake(T[i]); return; }
  wake(T[b.size() == 1 ? b[0] : b[g_case->draw(b.size() - 1)]]);
}
}
extern "C" {
int lcux_pthread_create(pthread_t *o, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  if (sched::g_create_fail && --sched::g_create_fail == 0) return EAGAIN;
  if (!active()) return pthread_create(o, a, f, arg);
  VT *t = mk(); t->start = f; t->arg = arg; int ds = 0; if (a && pthread_attr_getdetachstate(a, &ds) == 0) t->detached = ds == PTHREAD_CREATE_DETACHED; int r = launch(t);
  if (r) { t->st = DONE; return r; }
  *o = t->pt; point(false); return 0;
}
int lcux_pthread_join(pthread_t p, void **ret) {
  if (!active()) return pthread_join(p, ret);
  VT *t = by_pt(p); if (!t) return ESRCH;
  if (t->detached || t->joined) pbt::fail("pthread_join of a detached or already joined thread");
  if (t == me) return EDEADLK;
  point(false); join_vt(t); t->joined = true; if (ret) *ret = t->ret;
  pthread_join(p, nullptr); t->has_pt = false; return 0;
}
int lcux_pthread_detach(pthread_t p) { if (!active()) return pthread_detach(p); VT *t = by_pt(p); if (!t) return ESRCH; t->detached = true; point(false); return 0; }
void lcux_pthread_exit(void *r) {
  if (active()) { fprintf(stderr, "pthread_exit under the scheduler is not supported\n"); _exit(3); }
  pthread_exit(r);
}
pthread_t lcux_pthread_self(void) { return pthread_self(); }
int lcux_pthread_equal(pthread_t a, pthread_t b) { return pthread_equal(a, b); }
int lcux_pthread_kill(pthread_t p, int s) {
  if (!active()) return pthread_kill(p, s);
  VT *t = by_pt(p); if (!t || t->st == DONE) return ESRCH;
  if (s) { bool pending = false; for (int q : t->sigs) pending |= q == s; if (!pending) t->sigs.push_back(s); }   // standard signals do not queue
  point(false); return 0;
}
int lcux_pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
  if (!active()) return pthread_sigmask(how, set, old);
  if (old) { sigemptyset(old); for (int i = 1; i < 64; ++i) if (me->mask >> i & 1) sigaddset(old, i); }
  if (set) {
    uint64_t b = 0; for (int i = 1; i < 64; ++i) if (sigismember(set, i) == 1) b |= 1ull << i;
    me->mask = how == SIG_BLOCK ? me->mask | b : how == SIG_UNBLOCK ? me->mask & ~b : b;
    run_signals();   // what became unblocked is delivered before the call returns
  }
  point(false); return 0;
}
int lcux_pthread_setname_np(pthread_t p, const char *n) { return pthread_setname_np(p, n); }
int lcux_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
  if (!active()) return sigaction(s, a, o);
  if (o) { memset(o, 0, sizeof *o); o->sa_handler = handlers[s]; } if (a) handlers[s] = a->sa_handler; return 0;
}
int lcux_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  if (active()) { Mu x; int k = 0; if (a && pthread_mutexattr_gettype(a, &k) == 0) x.recursive = k == PTHREAD_MUTEX_RECURSIVE; mus[m] = x; memset((void *)m, 0, sizeof *m); return 0; }
  return pthread_mutex_init(m, a);
}
int lcux_pthread_mutex_destroy(pthread_mutex_t *m) {
  if (!active()) return pthread_mutex_destroy(m);
  if (mu(m).owner >= 0) pbt::fail("pthread_mutex_destroy of a locked mutex"); mus.erase(m); return 0;
}
int lcux_pthread_mutex_lock(pthread_mutex_t *m) { if (!active()) return pthread_mutex_lock(m); initialised(mus, m, "mutex"); point(false); return lock_mu(m); }
int lcux_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!active()) return pthread_mutex_trylock(m);
  initialised(mus, m, "mutex"); point(false); Mu &x = mu(m); if (x.owner >= 0 && !(x.owner == me->id && x.recursive)) return EBUSY; x.owner = me->id; ++x.depth; return 0;
}
int lcux_pthread_mutex_unlock(pthread_mutex_t *m) { if (!active()) return pthread_mutex_unlock(m); point(false); *(volatile char *)m; int r = unlock_mu(m); point(false); return r; }
int lcux_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { if (active()) { cvs[c] = Cv(); return 0; } return pthread_cond_init(c, a); }
int lcux_pthread_cond_destroy(pthread_cond_t *c) {
  if (!active()) return pthread_cond_destroy(c);
  for (VT *t : T) if (t->st == BLOCKED && t->on == c) pbt::fail("pthread_cond_destroy while a thread waits on it");
  cvs.erase(c); return 0;
}
int lcux_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!active()) return pthread_cond_wait(c, m); initialised(cvs, c, "condition variable"); point(false); return cv_wait(c, m, -1); }
int lcux_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!active()) return pthread_cond_timedwait(c, m, ts);
  initialised(cvs, c, "condition variable"); point(false);
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  return cv_wait(c, m, abs_us(ts));
}
int lcux_pthread_cond_signal(pthread_cond_t *c) { if (!active()) return pthread_cond_signal(c); point(false); initialised(cvs, c, "condition variable"); cv_signal(c, false); point(false); return 0; }
int lcux_pthread_cond_broadcast(pthread_cond_t *c) { if (!active()) return pthread_cond_broadcast(c); point(false); initialised(cvs, c, "condition variable"); cv_signal(c, true); point(false); return 0; }
int lcux_sem_init(sem_t *s, int sh, unsigned v) { if (active()) { ses[s].v = (int)v; memset((void *)s, 0, sizeof *s); return 0; } return sem_init(s, sh, v); }
int lcux_sem_destroy(sem_t *s) {
  if (!active()) return sem_destroy(s);
  for (VT *t : T) if (t->st == BLOCKED && t->on == s) pbt::fail("sem_destroy while a thread waits on it");
  ses.erase(s); return 0;
}
int lcux_sem_wait(sem_t *s) { if (!active()) return sem_wait(s); initialised(ses, s, "semaphore"); point(false); while (ses[s].v <= 0) block(s, "sem_wait", -1); --ses[s].v; return 0; }
int lcux_sem_trywait(sem_t *s) { if (!active()) return sem_trywait(s); *(volatile char *)s; point(false); if (ses[s].v <= 0) { errno = EAGAIN; return -1; } --ses[s].v; return 0; }
int lcux_sem_timedwait(sem_t *s, const struct timespec *ts) {
  if (!active()) return sem_timedwait(s, ts);
  *(volatile char *)s; point(false);
  if (ses[s].v <= 0 && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) { errno = EINVAL; return -1; }
  int64_t dl = abs_us(ts);
  while (ses[s].v <= 0) if (dl <= sched::now_us() || !block(s, "sem_timedwait", dl)) { if (ses[s].v > 0) break; errno = ETIMEDOUT; return -1; }
  --ses[s].v; return 0;
}
int lcux_sem_post(sem_t *s) { if (!active()) return sem_post(s); point(false); initialised(ses, s, "semaphore"); ++ses[s].v; wake_all_on(s); point(false); return 0; }
int lcux_sem_getvalue(sem_t *s, int *v) { if (!active()) return sem_getvalue(s, v); *(volatile char *)s; *v = ses[s].v; return 0; }

int lcux_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { if (active()) { rws[l] = Rw(); memset((void *)l, 0, sizeof *l); return 0; } return pthread_rwlock_init(l, a); }
int lcux_pthread_rwlock_destroy(pthread_rwlock_t *l) {
  if (!active()) return pthread_rwlock_destroy(l);
  *(volatile char *)l; Rw &x = rws[l]; if (x.writer >= 0 || !x.readers.empty()) pbt::fail("pthread_rwlock_destroy of a locked lock"); rws.erase(l); return 0;
}
static int rw_rd(pthread_rwlock_t *l, bool tr) { initialised(rws, l, "rwlock"); point(false); for (;;) { Rw &x = rws[l]; if (x.writer < 0) { x.readers.push_back(me->id); return 0; } if (tr) return EBUSY; if (x.writer == me->id) return EDEADLK; block(l, "pthread_rwlock_rdlock", -1); } }
static int rw_wr(pthread_rwlock_t *l, bool tr) { initialised(rws, l, "rwlock"); point(false); for (;;) { Rw &x = rws[l]; if (x.writer < 0 && x.readers.empty()) { x.writer = me->id; return 0; } if (tr) return EBUSY; if (x.writer == me->id) return EDEADLK; block(l, "pthread_rwlock_wrlock", -1); } }
int lcux_pthread_rwlock_rdlock(pthread_rwlock_t *l) { return active() ? rw_rd(l, false) : pthread_rwlock_rdlock(l); }
int lcux_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return active() ? rw_rd(l, true) : pthread_rwlock_tryrdlock(l); }
int lcux_pthread_rwlock_wrlock(pthread_rwlock_t *l) { return active() ? rw_wr(l, false) : pthread_rwlock_wrlock(l); }
int lcux_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return active() ? rw_wr(l, true) : pthread_rwlock_trywrlock(l); }
int lcux_pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!active()) return pthread_rwlock_unlock(l);
  point(false); *(volatile char *)l; Rw &x = rws[l];
  if (x.writer == me->id) x.writer = -1;
  else { size_t i = 0; while (i < x.readers.size() && x.readers[i] != me->id) ++i; if (i == x.readers.size()) pbt::fail("pthread_rwlock_unlock of a lock the calling thread does not hold"); x.readers.erase(x.readers.begin() + i); }
  wake_all_on(l); point(false); return 0;
}

// no other thread looks at the locals of the running function: they lie between this frame and the caller's frame pointer
#define LOCAL(a) ((char *)(a) >= (char *)__builtin_frame_address(0) && (char *)(a) < *(char **)__builtin_frame_address(0) + 16)
#define COVP(n) void __sanitizer_cov_load##n(void *a) { if (!LOCAL(a)) sched::point(true); } void __sanitizer_cov_store##n(void *a) { if (!LOCAL(a)) { if (sched::on_store) sched::on_store(a, n); sched::point(true); } }
COVP(1) COVP(2) COVP(4) COVP(8) COVP(16)

// Block copies of the library: stores as well, and other threads may run when they are half done.  Giant ones are only done
// at their ends, if the check asks for that.
static void put(void *d, const void *s, int ch, size_t n) { if (!s) memset(d, ch, n); else memmove(d, s, n); }
static void *copy(void *d, const void *s, int ch, size_t n, bool may_overlap) {
  if (mem::sparse && n > mem::sparse) { put(d, s, ch, mem::sparse / 2); put((char *)d + n - mem::sparse / 2, s ? (const char *)s + n - mem::sparse / 2 : s, ch, mem::sparse / 2); return d; }
  if (active() && n) {
    if (sched::on_store) sched::on_store(d, (unsigned)n);
    if (n > 1 && !may_overlap && !(s && (const char *)d < (const char *)s + n && (const char *)s < (char *)d + n)) { put(d, s, ch, n / 2); sched::point(true); put((char *)d + n / 2, s ? (const char *)s + n / 2 : s, ch, n - n / 2); return d; }
  }
  if (!s) return memset(d, ch, n); return may_overlap ? memmove(d, s, n) : memcpy(d, s, n);
}
void *lcux_memcpy(void *d, const void *s, size_t n) { return copy(d, s, 0, n, false); }
void *lcux_memmove(void *d, const void *s, size_t n) { return copy(d, s, 0, n, true); }
void *lcux_memset(void *d, int ch, size_t n) { return copy(d, nullptr, ch, n, false); }
void *lcux___asan_memcpy(void *d, const void *s, size_t n) { return lcux_memcpy(d, s, n); }
void *lcux___asan_memmove(void *d, const void *s, size_t n) { return lcux_memmove(d, s, n); }
void *lcux___asan_memset(void *d, int ch, size_t n) { return lcux_memset(d, ch, n); }
}
