#include "pbt.h"
#include <algorithm>
#include <unordered_set>
#include <map>
#include <set>
#include <cerrno>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

Case *current = nullptr;

uint64_t now_ms() {
  struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return (uint64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}
uint64_t mix64(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31);
}
uint64_t hash_bytes(const void *p, size_t n) {
  const unsigned char *s = (const unsigned char *)p; uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) { h ^= s[i]; h *= 1099511628211ull; }
  return h;
}

uint64_t Case::next64() {  // xorshift128+
  uint64_t a = rng[0], b = rng[1]; rng[0] = b; a ^= a << 23;
  rng[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return rng[1] + b;
}

uint64_t Case::draw(uint64_t max) {
  uint64_t v;
  uint32_t n = slot->n_choices;
  if (n >= MAX_CHOICES) return 0;
  if (replay) v = n < n_in ? std::min(in[n].v, max) : 0;
  else if (max == UINT64_MAX) v = next64();
  else {
    uint64_t m = max + 1, lim = UINT64_MAX - UINT64_MAX % m, r;
    do r = next64(); while (r >= lim);
    v = r % m;
  }
  slot->choices[n] = {v, max};
  slot->n_choices = n + 1;
  hash = (hash ^ mix64(v + 0x51ed27 * (max & 0xffff))) * 1099511628211ull;
  return v;
}
unsigned Case::weighted(std::initializer_list<unsigned> w) {
  unsigned tot = 0; for (unsigned x : w) tot += x;
  uint64_t r = draw(tot - 1); unsigned i = 0;
  for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
  return 0;
}
uint64_t Case::size(uint64_t lo, uint64_t hi) {
  if (lo >= hi) return lo;
  uint64_t span = hi - lo;
  if (span <= 3) return lo + draw(span);
  switch (draw(7)) {
    case 0: case 1: case 2: return lo + draw(std::min<uint64_t>(span, 7));
    case 3: case 4: { // log-uniform
      unsigned bits = 64 - __builtin_clzll(span); uint64_t b = draw(bits);
      uint64_t m = b >= 64 ? UINT64_MAX : ((1ull << b) - 1); return lo + draw(std::min(span, m)); }
    case 5: case 6: return lo + draw(span);
    default: return hi - draw(std::min<uint64_t>(span, 2));
  }
}
std::string Case::payload(size_t len) {
  uint64_t s = draw(0xffffffu); std::string r(len, 0);
  if (s == 0) { for (size_t i = 0; i < len; ++i) r[i] = (char)('a' + i % 26); return r; }
  uint64_t x = s;
  for (size_t i = 0; i < len; ++i) { if (i % 8 == 0) x = mix64(x + i); r[i] = (char)(x >> (8 * (i % 8))); }
  return r;
}
std::string Case::chars(size_t len, const std::string &al) {
  std::string r(len, 0);
  for (size_t i = 0; i < len; ++i) r[i] = al[draw(al.size() - 1)];
  return r;
}
void Case::label(const char *fmt, ...) {
  char b[LABEL_LEN]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (int i = 0; i < MAX_LABELS; ++i) {
    Label &l = slot->labels[i];
    if (!l.name[0]) { strcpy(l.name, b); l.count = 1; return; }
    if (!strcmp(l.name, b)) { l.count++; return; }
  }
}
void Case::note(const char *fmt, ...) {
  if (!verbose) return;
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (trace.size() < 20000) { trace += b; trace += '\n'; }
  // keep the trace visible even when the process dies
  fprintf(stderr, "  | %s\n", b);
}

std::string quote(const void *p, size_t n, size_t limit) {
  std::string r = "\""; const unsigned char *s = (const unsigned char *)p;
  for (size_t i = 0; i < n && i < limit; ++i) {
    char t[8];
    if (s[i] == '"' || s[i] == '\\') { r += '\\'; r += (char)s[i]; }
    else if (s[i] >= 32 && s[i] < 127) r += (char)s[i];
    else { snprintf(t, sizeof t, "\\x%02x", s[i]); r += t; }
  }
  r += '"';
  if (n > limit) r += "...(" + std::to_string(n) + " bytes)";
  return r;
}

void fail(const char *fmt, ...) {
  Slot *s = current ? current->slot : nullptr;
  char b[MSG_LEN]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (s && !__atomic_exchange_n(&s->failed, 1u, __ATOMIC_SEQ_CST)) {
    strncpy(s->msg, b, MSG_LEN - 1);
  }
  if (current && current->verbose) fprintf(stderr, "FAILED: %s\n", b);
  syscall(SYS_exit_group, 77);
  __builtin_unreachable();
}

// ---------------------------------------------------------------- scratch ---
static std::string g_scratch_root, g_scratch;
static pid_t g_scratch_pid = 0;
static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { remove(p); return 0; }
static void rm_tree(const std::string &p) {
  if (p.find("/lcu_pbt_") == std::string::npos) return;  // only ever our own directories
  nftw(p.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}
const std::string &scratch() {
  pid_t me = getpid();
  if (g_scratch_pid != me) {
    g_scratch = g_scratch_root + "/p" + std::to_string(me); mkdir(g_scratch.c_str(), 0700); g_scratch_pid = me;
  }
  return g_scratch;
}
bool inside_scratch(const char *path) {
  std::string p = path, abs; if (p.empty()) return false; char cwd[8192]; if (p[0] != '/') { if (!getcwd(cwd, sizeof cwd)) return false; p = std::string(cwd) + "/" + p; }
  std::vector<std::string> parts; size_t i = 0; while (i < p.size()) { size_t e = p.find('/', i); if (e == std::string::npos) e = p.size(); std::string x = p.substr(i, e - i); i = e + 1; if (x.empty() || x == ".") continue; if (x == "..") { if (!parts.empty()) parts.pop_back(); continue; } parts.push_back(x); }
  for (auto &x : parts) abs += "/" + x;
  return !g_scratch_root.empty() && abs.compare(0, g_scratch_root.size(), g_scratch_root) == 0 && (abs.size() == g_scratch_root.size() || abs[g_scratch_root.size()] == '/');
}
void scratch_clear() { std::string s = scratch(); rm_tree(s); mkdir(s.c_str(), 0700); }
std::string read_file(const std::string &path) {
  int fd = open(path.c_str(), O_RDONLY); std::string r; if (fd < 0) return r;
  char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n);
  close(fd); return r;
}
bool write_file(const std::string &path, const std::string &data) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) return false;
  size_t o = 0; while (o < data.size()) { ssize_t n = write(fd, data.data() + o, data.size() - o); if (n <= 0) break; o += n; }
  close(fd); return o == data.size();
}

// ----------------------------------------------------------------- engine ---
static uint64_t g_seed = 1; static bool g_thorough = false;
static std::string g_out_dir;

template <class T> static T *shm(size_t n) {
  void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (T *)p;
}

static void reset_slot(Slot *s) { s->n_choices = 0; s->n_spans = 0; s->failed = 0; s->msg[0] = 0; }

static void seed_case(Case &c, const Suite &su, uint64_t idx) {
  uint64_t h = hash_bytes(su.name, strlen(su.name)) ^ hash_bytes(property.id, strlen(property.id));
  c.rng[0] = mix64(g_seed * 0x9E37 + mix64(idx) + h); c.rng[1] = mix64(c.rng[0] ^ (idx + 0x1234567)); c.idx = idx;
  if (!c.rng[0] && !c.rng[1]) c.rng[0] = 1;
}

static void run_one(Case &c, const Suite &su) { current = &c; c.thorough = g_thorough; su.fn(c); current = nullptr; }

static void quiet_stdio(const char *log) {
  int fd = open(log ? log : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
  if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
  int n = open("/dev/null", O_RDONLY); if (n >= 0) { dup2(n, 0); close(n); }
}

struct Result { int kind = 0; /*0 ok 1 fail 2 crash 3 hang*/ std::string msg, log; std::vector<Choice> choices; std::vector<SpanRec> spans; };

// Runs one case in a fresh process.
// With "before", those cases run first in the same process (state that the library keeps from call to call).
static Result run_isolated(const Suite &su, Slot *slot, uint64_t idx, const std::vector<Choice> *in, bool verbose, unsigned timeout_ms, const std::vector<uint64_t> &before = {}) {
  reset_slot(slot);
  std::string log = g_scratch_root + "/iso.log";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
    quiet_stdio(log.c_str());
    for (uint64_t b : before) { Case h; h.slot = slot; seed_case(h, su, b); run_one(h, su); reset_slot(slot); }
    Case c; c.slot = slot; c.verbose = verbose;
    seed_case(c, su, idx);
    if (in) { c.replay = true; c.in = in->data(); c.n_in = in->size(); }
    run_one(c, su);
    _exit(0);
  }
  Result r; uint64_t t0 = now_ms(); int st = 0; bool to = false;
  for (unsigned spin = 0;; ++spin) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (now_ms() - t0 > timeout_ms) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); to = true; break; }
    usleep(spin < 200 ? 100 : 2000);
  }
  kill(-pid, SIGKILL);
  r.choices.assign(slot->choices, slot->choices + slot->n_choices);
  r.spans.assign(slot->spans, slot->spans + slot->n_spans);
  if (to) { r.kind = 3; r.msg = "the case did not finish within " + std::to_string(timeout_ms) + " ms"; }
  else if (slot->failed) { r.kind = 1; r.msg = slot->msg; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.kind = 0;
  else {
    r.kind = 2;
    r.msg = WIFSIGNALED(st) ? "process killed by signal " + std::to_string(WTERMSIG(st)) : "process exited with status " + std::to_string(WEXITSTATUS(st));
  }
  if (r.kind) {
    std::string l = read_file(log);
    if (r.kind == 2) { size_t p = l.find("ERROR: AddressSanitizer"); if (p != std::string::npos) r.msg += ": " + l.substr(p, std::min<size_t>(l.find('\n', p) - p, 200)); else {
      p = l.find("Assertion"); if (p != std::string::npos) { size_t b = l.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; r.msg += ": " + l.substr(b, std::min<size_t>(l.find('\n', p) - b, 200)); } } }
    r.log = l.substr(0, 60000);
  }
  return r;
}

static bool shortlex_less(const std::vector<Choice> &a, const std::vector<Choice> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  for (size_t i = 0; i < a.size(); ++i) if (a[i].v != b[i].v) return a[i].v < b[i].v;
  return false;
}

static Result shrink(const Suite &su, Slot *slot, Result best, uint64_t budget_ms, unsigned max_runs, const std::vector<uint64_t> &before) {
  uint64_t t0 = now_ms(); unsigned runs = 0; unsigned to = su.timeout_ms;
  unsigned reps = su.racy ? 10 : 1;
  auto spent = [&] { return now_ms() - t0 > budget_ms || runs >= max_runs; };
  auto attempt = [&](const std::vector<Choice> &cand) -> bool {
    for (unsigned k = 0; k < reps; ++k) {
      if (spent()) return false;
      ++runs;
      Result r = run_isolated(su, slot, 0, &cand, false, to, before);
      if (r.kind && (r.kind == 3) == (best.kind == 3) && shortlex_less(r.choices, best.choices)) { best = r; return true; }
      if (!r.kind && !su.racy) return false;
    }
    return false;
  };
  bool progress = true;
  while (progress && !spent()) {
    progress = false;
    // drop the tail
    for (size_t keep = best.choices.size() / 2; keep < best.choices.size() && !spent();) {
      std::vector<Choice> c(best.choices.begin(), best.choices.begin() + keep);
      if (attempt(c)) { progress = true; keep = best.choices.size() / 2; } else { size_t rest = best.choices.size() - keep; if (rest <= 1) break; keep += (rest + 1) / 2; }
    }
    // delete spans, longest first; also groups of adjacent spans through chunks
    {
      size_t i = 0;
      while (i < best.spans.size() && !spent()) {
        auto sp = best.spans; std::stable_sort(sp.begin(), sp.end(), [](SpanRec a, SpanRec b) { return a.e - a.b > b.e - b.b; });
        if (i >= sp.size()) break;
        SpanRec s = sp[i];
        if (s.e <= s.b || s.e > best.choices.size()) { ++i; continue; }
        std::vector<Choice> c = best.choices; c.erase(c.begin() + s.b, c.begin() + s.e);
        // a counted loop: one less iteration
        bool ok = false;
        std::vector<Choice> c2 = c;
        for (size_t j = s.b; j-- > 0 && j + 4 >= s.b;) { if (c2[j].v > 0) { c2[j].v--; break; } }
        if (attempt(c)) ok = true; else if (attempt(c2)) ok = true;
        else {  // decrement the first counter of the case
          for (size_t j = 0; j < std::min<size_t>(s.b, 6) && !ok && !spent(); ++j) if (c[j].v > 0) { c2 = c; c2[j].v--; ok = attempt(c2); }
        }
        if (ok) progress = true; else ++i;
      }
    }
    for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = 0; i + k <= best.choices.size() && !spent();) {
        std::vector<Choice> c = best.choices; c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) progress = true; else i += k > 4 ? k / 2 : 1;
      }
    }
    for (size_t k : {32, 8, 1}) {
      for (size_t i = 0; i + k <= best.choices.size() && !spent(); i += k) {
        bool any = false; for (size_t j = i; j < i + k; ++j) any |= best.choices[j].v != 0;
        if (!any) continue;
        std::vector<Choice> c = best.choices; for (size_t j = i; j < i + k; ++j) c[j].v = 0;
        if (attempt(c)) progress = true;
      }
    }
    for (size_t i = 0; i < best.choices.size() && !spent(); ++i) {  // binary search each value down
      uint64_t lo = 0, hi = best.choices[i].v;
      while (lo < hi && !spent()) {
        uint64_t mid = lo + (hi - lo) / 2; std::vector<Choice> c = best.choices; if (i >= c.size()) break;
        c[i].v = mid;
        if (attempt(c)) { progress = true; if (i >= best.choices.size()) break; hi = std::min(mid, best.choices[i].v); } else lo = mid + 1;
      }
    }
  }
  fprintf(stderr, "shrink: %u runs, %zu choices left\n", runs, best.choices.size());
  return best;
}

static std::string json_str(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    char t[8];
    if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch >= 127) { snprintf(t, sizeof t, "\\u%04x", ch); r += t; }
    else r += (char)ch;
  }
  return r + "\"";
}

static void write_replay(const std::string &path, const Suite &su, const Result &r, const std::string &trace, const std::vector<uint64_t> &before) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) return;
  fprintf(f, "pbt-replay 1\nproperty %s\nsuite %s\nseed %llu\ntier %s\nmessage %s\n", property.id, su.name, (unsigned long long)g_seed, g_thorough ? "thorough" : "quick", json_str(r.msg).c_str());
  if (!before.empty()) { fprintf(f, "before %zu\n", before.size()); for (uint64_t b : before) fprintf(f, "%llu\n", (unsigned long long)b); }
  fprintf(f, "choices %zu\n", r.choices.size());
  for (auto &c : r.choices) fprintf(f, "%llu %llu\n", (unsigned long long)c.v, (unsigned long long)c.max);
  fprintf(f, "# minimal case, as the harness sees it:\n");
  size_t b = 0; while (b < trace.size()) { size_t e = trace.find('\n', b); if (e == std::string::npos) e = trace.size(); fprintf(f, "# %s\n", trace.substr(b, e - b).c_str()); b = e + 1; }
  fclose(f);
}

struct SuiteStats { uint64_t evals = 0, nontriv = 0, distinct = 0, discarded = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; double wall = 0; bool stopped_early = false; };

static int violations = 0;
static std::vector<std::string> g_unconfirmed;

// Finds a short list of earlier cases of the worker after which the case fails again (empty: there is none).
static std::vector<uint64_t> find_history(const Suite &su, Slot *slot, const Result &r, uint64_t idx, std::vector<uint64_t> h, Result *last) {
  const unsigned to = su.timeout_ms * 2 + 60000; uint64_t t0 = now_ms();
  auto fails = [&](const std::vector<uint64_t> &b) { Result q = run_isolated(su, slot, idx, &r.choices, false, to, b); if (q.kind) *last = q; return q.kind != 0; };
  if (h.empty() || !fails(h)) return {};
  for (size_t k = 1; k < h.size(); k *= 2) { std::vector<uint64_t> t(h.end() - (long)k, h.end()); if (fails(t)) { h = t; break; } }
  for (size_t chunk = h.size() / 2; chunk; chunk /= 2) for (size_t i = 0; i + chunk <= h.size() && h.size() > 1 && now_ms() - t0 < 60000;) { std::vector<uint64_t> t = h; t.erase(t.begin() + (long)i, t.begin() + (long)(i + chunk)); if (!t.empty() && fails(t)) h = t; else i += chunk; }
  return fails(h) && fails(h) ? h : std::vector<uint64_t>();
}

static bool confirm_and_report(const Suite &su, Slot *slot, Result r, uint64_t idx, const std::vector<uint64_t> &earlier) {
  // The failure must come back from its choice sequence in a fresh process.
  unsigned need = 3, tries = su.racy ? 60 : 3, hits = 0; Result last = r;
  uint64_t t0 = now_ms();
  for (unsigned k = 0; k < tries && hits < (su.racy ? 1u : need); ++k) {
    Result q = run_isolated(su, slot, idx, &r.choices, false, r.kind == 3 ? su.timeout_ms * 2 : su.timeout_ms);
    if (q.kind) { ++hits; last = q; }
    else if (!su.racy) break;
    if (su.racy && now_ms() - t0 > 60000) break;
  }
  std::vector<uint64_t> before;
  if (!hits && !su.racy && !su.fork_each) { before = find_history(su, slot, r, idx, earlier, &last); if (!before.empty()) hits = need; }
  if (hits < (su.racy ? 1u : need)) {
    g_unconfirmed.push_back(std::string(su.name) + " case " + std::to_string(idx) + ": " + r.msg);
    fprintf(stderr, "unconfirmed failure in %s case %llu: %s\n", su.name, (unsigned long long)idx, r.msg.c_str());
    return false;
  }
  fprintf(stderr, "confirmed failure in %s case %llu: %s\n", su.name, (unsigned long long)idx, last.msg.c_str());
  Result small = last;
  if (last.kind != 3) small = shrink(su, slot, last, getenv("PBT_NOSHRINK") ? 1 : g_thorough ? 120000 : 30000, 4000, before);
  else small = shrink(su, slot, last, getenv("PBT_NOSHRINK") ? 1 : 60000, 12, before);
  Result shown = run_isolated(su, slot, idx, &small.choices, true, su.timeout_ms, before);
  for (int k = 0; k < 20 && !shown.kind && su.racy; ++k) shown = run_isolated(su, slot, idx, &small.choices, true, su.timeout_ms);
  if (!shown.kind) shown = small;
  std::string path = g_out_dir + "/" + property.id + "-" + su.name + ".replay";
  write_replay(path, su, small, shown.msg + "\n" + shown.log.substr(0, 20000), before);
  if (!before.empty()) { printf("only after %zu earlier case(s) in the same process:", before.size()); for (size_t i = 0; i < before.size() && i < 20; ++i) printf(" %llu", (unsigned long long)before[i]); printf("\n"); }
  printf("FAILURE suite=%s case=%llu: %s\n%s\n", su.name, (unsigned long long)idx, shown.msg.c_str(), shown.log.substr(0, 6000).c_str());
  printf("VIOLATION property=%s replay=%s\n", property.id, path.c_str());
  fflush(stdout);
  ++violations;
  return true;
}

// Runs the cases of one suite; true: nothing found.
static bool run_suite(const Suite &su, SuiteStats &st) {
  uint64_t N = g_thorough ? su.thorough : su.quick;
  if (const char *e = getenv("PBT_CASES")) N = strtoull(e, 0, 10);
  if (const char *e = getenv("PBT_SCALE")) { double d = atof(e); if (d > 0) N = (uint64_t)(N * d) + 1; }
  unsigned W = std::min<unsigned>(su.workers, 16); if (W > N) W = (unsigned)std::max<uint64_t>(N, 1);
  static uint64_t begun = now_ms(); static size_t left = suites.size();   // the check as a whole has a time budget, shared by the suites still to run
  uint64_t total = g_thorough ? 780000 : 480000, used = now_ms() - begun, cap_ms = used < total ? (total - used) / std::max<size_t>(left, 1) : 1000; if (left) --left;
  if (const char *e = getenv("PBT_CAP_S")) cap_ms = strtoull(e, 0, 10) * 1000;
  static Slot *slots = nullptr, *iso = nullptr;
  if (!slots) { slots = shm<Slot>(16); iso = shm<Slot>(1); }
  for (unsigned w = 0; w < 16; ++w) { memset((void *)&slots[w], 0, offsetof(Slot, choices)); memset(slots[w].labels, 0, sizeof slots[w].labels); slots[w].case_idx = -1; }
  uint64_t *marks = shm<uint64_t>(N ? N : 1);
  volatile int *stop = shm<int>(1);
  std::vector<pid_t> pids(W, 0); std::vector<uint64_t> next(W), first(W);
  for (unsigned w = 0; w < W; ++w) next[w] = w;
  uint64_t t0 = now_ms();
  auto spawn = [&](unsigned w) {
    fflush(stdout); fflush(stderr);
    uint64_t from = first[w] = next[w];
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
      std::string log = g_scratch_root + "/w" + std::to_string(w) + ".log";
      quiet_stdio(log.c_str());
      Slot *s = &slots[w];
      for (uint64_t idx = from; idx < N && !*stop; idx += W) {
        reset_slot(s); s->case_start_ms = now_ms(); s->case_idx = (int64_t)idx;
        auto body = [&] {
          Case c; c.slot = s; seed_case(c, su, idx); run_one(c, su);
          if (c.discarded) s->discarded = s->discarded + 1;
          else if (c.nontriv) marks[idx] = (c.slot->n_choices ? c.hash : mix64(idx)) | 1;
        };
        if (su.fork_each) {
          pid_t k = fork();
          if (k == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); body(); _exit(0); }
          int wst = 0; while (waitpid(k, &wst, 0) < 0 && errno == EINTR) {}
          if (!(WIFEXITED(wst) && WEXITSTATUS(wst) == 0)) _exit(79);
        } else body();
        s->done = s->done + 1;
        s->case_idx = -1;
        if ((s->done & 1023) == 0) { if (ftruncate(2, 0)) {} }
      }
      _exit(0);
    }
    pids[w] = pid;
  };
  for (unsigned w = 0; w < W; ++w) spawn(w);
  unsigned alive = W; bool clean = true; unsigned restarts = 0;
  auto kill_all = [&] { *stop = 1; for (unsigned w = 0; w < W; ++w) if (pids[w] > 0) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); pids[w] = 0; } };
  while (alive && clean) {
    usleep(2000);
    if (now_ms() - t0 > cap_ms && !*stop) { *stop = 1; st.stopped_early = true; }
    for (unsigned w = 0; w < W && clean; ++w) {
      if (!pids[w]) continue;
      int wst; pid_t p = waitpid(pids[w], &wst, WNOHANG);
      bool hang = false;
      if (p == 0) {
        if (slots[w].case_idx >= 0 && (int64_t)(now_ms() - slots[w].case_start_ms) > (int64_t)su.timeout_ms + 1000) {
          kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &wst, 0); hang = true;
        } else continue;
      }
      int64_t idx = slots[w].case_idx;
      if (!hang && WIFEXITED(wst) && WEXITSTATUS(wst) == 0) { pids[w] = 0; --alive; continue; }
      kill(-pids[w], SIGKILL);
      pids[w] = 0;
      if (idx < 0) { fprintf(stderr, "worker died outside a case\n"); next[w] += W; --alive; continue; }
      Result r; r.kind = hang ? 3 : slots[w].failed ? 1 : 2;
      r.msg = hang ? "hang" : slots[w].failed ? slots[w].msg : "crash (wait status " + std::to_string(wst) + ")";
      r.choices.assign(slots[w].choices, slots[w].choices + slots[w].n_choices);
      // pause the others while confirming so that timing is undisturbed
      for (unsigned o = 0; o < W; ++o) if (pids[o] > 0) kill(-pids[o], SIGSTOP);
      uint64_t tp = now_ms();
      std::vector<uint64_t> earlier; for (uint64_t k = first[w]; k < (uint64_t)idx; k += W) earlier.push_back(k);
      if (confirm_and_report(su, iso, r, (uint64_t)idx, earlier)) { clean = false; break; }
      uint64_t dt = now_ms() - tp;
      for (unsigned o = 0; o < W; ++o) if (pids[o] > 0) { slots[o].case_start_ms = slots[o].case_start_ms + dt; kill(-pids[o], SIGCONT); }
      // go on with the next case
      next[w] = (uint64_t)idx + W; slots[w].case_idx = -1;
      if (++restarts > 200 || next[w] >= N) { --alive; continue; }
      spawn(w);
    }
  }
  kill_all();
  // several unconfirmed failures of one racy suite are a failure all the same
  std::unordered_set<uint64_t> dist; uint64_t nt = 0;
  std::vector<uint64_t> sample_idx;
  for (uint64_t i = 0; i < N; ++i) if (marks[i]) { ++nt; if (dist.insert(marks[i]).second && sample_idx.size() < 400) sample_idx.push_back(i); }
  for (unsigned w = 0; w < W; ++w) {
    st.evals += slots[w].done; st.discarded += slots[w].discarded;
    for (auto &l : slots[w].labels) if (l.name[0]) st.labels[l.name] += l.count;
  }
  st.nontriv = nt; st.distinct = dist.size(); st.wall = (now_ms() - t0) / 1000.0;
  // samples: re-run a few non-trivial cases with tracing on
  for (size_t k = 0; k < 3 && k < sample_idx.size(); ++k) {
    uint64_t idx = sample_idx[k * sample_idx.size() / 3];
    Result r = run_isolated(su, iso, idx, nullptr, true, su.timeout_ms);
    if (r.kind) continue;
    std::string l = read_file(g_scratch_root + "/iso.log"), t;
    size_t b = 0; while (b < l.size()) { size_t e = l.find('\n', b); if (e == std::string::npos) e = l.size(); if (l.compare(b, 4, "  | ") == 0) { t += l.substr(b + 4, e - b - 4); t += "; "; } b = e + 1; if (t.size() > 900) { t += "..."; break; } }
    st.samples.push_back(std::string(su.name) + "#" + std::to_string(idx) + ": " + t);
  }
  munmap(marks, sizeof(uint64_t) * (N ? N : 1)); munmap((void *)stop, sizeof(int));
  return clean;
}

// What a suite is about happens in a good share of its cases on a library that works (see the evidence).  If it never
// happens in very many of them, the library has stopped doing it: every check of it passed for want of a subject.
static bool vacuous(const Suite &su, const SuiteStats &st) { return !su.exhaustive && st.evals >= 1000 && !st.nontriv; }
static bool report_vacuous(const Suite &su, const SuiteStats &st) {
  std::string path = g_out_dir + "/" + property.id + "-" + su.name + ".replay";
  if (FILE *f = fopen(path.c_str(), "w")) { fprintf(f, "property %s\nsuite %s\nseed %llu\ntier %s\nvacuous %llu\n", property.id, su.name, (unsigned long long)g_seed, g_thorough ? "thorough" : "quick", (unsigned long long)st.evals); fclose(f); }
  printf("FAILURE suite=%s: none of %llu generated cases reached what the suite is about (%s)\nVIOLATION property=%s replay=%s\n", su.name, (unsigned long long)st.evals, property.rule, property.id, path.c_str());
  ++violations; return false;
}

static int do_replay(const char *file, bool verbose) {
  FILE *f = fopen(file, "r"); if (!f) { perror(file); return 3; }
  char line[8192], sname[200] = ""; size_t n = 0; std::vector<Choice> ch; std::vector<uint64_t> before; unsigned long long seed; bool vac = false;
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "suite ", 6)) sscanf(line, "suite %199[^\n]", sname);
    else if (sscanf(line, "seed %llu", &seed) == 1) g_seed = seed;
    else if (!strncmp(line, "tier ", 5)) g_thorough = !strncmp(line + 5, "thorough", 8);
    else if (sscanf(line, "vacuous %llu", &seed) == 1) vac = true;
    else if (sscanf(line, "before %zu", &n) == 1) { for (size_t i = 0; i < n && fgets(line, sizeof line, f); ++i) before.push_back(strtoull(line, nullptr, 10)); }
    else if (sscanf(line, "choices %zu", &n) == 1) {
      for (size_t i = 0; i < n && fgets(line, sizeof line, f); ++i) { unsigned long long a, b; if (sscanf(line, "%llu %llu", &a, &b) == 2) ch.push_back({a, b}); }
      break;
    }
  }
  fclose(f);
  if (vac) for (auto &su : suites) if (!strcmp(su.name, sname)) {
    SuiteStats st; if (!run_suite(su, st)) return 1;
    if (vacuous(su, st)) { report_vacuous(su, st); return 1; }
    printf("replay passed\n"); return 0;
  }
  Slot *iso = shm<Slot>(1);
  for (auto &su : suites) if (!strcmp(su.name, sname)) {
    int reps = su.racy ? 60 : 1;
    for (int k = 0; k < reps; ++k) {
      Result r = run_isolated(su, iso, 0, &ch, verbose, su.timeout_ms + (before.empty() ? 0 : 60000), before);
      if (r.kind) { printf("FAILURE suite=%s: %s\n%s\nVIOLATION property=%s replay=%s\n", sname, r.msg.c_str(), r.log.substr(0, 20000).c_str(), property.id, file); return 1; }
    }
    printf("replay passed\n"); return 0;
  }
  fprintf(stderr, "no suite %s\n", sname); return 3;
}

}  // namespace pbt

using namespace pbt;

int main(int argc, char **argv) {
  const char *replay = nullptr, *evidence = nullptr, *only = nullptr;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--seed")) g_seed = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--tier")) g_thorough = !strcmp(argv[++i], "thorough");
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--out")) g_out_dir = argv[++i];
    else if (!strcmp(argv[i], "--evidence")) evidence = argv[++i];
    else if (!strcmp(argv[i], "--suite")) only = argv[++i];
  }
  if (g_out_dir.empty()) g_out_dir = ".";
  setvbuf(stdout, nullptr, _IOLBF, 0);
  signal(SIGPIPE, SIG_IGN);
  char tmpl[] = "/tmp/lcu_pbt_XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
  g_scratch_root = tmpl; chmod(tmpl, 0755);
  uint64_t t0 = now_ms();
  int rc = 0;
  if (replay) rc = do_replay(replay, true);
  else {
    std::vector<SuiteStats> all; std::vector<const char *> names;
    for (auto &su : suites) {
      if (only && strcmp(only, su.name)) continue;
      SuiteStats st; bool ok = run_suite(su, st);
      all.push_back(st); names.push_back(su.name);
      fprintf(stderr, "suite %-28s cases=%llu nontrivial=%llu distinct=%llu discarded=%llu %.1fs%s%s\n", su.name, (unsigned long long)st.evals, (unsigned long long)st.nontriv,
              (unsigned long long)st.distinct, (unsigned long long)st.discarded, st.wall, ok ? "" : " FAILED", st.stopped_early ? " (time cap)" : "");
      if (ok && vacuous(su, st)) ok = report_vacuous(su, st);
      if (getenv("PBT_LABELS")) for (auto &l : st.labels) fprintf(stderr, "    %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
      if (!ok) { rc = 1; break; }
    }
    if (evidence) {
      FILE *f = fopen(evidence, "w");
      if (f) {
        uint64_t ev = 0, di = 0, nt = 0, dc = 0; for (auto &s : all) { ev += s.evals; di += s.distinct; nt += s.nontriv; dc += s.discarded; }
        bool exh = !all.empty(); for (size_t i = 0; i < all.size(); ++i) { bool e = false; for (auto &su : suites) if (!strcmp(su.name, names[i])) e = su.exhaustive; exh = exh && e && !all[i].stopped_early; }
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n \"coverage\": {\n", property.id, g_thorough ? "thorough" : "quick", (unsigned long long)g_seed, property.level);
        fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"nontrivial\": %llu,\n  \"discarded\": %llu,\n  \"rule\": %s,\n", (unsigned long long)ev, (unsigned long long)di, (unsigned long long)nt, (unsigned long long)dc, json_str(property.rule).c_str());
        if (exh) fprintf(f, "  \"exhaustive\": true,\n");
        fprintf(f, "  \"suites\": {"); for (size_t i = 0; i < all.size(); ++i) {
          fprintf(f, "%s\n   \"%s\": {\"cases\": %llu, \"distinct_nontrivial\": %llu, \"wall_s\": %.2f, \"stopped_by_time_cap\": %s, \"classes\": {", i ? "," : "", names[i], (unsigned long long)all[i].evals, (unsigned long long)all[i].distinct, all[i].wall, all[i].stopped_early ? "true" : "false");
          bool first = true; for (auto &l : all[i].labels) { fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(l.first).c_str(), (unsigned long long)l.second); first = false; }
          fprintf(f, "}}"); }
        fprintf(f, "},\n  \"unconfirmed\": ["); for (size_t i = 0; i < g_unconfirmed.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", json_str(g_unconfirmed[i]).c_str());
        fprintf(f, "],\n  \"samples\": ["); bool first = true; for (auto &s : all) for (auto &x : s.samples) { fprintf(f, "%s\n   %s", first ? "" : ",", json_str(x).c_str()); first = false; }
        fprintf(f, "]\n },\n \"assumptions\": ["); for (size_t i = 0; i < property.assumptions.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", json_str(property.assumptions[i]).c_str());
        fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", (now_ms() - t0) / 1000.0, violations);
        fclose(f);
      }
    }
    if (!rc) printf("OK property=%s\n", property.id);
  }
  rm_tree(g_scratch_root);
  return rc;
}
