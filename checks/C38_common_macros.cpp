// variant: plain
// extra: tu/macros.c -DNAME=debug -D_DEBUG
// extra: tu/macros.c -DNAME=release -DNDEBUG
#include "pbt.h"
#include "intercept.h"
#include "capture.h"
#include <csignal>
#include <fcntl.h>
#include <climits>
#include <set>
#include <sys/resource.h>
#include <sys/wait.h>
#include "tu/macros.h"
using namespace pbt;
extern "C" { extern const macros_t macros_debug, macros_release; size_t macros_freed; void *macros_last_freed; void macros_free(void *p) { macros_freed++; macros_last_freed = p; free(p); } static int64_t forced = -1; int macros_rand(void) { return forced >= 0 ? (int)forced : rand(); } }

Property property = {
  "C38",
  "the macros of common_macro.h as a debug and a release C program expand them, with operands that are expressions and the macros inside larger expressions: conversions between integers and pointers, min/max/abs, array length, RANDOM over "
  "generated ranges and seeds, FREE and fclose, string and enum generation over generated arguments, ASSERT and ASSERT_ABORT in a child process; non-trivial: at least one operand was negative or larger than 32 bits, or a process was expected to abort",
  "exploration", {"RANDOM(a, b) with a < b and b - a within int", "abs of values whose negation exists"}};

static int64_t number(Case &c) { switch (c.draw(4)) { case 0: return c.irange(-10, 10); case 1: return c.oneof<int64_t>({0, 1, -1, INT_MAX, INT_MIN, UINT_MAX, (int64_t)UINT_MAX + 1, INT64_MAX / 2, INT64_MIN / 2}) + c.irange(-2, 2); case 2: return (int64_t)c.draw(UINT64_MAX) / 4; default: return c.irange(-100000, 100000); } }
static void values(Case &c) {
  const macros_t &m = c.boolean() ? macros_debug : macros_release; int64_t a = number(c), b = number(c); c.note("%s: a = %lld, b = %lld", m.name, (long long)a, (long long)b);
  PBT_CHECK(m.uint_trip((uintptr_t)a, (uintptr_t)b) == (uintptr_t)a + (uintptr_t)b, "PTR_TO_UINT(UINT_TO_PTR(a + b))"); PBT_EQ(m.int_trip(a, b), a - b, "PTR_TO_INT(INT_TO_PTR(a - b))"); PBT_EQ(m.long_trip(a, b), a ^ b, "PTR_TO_LONG64(LONG64_TO_PTR(a ^ b))"); PBT_CHECK(m.uint_or((uintptr_t)a, (uintptr_t)b) == ((uintptr_t)a | (uintptr_t)b), "PTR_TO_UINT(UINT_TO_PTR(a | b))"); PBT_EQ(m.int_or(a, b), a < b ? a ^ b : a & b, "PTR_TO_INT(a < b ? INT_TO_PTR(a ^ b) : INT_TO_PTR(a & b))");
  PBT_EQ(m.max_(a, b), std::max(a, b), "__max"); PBT_EQ(m.min_(a, b), std::min(a, b), "__min"); PBT_EQ(m.abs_(a, b), a - b >= 0 ? a - b : b - a, "__abs(a - b)");
  double x = (double)a / 8, y = (double)b / 16; PBT_CHECK(m.maxd(x, y) == std::max(x, y) && m.mind(x, y) == std::min(x, y) && m.absd(x) == (x < 0 ? -x : x), "min, max or abs of doubles %g, %g", x, y);
  unsigned u = (unsigned)a, v = (unsigned)b, w = (unsigned)number(c); PBT_EQ(m.maxmask(u, v, w), std::max(u & v, w | 1), "__max of expressions"); PBT_EQ(m.minmask(u, v, w), std::min(u & v, w | 1), "__min of expressions");
  if (a < 0 || b < 0 || a > UINT_MAX || b > UINT_MAX) c.nontrivial();
}
static void random_range(Case &c) {
  const macros_t &m = c.boolean() ? macros_debug : macros_release; unsigned seed = (unsigned)c.draw(UINT32_MAX); int span = (int)c.oneof<int64_t>({1, 2, 3, 7, 100, 65536, INT_MAX / 2, c.irange(1, 1000)}), a = (int)c.irange(-1000, 1000) * (int)c.oneof<int64_t>({1, 1000, 0}), b = a + span, d = (int)c.irange(-50, 50);
  c.note("%s: RANDOM(%d, %d), seed %u", m.name, a, b, seed); m.seed(seed); std::vector<int> first; std::set<int> seen; int n = span <= 7 ? 400 : 60;
  for (int i = 0; i < n; ++i) { int r = m.rnd(a, b); PBT_CHECK(r >= a && r < b, "RANDOM(%d, %d) gave %d", a, b, r); first.push_back(r); seen.insert(r); int s = m.rnd_shifted(a, b, d); PBT_CHECK(s >= a - d && s < b - d, "RANDOM(%d - %d, %d - %d) gave %d", a, d, b, d, s); }
  if (span <= 7) PBT_EQ(seen.size(), (size_t)span, "different values among 400 of RANDOM over a small range");
  m.seed(seed); for (int i = 0; i < n; ++i) { PBT_EQ(m.rnd(a, b), first[(size_t)i], "RANDOM after RANDOM_INIT with the same seed"); m.rnd_shifted(a, b, d); }
  for (int64_t f : {(int64_t)RAND_MAX, (int64_t)0, (int64_t)RAND_MAX - 1, (int64_t)c.draw(RAND_MAX)}) { forced = f; int r = m.rnd(a, b); forced = -1; PBT_CHECK(r >= a && r < b, "RANDOM(%d, %d) gave %d when rand() is %lld", a, b, r, (long long)f); int lo = d & 127, hi = (int)c.draw(65535); forced = f; r = m.rnd_or(lo, hi); forced = -1; PBT_CHECK(r >= (lo | 1) && r < (hi | 65536), "RANDOM(%d | 1, %d | 65536) gave %d", lo, hi, r); }
  if (a < 0 || span > 1000) c.nontrivial();
}
static void resources(Case &c) {
  const macros_t &m = c.boolean() ? macros_debug : macros_release; size_t n = c.size(1, 20), at = c.draw(n - 1); std::vector<void *> slots; for (size_t i = 0; i < n; ++i) slots.push_back(c.draw(3) ? malloc(8) : nullptr);
  std::vector<void *> before = slots; int e = 0; macros_freed = 0; void *left = m.release(slots.data(), at, &e); c.note("%s: FREE(slots[%zu]) of %zu, %s", m.name, at, n, before[at] ? "set" : "NULL");
  PBT_CHECK(!left && !slots[at], "FREE left the pointer"); PBT_EQ(macros_freed, before[at] ? 1 : 0, "blocks freed by FREE"); if (before[at]) PBT_CHECK(macros_last_freed == before[at], "FREE freed another block"); m.release(slots.data(), at, &e); PBT_EQ(macros_freed, before[at] ? 1 : 0, "blocks freed by two FREEs"); PBT_EQ(e, 0, "the else branch was taken");
  for (size_t i = 0; i < n; ++i) { if (i != at) PBT_CHECK(slots[i] == before[i], "FREE changed another pointer"); free(slots[i]); }
  int fd = open("/dev/null", O_WRONLY | O_CLOEXEC); FILE *f = c.draw(3) ? fdopen(fd, "w") : nullptr; FILE *g = m.close_(f, &e); PBT_CHECK(!g, "fclose left the file pointer"); bool open_ = fcntl(fd, F_GETFD) != -1; PBT_EQ(open_, f == nullptr, "the file is open"); if (open_) close(fd); PBT_EQ(e, 0, "the else branch was taken");
  std::string s = c.str(0, 8, "abc%"); PBT_CHECK(m.nullable(s.c_str()) == std::string(s) && m.nullable(nullptr) == std::string("(null)"), "NULLABLE_STRING");
  static const size_t lens[] = {1, 13, 255, 2, 5, 9, 3, 6, 13, 5, 17, 17}; for (int i = 0; i < 12; ++i) { PBT_EQ(m.len(i), lens[i], "ARRAY_LEN"); PBT_EQ(m.sum(i), lens[i] + 7, "100 / ARRAY_LEN of 13"); }
  PBT_CHECK(m.str(0) == std::string("a + b") && m.str(1) == std::string("x") && m.str(2) == std::string("\"q\""), "STRINGIFY"); PBT_EQ(m.cat(1), 5, "CONCAT(a, b)"); PBT_EQ(m.cat(0), 6, "CONCAT(ab, c)");
  static const char *const names[] = {"IT_ZERO", "IT_ONE", "IT_TWO", "IT_THREE", "IT_FOUR"}; PBT_EQ(m.enum_count, 5, "strings of the enum"); for (int i = 0; i < 5; ++i) { PBT_EQ(m.enum_values[i], i, "value of an enumerator"); PBT_CHECK(!strcmp(m.enum_strs[m.enum_values[i]], names[i]), "the string of %s is %s", names[i], m.enum_strs[i]); }
  if (before[at] && f) c.nontrivial();
}
static void asserts(Case &c) {
  const macros_t &m = c.boolean() ? macros_debug : macros_release; bool hard = c.boolean(); int a = (int)c.irange(-2, 2), b = (int)c.irange(-2, 2); bool holds = a == b; bool dies = !holds && (hard || m.debug); int p[2]; if (pipe(p)) return; fflush(stdout);
  pid_t pid = fork(); if (!pid) { struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); signal(SIGABRT, SIG_DFL); int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(p[1], 1); int ev = 0, r = (hard ? m.abort_unless : m.assert_)(&ev, a, b); _exit(r == 1 && ev == 1 ? 42 : 43); }
  close(p[1]); std::string out; char buf[512]; ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) out.append(buf, (size_t)k); close(p[0]); int st = 0; waitpid(pid, &st, 0); c.note("%s: %s(++n && %d == %d) -> status %d, %s", m.name, hard ? "ASSERT_ABORT" : "ASSERT", a, b, st, quote(out, 200).c_str());
  if (dies) { PBT_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "a failing assertion did not abort (status %d)", st); if (!m.debug) PBT_CHECK(out.find("a == b") != std::string::npos && out.find("macros.c") != std::string::npos, "the failing assertion printed %s", quote(out).c_str()); c.nontrivial(); }
  else { PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 42, "an assertion that need not abort ended with status %d (43: its expression was not evaluated exactly once)", st); PBT_CHECK(out.empty(), "a passing assertion printed %s", quote(out).c_str()); }
}
static void wide(Case &c) {   // operands that are no int
  const macros_t &m = c.boolean() ? macros_debug : macros_release; int kind = (int)c.draw(3); int64_t v = c.boolean() ? (int64_t)(c.draw(3) << (32 + c.draw(29))) : number(c); double d = c.oneof<double>({0.0, 0.25, -0.5, 1e-300, 4294967296.0}); void *p = (void *)(uintptr_t)(c.draw(2) << 32); bool holds = kind == 0 ? v != 0 : kind == 1 ? d != 0 : kind == 2 ? p != nullptr : (v & 255) || !p; fflush(stdout);
  pid_t pid = fork(); if (!pid) { struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); signal(SIGABRT, SIG_DFL); int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); _exit(m.abort_wide(kind, v, d, p) == 1 ? 42 : 43); }
  int st = 0; waitpid(pid, &st, 0); c.note("%s: ASSERT_ABORT kind %d of %lld, %g, %p -> status %d", m.name, kind, (long long)v, d, p, st);
  if (holds) PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 42, "an assertion that holds ended with status %d", st); else { PBT_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "a failing assertion did not abort (status %d)", st); c.nontrivial(); }
}
static void emergency(Case &c) { const macros_t &m = c.boolean() ? macros_debug : macros_release; int a = (int)c.irange(-99, 99); std::string s = c.str(0, 600, "ab% z"); std::string g; { Capture cap; m.emergency(a, s.c_str()); off_t n = lseek(cap.fd, 0, SEEK_END); g.resize((size_t)n); if (pread(cap.fd, &g[0], g.size(), 0) < 0) g = "?"; } c.note("EMERGENCY_LOG -> %s", quote(g).c_str()); PBT_CHECK(g == "[DEBUG] " + std::to_string(a) + " " + s + "\n", "EMERGENCY_LOG wrote %s", quote(g).c_str()); if (!s.empty()) c.nontrivial(); }
std::vector<Suite> suites = {{"values", values, 300000, 5000000}, {"random", random_range, 20000, 400000}, {"resources", resources, 60000, 1000000}, {"asserts", asserts, 600, 20000}, {"wide", wide, 600, 20000}, {"emergency", emergency, 5000, 50000}};
