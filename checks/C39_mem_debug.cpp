// variant: asan
// program: on prog1 -D_LCU_MEM_CHECK_FEATURE_ENABLE=1
// program: asan prog2 -D_LCU_MEM_CHECK_FEATURE_ENABLE=1 -fno-sized-deallocation
// program: off prog0
#include "pbt.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;

Property property = {
  "C39",
  "a program of two C and two C++ source files that include mem_debug.h, built with the memory check feature and without it, runs generated histories of allocations (malloc, calloc, realloc, strdup, strndup, new, new[]) and releases in any of its files, "
  "requests that can't be met, constructors that throw, and uses of the library's modules with generated data; after each operation it compares contents, evaluations of arguments, and the tracker's report (size, file, function, line per block) with its "
  "model; histories end with one mistake (overrun, underrun, double free, foreign pointer) in half of the cases with the feature on; non-trivial: blocks of C and C++ files and a module",
  "exploration", {"names at least as long as the tracker keeps are compared as far as it keeps them", "C++ files without headers of the standard library after mem_debug.h"}};

struct Result { int status; std::string out; };
static Result run_program(const std::string &exe, const std::string &script) {
  int in[2], out[2]; if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC)) fail("harness: pipe"); fflush(stdout); fflush(stderr);
  pid_t pid = fork(); if (pid < 0) fail("harness: fork");
  if (!pid) { dup2(in[0], 0); dup2(out[1], 1); dup2(out[1], 2); signal(SIGPIPE, SIG_DFL); signal(SIGABRT, SIG_DFL); alarm(120); if (chdir(scratch().c_str())) _exit(96); execl(exe.c_str(), exe.c_str(), (char *)nullptr); _exit(97); }
  close(in[0]); close(out[1]); signal(SIGPIPE, SIG_IGN); fcntl(in[1], F_SETFL, O_NONBLOCK); size_t done = 0; std::string got; bool open_in = true;
  for (;;) {
    struct pollfd f[2] = {{out[0], POLLIN, 0}, {in[1], POLLOUT, 0}}; if (poll(f, open_in ? 2 : 1, -1) < 0) continue;
    if (open_in && f[1].revents) { ssize_t k = done < script.size() ? write(in[1], script.data() + done, script.size() - done) : 0; if (k > 0) done += (size_t)k; if (k < 0 || done == script.size()) { close(in[1]); open_in = false; } }
    if (f[0].revents) { char b[4096]; ssize_t k = read(out[0], b, sizeof b); if (k <= 0) break; if (got.size() < 100000) got.append(b, (size_t)k); }
  }
  if (open_in) close(in[1]); close(out[0]); int st = 0; while (waitpid(pid, &st, 0) < 0) {} return {st, got};
}
static void program(Case &c) {
  static std::string self = [] { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n < 0) fail("harness: readlink"); return std::string(b, (size_t)n); }();
  scratch_clear(); bool on = c.draw(3) != 3, mistake = on && c.boolean(), has_c = false, has_x = false, has_m = false; std::string script; size_t n = c.size(0, 60); char b[200];
  auto add = [&](unsigned op, unsigned u, unsigned s, size_t x, size_t y, unsigned z) { snprintf(b, sizeof b, "%u %u %u %zu %zu %u\n", op, u, s, x, y, z); script += b; c.note("op %u in file %u, slot %u: %zu %zu %u", op, u, s, x, y, z); };
  for (size_t i = 0; i < n; ++i) {
    Span sp(c); unsigned k = (unsigned)c.draw(15), u = (unsigned)c.draw(3), s = (unsigned)c.draw(7); size_t len = c.draw(9) ? c.draw(300) : c.draw(70000);
    if (k < 7) { unsigned x = (unsigned)c.draw(9); size_t y = c.draw(20); if (x % (u < 2 ? 6 : 9) == 4) y = c.draw(400); else if (x % (u < 2 ? 6 : 9) == 1) len %= 3000; (u < 2 ? has_c : has_x) = true; add(0, u, s, len, y, x); }
    else if (k < 9) add(1, u, s, len, 0, 0); else if (k < 12) add(2, u, s, 0, 0, 0); else if (k == 12) add(3, u, s, 0, 0, 0); else if (k == 13) add(4, u, s, 0, 0, (unsigned)c.draw(3)); else { has_m = true; add(5, u, s, c.draw(1000000), 0, (unsigned)c.draw(16)); }
  }
  unsigned kind = 0; if (mistake) { unsigned u = (unsigned)c.draw(3); add(0, u, 20, 1 + c.draw(200), 1 + c.draw(9), (unsigned)c.draw(8)); kind = (unsigned)c.draw(3); add(9, (unsigned)c.draw(3), (unsigned)c.draw(20), c.draw(7), 0, kind); }
  Result r = run_program(self + (on ? c.boolean() ? ".on" : ".asan" : ".off"), script); std::string tail = r.out.size() > 1500 ? r.out.substr(r.out.size() - 1500) : r.out;
  if (WIFEXITED(r.status) && (WEXITSTATUS(r.status) == 96 || WEXITSTATUS(r.status) == 97)) fail("harness: the program could not be started");
  bool none = r.out.find("NONE\n") != std::string::npos, made = r.out.find("MISTAKE") != std::string::npos && !none;
  if (mistake && made) { PBT_CHECK(r.out.find("NOT STOPPED") == std::string::npos && r.out.find("FAIL at") == std::string::npos && WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT, "mistake %u was not detected: status %x, output: %s", kind, r.status, tail.c_str()); c.label("stopped by the tracker"); }
  else PBT_CHECK(WIFEXITED(r.status) && !WEXITSTATUS(r.status) && r.out.find("FINE\n") != std::string::npos, "a correct program with the feature %s: status %x, output: %s", on ? "on" : "off", r.status, tail.c_str());
  if (on) c.label("feature on"); if (has_c && has_x && has_m) c.nontrivial();
}
std::vector<Suite> suites = {{"program", program, 10000, 300000}};
