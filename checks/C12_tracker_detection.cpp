// variant: memcheck
#include "pbt.h"
#include "intercept.h"
#include <map>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
extern "C" {
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
#include "mem/stringbuilder.h"
#include "data/list.h"
}
using namespace pbt;

Property property = {
  "C12",
  "histories of tracked allocations run in a child process, ended by one fault (bytes before or after a live block overwritten, block freed or reallocated twice, foreign pointer freed) or by none; the child "
  "must be stopped with a message if and only if there was a fault; non-trivial: the history holds at least 3 other allocations",
  "fault_enumeration", {"as many bytes on each side of a block are watched as the allocator adds, at least 8", "overwritten bytes get a value different from the one they had"}};

enum { NONE, UNDER, OVER_, DOUBLE, FOREIGN, REALLOC_FREED, NFAULT };
static const char *names[] = {"none", "byte before the block overwritten", "byte after the block overwritten", "double free", "foreign pointer freed", "realloc of a freed block"};
enum { BY_FREE, BY_REALLOC, BY_REPORT };

static void history(Case &c) {
  unsigned fault = (unsigned)c.draw(NFAULT - 1); size_t n_before = c.size(0, 20), n_after = c.size(0, 6); bool others_freed = c.boolean();
  size_t size = c.draw(3) ? c.size(1, 300) : c.size(0, c.boolean() ? 20000 : 400000); unsigned how = (unsigned)c.draw(3); unsigned detect = (unsigned)c.draw(2); unsigned pos = (unsigned)c.draw(15); unsigned char xv = (unsigned char)c.range(1, 255); unsigned span = 1 + (unsigned)c.draw(15);
  if (how == 3 && size == 0) size = 1;
  if (detect == BY_REPORT && (fault != UNDER && fault != OVER_ && fault != NONE)) detect = BY_FREE;
  c.note("fault: %s, block of %zu bytes, detected by %s, byte %u xor %02x, %u bytes", names[fault], size, detect == BY_FREE ? "free" : detect == BY_REALLOC ? "realloc" : "expect_no_allocations", pos, xv, span);
  struct Op { unsigned kind; size_t n; }; std::vector<Op> before, after; for (size_t i = 0; i < n_before; ++i) { Span sp(c); before.push_back({(unsigned)c.draw(5), c.size(0, 500)}); } for (size_t i = 0; i < n_after; ++i) { Span sp(c); after.push_back({(unsigned)c.draw(3), c.size(0, 500)}); }
  int fd[2]; if (pipe(fd)) fail("harness: pipe"); fflush(stdout); fflush(stderr);
  pid_t pid = fork(); if (pid < 0) fail("harness: fork");
  if (!pid) {
    dup2(fd[1], 1); dup2(fd[1], 2); close(fd[0]); close(fd[1]); signal(SIGABRT, SIG_DFL); alarm(20);
    allocation_tracker_init(); std::vector<void *> bl;
    auto run_op = [&](const Op &o) {
      switch (o.kind) {
        case 0: { void *p = lcu_malloc(o.n); memset(p, 1, o.n); bl.push_back(p); break; } case 1: { void *p = lcu_calloc(1, o.n); memset(p, 2, o.n); bl.push_back(p); break; }
        case 2: if (!bl.empty()) { lcu_free(bl.back()); bl.pop_back(); } break;
        case 3: if (!bl.empty()) { void *p = lcu_realloc(bl.back(), o.n); if (p) { memset(p, 3, o.n); bl.back() = p; } else bl.pop_back(); } break;
        case 4: { stringbuilder_t *s = stringbuilder_create(o.n % 50); for (size_t i = 0; i < o.n; ++i) stringbuilder_appendchar(s, 'x'); stringbuilder_destroy(&s); break; }
        case 5: { list_t *l = list_new(lcu_free); for (size_t i = 0; i < o.n % 7; ++i) list_append(l, lcu_malloc(i)); list_free(l); break; }
      }
    };
    for (auto &o : before) run_op(o);
    char *p = how == 0 ? (char *)lcu_malloc(size) : how == 1 ? (char *)lcu_calloc(1, size) : how == 2 ? (char *)lcu_strndup(std::string(size, 'q').c_str(), size) : (char *)lcu_realloc(nullptr, size);
    size_t full = how == 2 ? size + 1 : size; if (how == 3) full = allocation_tracker_ptr_size(99, p);
    memset(p, 0x33, full);
    for (auto &o : after) run_op(o);
    const unsigned watched = (unsigned)allocation_tracker_resize_for_canary(0) / 2; if (watched < 8) _exit(9); pos %= watched;
    if (fault == UNDER) { unsigned n = std::min(span, pos + 1); for (unsigned k = 0; k < n; ++k) p[-(int)pos - 1 + (int)k] ^= xv; }
    if (fault == OVER_) { unsigned n = std::min(span, watched - pos); for (unsigned k = 0; k < n; ++k) p[full + pos + k] ^= xv; }
    if (others_freed) while (!bl.empty()) { lcu_free(bl.back()); bl.pop_back(); }
    if (fault == FOREIGN) { char *q = detect == 1 ? p + 1 : (char *)malloc(64); if (xv & 1) lcu_free(q); else (void)lcu_realloc(q, 10); }
    else if (fault == REALLOC_FREED) { lcu_free(p); (void)lcu_realloc(p, 100000); }
    else {
      if (detect == BY_REPORT) (void)allocation_tracker_expect_no_allocations(nullptr, nullptr);
      else if (detect == BY_REALLOC) { p = (char *)lcu_realloc(p, full + 1 + pos); if (!p) _exit(7); }
      lcu_free(p); if (fault == DOUBLE) lcu_free(p);
    }
    while (!bl.empty()) { lcu_free(bl.back()); bl.pop_back(); }
    if (allocation_tracker_expect_no_allocations(nullptr, nullptr)) _exit(8);
    allocation_tracker_uninit(); _exit(0);
  }
  close(fd[1]); std::string out; char buf[4096]; for (;;) { ssize_t n = read(fd[0], buf, sizeof buf); if (n <= 0) break; if (out.size() < 8192) out.append(buf, n); }
  close(fd[0]); int st = 0; while (waitpid(pid, &st, 0) < 0) {}
  bool asan = out.find("AddressSanitizer") != std::string::npos;
  if (fault == NONE) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fail("a program without a fault was stopped (status %#x): %s", st, quote(out, 300).c_str()); }
  else {
    if (asan) fail("fault '%s': not stopped before it did damage: %s", names[fault], quote(out, 300).c_str());
    if (WIFEXITED(st)) fail("fault '%s' was not detected (exit code %d)", names[fault], WEXITSTATUS(st));
    if (WTERMSIG(st) != SIGABRT) fail("fault '%s' ended with signal %d instead of an abort", names[fault], WTERMSIG(st));
    if (out.empty()) fail("fault '%s': stopped without a diagnostic", names[fault]);
    if ((fault == UNDER || fault == OVER_) && out.find("orrupt") == std::string::npos) fail("fault '%s': the diagnostic does not speak of corruption: %s", names[fault], quote(out, 300).c_str());
  }
  c.label("%s", names[fault]); if (n_before + n_after >= 3) c.nontrivial();
}
std::vector<Suite> suites = {{"history", history, 30000, 400000}};
