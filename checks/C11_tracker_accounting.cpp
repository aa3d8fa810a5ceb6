// variant: sched
#include "pbt.h"
#include "intercept.h"
#include <map>
#include <climits>
extern "C" {
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
}
using namespace pbt;

Property property = {
  "C11",
  "histories of malloc/calloc/realloc/strdup/strndup/free/free_and_reset with sizes 0..100 KiB and overflowing ones, tracker on or off, on one thread or on several under a generated schedule; compared with a "
  "model of the live blocks; non-trivial: at least two blocks were live at once and a realloc or an overflowing request happened",
  "exploration", {"realloc may record more than was requested (it over-allocates on purpose); the slack is taken from the tracker's own report"}};

struct Blk { size_t req; uint64_t id; bool grown; std::string file, func; int line; };
static inline char at(uint64_t id, size_t k) { return (char)mix64(id * 1000003 + k * 17); }
struct World {
  Case *c; bool on; std::map<char *, Blk> live; uint64_t next = 1; bool overflow = false, realloced = false; size_t max_live = 0;
};
static void fill(char *p, const Blk &b) { for (size_t k = 0; k < b.req; ++k) p[k] = at(b.id, k); }
static void verify(const char *p, const Blk &b, size_t n, const char *when) { for (size_t k = 0; k < n; ++k) if (p[k] != at(b.id, k)) fail("%s: byte %zu of a %zu byte block changed", when, k, b.req); }

static std::map<char *, size_t> reported; static World *RW;
static void on_leak(void *p, size_t n, char *file, char *func, int line, void *ud) {
  World &w = *RW; if (ud != RW) fail("report callback: user data"); auto it = w.live.find((char *)p); if (it == w.live.end()) fail("a block that is not live is reported as a leak");
  if (reported.count((char *)p)) fail("a live block is reported twice"); Blk &b = it->second;
  if (b.grown ? n < b.req : n != b.req) fail("a block of %zu bytes is reported with %zu", b.req, n);
  if (b.file.substr(0, 127) != file || b.func.substr(0, 31) != func || b.line != line) fail("report of a block allocated at '%s' '%s' %d says '%s' '%s' %d", b.file.c_str(), b.func.c_str(), b.line, file, func, line);
  reported[(char *)p] = n;
}
static void account(World &w) {
  if (!w.on) { PBT_EQ(allocation_tracker_expect_no_allocations(nullptr, nullptr), 0, "expect_no_allocations with the tracker off"); return; }
  RW = &w; reported.clear(); size_t t = allocation_tracker_expect_no_allocations(on_leak, &w), sum = 0; for (auto &kv : reported) sum += kv.second;
  if (reported.size() != w.live.size()) fail("%zu blocks are live, %zu are reported", w.live.size(), reported.size());
  if (t != sum) fail("%zu bytes reported as allocated, the live blocks have %zu", t, sum);
}
static const char *OVER = "x";
static void op(World &w, std::map<char *, Blk> &mine) {
  Case &c = *w.c; Span sp(c); unsigned o = c.weighted({30, 26, 12, 14, 8, 8, 3, 2});
  Blk b; b.id = w.next++; b.grown = false; b.line = -1; bool tr = c.boolean(); std::string f, g;
  if (tr && o != 1) { f = c.str(0, c.draw(5) == 5 ? 200 : 10, "abc/"); g = c.str(0, c.draw(5) == 5 ? 60 : 8, "fgh"); b.line = (int)c.draw(c.draw(3) ? 5000 : INT_MAX); b.file = f; b.func = g; }
  auto put = [&](char *p, const Blk &nb) { if ((uintptr_t)p % alignof(max_align_t)) fail("a block of %zu bytes is not aligned for every type", nb.req); if (w.live.count(p)) fail("a live address was handed out again"); w.live[p] = nb; mine[p] = nb; w.max_live = std::max(w.max_live, w.live.size()); };
  auto pick = [&]() { auto it = mine.begin(); std::advance(it, c.draw(mine.size() - 1)); return it; };
  switch (o) {
    case 0: { b.req = c.size(0, c.draw(9) == 9 ? 400000 : 400); char *p = (char *)(tr ? lcu_malloc_trace(b.req, f.c_str(), g.c_str(), b.line) : lcu_malloc(b.req)); if (!p) fail("malloc(%zu) failed", b.req); c.note("malloc(%zu)", b.req); fill(p, b); put(p, b); break; }
    case 1: if (!mine.empty()) { auto it = pick(); char *p = it->first; verify(p, it->second, it->second.req, "before free"); c.note("free(%zu bytes)", it->second.req); w.live.erase(p); mine.erase(it); if (c.boolean()) lcu_free(p); else { void *q = p; lcu_free_and_reset(&q); if (q) fail("free_and_reset left the pointer"); lcu_free_and_reset(&q); } } else { lcu_free(nullptr); lcu_free_and_reset(nullptr); } break;
    case 2: { size_t n = c.size(0, 40), s = c.size(0, 60); b.req = n * s; char *p = (char *)(tr ? lcu_calloc_trace(n, s, f.c_str(), g.c_str(), b.line) : lcu_calloc(n, s)); if (!p) fail("calloc(%zu, %zu) failed", n, s); c.note("calloc(%zu, %zu)", n, s); for (size_t k = 0; k < b.req; ++k) if (p[k]) fail("calloc: byte %zu is not zero", k); fill(p, b); put(p, b); break; }
    case 3: {
      if (mine.empty()) {
        b.req = c.size(0, 300); char *p = (char *)(tr ? lcu_realloc_trace(nullptr, b.req, f.c_str(), g.c_str(), b.line) : lcu_realloc(nullptr, b.req)); c.note("realloc(NULL, %zu)", b.req);
        if (!b.req) { if (p) fail("realloc(NULL, 0) returned a block"); break; } if (!p) fail("realloc(NULL, %zu) failed", b.req); b.grown = true; fill(p, b); put(p, b); break;
      }
      auto it = pick(); char *p = it->first; Blk old = it->second; size_t n = c.size(0, c.draw(5) == 5 ? 60000 : old.req * 2 + 10); if (c.draw(3) == 3) n = old.req + c.draw(2);
      c.note("realloc(%zu bytes, %zu)", old.req, n); verify(p, old, old.req, "before realloc"); w.live.erase(p); mine.erase(it); w.realloced = true;
      char *q = (char *)(tr ? lcu_realloc_trace(p, n, f.c_str(), g.c_str(), b.line) : lcu_realloc(p, n));
      if (!n) { if (q) fail("realloc(p, 0) returned a block"); break; }
      if (!q) fail("realloc to %zu bytes failed", n); verify(q, old, std::min(old.req, n), "after realloc");
      if (q == p && w.on) { b.file = old.file; b.func = old.func; b.line = old.line; }
      b.req = n; b.grown = true; fill(q, b); put(q, b); break;
    }
    case 4: { size_t n = c.size(0, 200); std::string s(n, 0); for (auto &ch : s) ch = (char)(1 + c.draw(254)); char *p = tr ? lcu_strdup_trace(s.c_str(), f.c_str(), g.c_str(), b.line) : lcu_strdup(s.c_str()); if (!p || s != p) fail("strdup of %zu characters differs", n); c.note("strdup(%zu)", n); b.req = n + 1; fill(p, b); put(p, b); break; }
    case 5: { size_t n = c.size(0, 60), l = c.size(0, 80); if (c.draw(7) == 7) l = (size_t)-1; std::string s(n, 'a'); for (auto &ch : s) ch = (char)(1 + c.draw(254)); std::string want = s.substr(0, std::min(n, l));
      std::vector<char> raw(s.begin(), s.end()); if (l > n) raw.push_back(0); else raw.resize(std::max<size_t>(l, 1), (char)120); raw.shrink_to_fit();   // what lies behind the first l characters is none of its business
      char *p = tr ? lcu_strndup_trace(raw.data(), l, f.c_str(), g.c_str(), b.line) : lcu_strndup(raw.data(), l); if (!p || want != p) fail("strndup(%zu characters, %zu) differs", n, l); c.note("strndup(%zu, %zu)", n, l); b.req = want.size() + 1; fill(p, b); put(p, b); break; }
    case 6: {
      w.overflow = true; void *p = nullptr;
      switch (c.draw(5)) {
        case 4: { size_t n = (size_t)-1 - c.draw(60), s = 1; if (c.boolean()) std::swap(n, s); else if (c.boolean()) { n /= 2; s = 2; } p = lcu_calloc(n, s); c.note("calloc(%zu, %zu)", n, s); break; }
        case 5: { size_t n = (size_t)-1 - c.draw(60); p = (c.boolean() ? allocator_calloc : allocator_malloc).alloc(n); c.note("allocator_t.alloc(SIZE_MAX-%zu)", (size_t)-1 - n); break; }
        case 0: { size_t n = (size_t)-1 - c.draw(40); p = lcu_malloc(n); c.note("malloc(SIZE_MAX-%zu)", (size_t)-1 - n); break; }
        case 1: { size_t s = c.range(2, 64), n = (size_t)-1 / s + c.draw(3) + 1; if (c.boolean()) std::swap(n, s); p = lcu_calloc(n, s); c.note("calloc(%zu, %zu)", n, s); break; }
        case 2: { size_t n = (size_t)-1 - c.draw(4200); p = lcu_realloc(nullptr, n); c.note("realloc(NULL, SIZE_MAX-%zu)", (size_t)-1 - n); break; }
        case 3: if (!mine.empty()) { auto it = pick(); size_t n = (size_t)-1 - c.draw(4200); p = lcu_realloc(it->first, n); c.note("realloc(%zu bytes, SIZE_MAX-%zu)", it->second.req, (size_t)-1 - n); if (!p) verify(it->first, it->second, it->second.req, "after a failed realloc"); } break;
      }
      if (p) fail("a request no allocator can serve returned a block");
      break;
    }
    case 7: { b.req = c.size(0, 100); bool z = c.boolean(); char *p = (char *)(z ? allocator_calloc : allocator_malloc).alloc(b.req); if (!p) fail("allocator_t alloc failed"); if (z) for (size_t k = 0; k < b.req; ++k) if (p[k]) fail("allocator_calloc: byte %zu is not zero", k); b.file = b.func = ""; b.line = -1; fill(p, b); put(p, b);
      if (c.boolean()) { w.live.erase(p); mine.erase(p); (z ? allocator_calloc : allocator_malloc).free(p); } break; }
  }
}
static void finish(World &w, std::map<char *, Blk> &mine) { for (auto &kv : mine) { verify(kv.first, kv.second, kv.second.req, "at the end"); w.live.erase(kv.first); lcu_free(kv.first); } mine.clear(); }

static void history(Case &c) {
  (void)OVER; mem::start(); World w; w.c = &c; w.on = c.draw(3) != 3; if (w.on) allocation_tracker_init(); c.note("tracker %s", w.on ? "on" : "off");
  if (w.on && c.boolean()) allocation_tracker_init();
  std::map<char *, Blk> mine; size_t n = c.size(1, c.thorough ? 200 : 60); for (size_t i = 0; i < n; ++i) { op(w, mine); for (auto &kv : mine) w.live[kv.first] = kv.second; if (c.draw(3) == 3) account(w); }
  for (auto &kv : mine) verify(kv.first, kv.second, kv.second.req, "later"); account(w);
  finish(w, mine); PBT_EQ(allocation_tracker_expect_no_allocations(nullptr, nullptr), 0, "bytes reported after everything was freed");
  if (w.on) { if (c.boolean()) { void *p = lcu_malloc(10); (void)p; allocation_tracker_reset(); PBT_EQ(allocation_tracker_expect_no_allocations(nullptr, nullptr), 0, "bytes reported after reset"); mem::release((char *)p - (allocation_tracker_resize_for_canary(0) / 2)); } allocation_tracker_uninit(); allocation_tracker_uninit(); }
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
  c.label("%s", w.on ? "tracker on" : "tracker off"); if (w.overflow) c.label("overflowing request"); if (w.realloced) c.label("realloc"); if (w.max_live >= 2 && (w.realloced || w.overflow)) c.nontrivial();
}
static void threads(Case &c) {
  mem::start(); World w; w.c = &c; w.on = true; int nt = (int)c.range(2, 3); sched::Opts o = sched::draw_opts(c); 
  sched::run(c, o, [&] {
    allocation_tracker_init(); std::vector<int> t;
    auto body = [&] { std::map<char *, Blk> mine; size_t n = c.size(1, 8); for (size_t i = 0; i < n; ++i) op(w, mine); if (c.boolean()) { for (auto &kv : mine) verify(kv.first, kv.second, kv.second.req, "later"); finish(w, mine); } else { } };
    for (int i = 1; i < nt; ++i) t.push_back(sched::spawn(body)); body(); for (int x : t) sched::join(x);
    account(w); std::map<char *, Blk> rest = w.live; finish(w, rest); PBT_EQ(allocation_tracker_expect_no_allocations(nullptr, nullptr), 0, "bytes reported after everything was freed"); allocation_tracker_uninit();
  });
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); c.label("threads"); if (sched::switches >= 6 && w.max_live >= 2) c.nontrivial();
}
// so many blocks that the tracker's table grows while the threads allocate and free
static void crowd(Case &c) {
  mem::start(); int nt = (int)c.range(2, 3); sched::Opts o = sched::draw_opts(c); o.preempt_memory = true; o.max_steps = 4000000; size_t extra = 0;
  std::map<char *, uint64_t> live; uint64_t next = 1;
  auto take = [&] { uint64_t id = next++; char *p = (char *)lcu_malloc(8); if (!p) fail("malloc failed"); memcpy(p, &id, 8); if (live.count(p)) fail("a live address was handed out again"); live[p] = id; return p; };
  auto drop = [&](char *p) { uint64_t id; memcpy(&id, p, 8); if (live[p] != id) fail("a block changed"); live.erase(p); lcu_free(p); };
  allocation_tracker_init(); size_t n0 = (size_t)c.range(1500, 1540); for (size_t i = 0; i < n0; ++i) take();   // 1024 * 4/3 entries rounded up to 2048 buckets: grows with the 1537th
  sched::run(c, o, [&] {
    auto body = [&] { std::vector<char *> mine; for (size_t i = 0, n = c.size(1, 40); i < n; ++i) { Span sp(c); if (mine.empty() || c.draw(4)) { mine.push_back(take()); ++extra; } else { drop(mine.back()); mine.pop_back(); } } };
    std::vector<int> t; for (int i = 1; i < nt; ++i) t.push_back(sched::spawn(body)); body(); for (int x : t) sched::join(x);
  });
  PBT_EQ(allocation_tracker_expect_no_allocations([](void *, size_t, char *, char *, int, void *) {}, nullptr), live.size() * 8, "bytes reported with all threads done");
  while (!live.empty()) drop(live.begin()->first); PBT_EQ(allocation_tracker_expect_no_allocations(nullptr, nullptr), 0, "bytes reported after everything was freed"); allocation_tracker_uninit();
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); c.label("crowd"); if (sched::switches >= 6 && extra > 8) c.nontrivial();
}
std::vector<Suite> suites = {{"crowd", crowd, 500, 20000}, {"history", history, 100000, 3000000}, {"threads", threads, 30000, 1000000}};
