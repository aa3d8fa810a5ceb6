// variant: sched
#include "pbt.h"
#include "intercept.h"
#include "capture.h"
#include <time.h>
extern "C" {
#include "lcu.h"
#include "log/xlog.h"
#include "time/time_util.h"
extern LogLevel _g_slog_min_level;
}
using namespace pbt;

Property property = {
  "C36",
  "generated sequences of lcu_global_init and lcu_global_cleanup (nested, repeated, surplus cleanups, initialisations that run out of memory) and of the separate xlog and time initialisations, with 2 or 3 threads that log and ask for the "
  "time between them under a generated schedule: messages reach the callback one at a time, complete and once, time strings denote the instant that was read, and nothing stays allocated after the last cleanup; "
  "non-trivial: the library was used after a cleanup that was not the last one, or initialised again after the last one",
  "exploration", {"the library is used only between the first initialisation and the last cleanup, as documented", "initialisation and cleanup are called from one thread at a time"}};

static bool in_cb;
static std::vector<std::string> heard;
static void on_log(LogLevel, void *m, size_t n, void *) {
  PBT_CHECK(!in_cb, "two threads are inside the log callback although the library is initialised");
  in_cb = true; std::string s((char *)m, n - 1); sched::yield();
  PBT_CHECK(s == std::string((char *)m, n - 1), "a message changed while the callback was running");
  heard.push_back(s); in_cb = false;
}
static std::string date(int64_t us, int tz) {
  time_t t = (time_t)(us / 1000000 + tz * 3600ll); struct tm tm; gmtime_r(&t, &tm); char b[64];
  snprintf(b, sizeof b, "%02d-%02d %02d:%02d:%02d.%03d", tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)(us % 1000000 / 1000)); return b;
}
static void use(Case &c) {
  unsigned n = (unsigned)c.range(2, 3); heard.clear(); in_cb = false; std::vector<int> ids; std::vector<std::string> said;
  for (unsigned t = 0; t < n; ++t) {
    Span sp(c); std::vector<int> script; size_t k = c.size(1, 4); for (size_t i = 0; i < k; ++i) { script.push_back((int)c.draw(1)); if (!script.back()) said.push_back("<" + std::to_string(t) + "." + std::to_string(i) + ">"); }
    ids.push_back(sched::spawn([script, t] {
      for (size_t i = 0; i < script.size(); ++i) {
        if (!script[i]) { __xlog_internal_print(LOG_LEVEL_INFO, nullptr, nullptr, 0, "<%u.%zu>", t, i); continue; }
        char b[TIME_STR_SIZE]; uint64_t r0 = vclock::readings; int l = time_util_get_time_str_current(b, 3); if (vclock::readings != r0 + 1) continue;
        std::string w = date(vclock::last_us, 3); PBT_CHECK(w == b && l == (int)w.size(), "the current time is %s at an instant that is %s", quote(b, strnlen(b, sizeof b)).c_str(), w.c_str());
      }
    }));
  }
  for (int id : ids) sched::join(id);
  PBT_EQ(heard.size(), said.size(), "messages that reached the callback");
  for (auto &s : said) { size_t k = 0; for (auto &h : heard) k += h == s; PBT_EQ(k, 1, "times a message arrived"); }
}
static void prepare() { _g_slog_min_level = LOG_LEVEL_OFF; xlog_auto_level_up(LOG_LEVEL_OFF); xlog_set_min_level(LOG_LEVEL_VERBOSE); xlog_set_target(LOG_TARGET_USER_CALLBACK); xlog_set_format(LOG_FORMAT_RAW); xlog_set_user_callback(on_log, nullptr); }

static std::string version;
static void nested(Case &c) {
  prepare(); mem::start(); sched::Opts o = sched::draw_opts(c); o.tick_us = c.oneof<int64_t>({300000, 0, 1, 999999}); o.max_steps = 6000000; int depth = 0; bool inner = false, again = false, ended = false;
  sched::run(c, o, [&] {
    size_t n = c.size(1, 20);
    for (size_t i = 0; i < n; ++i) {
      Span sp(c);
      switch (c.weighted({8, 6, 6, 2, 2, 1})) {
        case 4: { if (!c.chance(1, 8)) break; bool up = c.boolean(); int k = (int)c.oneof<int64_t>({255, 256, 300, 1000}); if (up && depth < 1000 && c.chance(1, 16)) k = 66000; c.note("%s %d times", up ? "init" : "cleanup", k); if (!up && k > depth - 1) k = depth - 1; for (int j = 0; j < k; ++j) { PBT_EQ(up ? lcu_global_init() : lcu_global_cleanup(), 0, up ? "lcu_global_init" : "lcu_global_cleanup"); depth += up ? 1 : -1; } if (k > 0) { if (up && ended) again = true; if (!up) inner = true; c.label("deep"); } break; }
        case 0: c.note("init"); PBT_EQ(lcu_global_init(), 0, "lcu_global_init"); ++depth; if (ended) again = true; break;
        case 1: c.note("cleanup at depth %d", depth); PBT_EQ(lcu_global_cleanup(), 0, "lcu_global_cleanup"); if (depth) { --depth; if (depth) inner = true; else ended = true; }
          if (!depth) PBT_CHECK(!mem::live_blocks(), "after the last cleanup memory is left behind: %s", mem::describe().c_str());
          break;
        case 5: { const char *v = lcu_get_version(); PBT_CHECK(v && *v, "no version"); std::string w = v; if (version.empty()) version = w; PBT_CHECK(version == w, "the version changed from %s to %s", version.c_str(), w.c_str()); break; }
        case 2: if (depth) { c.note("use at depth %d", depth); use(c); } break;
        case 3: if (depth) break; { int k = (int)c.range(1, 4); mem::fail_at(k); int r = lcu_global_init(); bool hit = mem::failed(); mem::fail_at(0); c.note("init, allocation %d fails -> %d", k, r); if (!hit) { PBT_EQ(r, 0, "lcu_global_init"); ++depth; if (ended) again = true; break; } PBT_CHECK(r != 0, "lcu_global_init without memory reported success"); PBT_CHECK(!mem::live_blocks(), "a failed initialisation keeps memory: %s", mem::describe().c_str()); c.label("init fails"); if (c.boolean()) PBT_EQ(lcu_global_cleanup(), 0, "lcu_global_cleanup"); break; }
      }
    }
    if (depth && c.boolean()) use(c);
    while (depth) { PBT_EQ(lcu_global_cleanup(), 0, "lcu_global_cleanup"); --depth; }
    PBT_CHECK(!mem::live_blocks(), "after the last cleanup memory is left behind: %s", mem::describe().c_str());
  });
  mem::stop(); if (inner || again) c.nontrivial();
}
// xlog and the time functions can be initialised on their own: once, not counted.
static void separate(Case &c) {
  prepare(); mem::start(); sched::Opts o = sched::draw_opts(c); o.tick_us = c.oneof<int64_t>({300000, 0, 1}); bool xl = false, tm = false, twice = false;
  sched::run(c, o, [&] {
    size_t n = c.size(1, 20);
    for (size_t i = 0; i < n; ++i) {
      Span sp(c);
      switch (c.draw(4)) {
        case 0: PBT_EQ(xlog_global_init(), xl ? 1 : 0, "xlog_global_init"); if (xl) twice = true; xl = true; break;
        case 1: PBT_EQ(xlog_global_cleanup(), xl ? 0 : 1, "xlog_global_cleanup"); xl = false; break;
        case 2: PBT_EQ(time_util_global_init(), 0, "time_util_global_init"); tm = true; break;
        case 3: PBT_EQ(time_util_global_cleanup(), 0, "time_util_global_cleanup"); tm = false; break;
        case 4: if (xl && tm) use(c); break;
      }
      if (!xl && !tm) PBT_CHECK(!mem::live_blocks(), "after the cleanups memory is left behind: %s", mem::describe().c_str());
    }
    if (xl) PBT_EQ(xlog_global_cleanup(), 0, "xlog_global_cleanup"); PBT_EQ(time_util_global_cleanup(), 0, "time_util_global_cleanup");
    PBT_CHECK(!mem::live_blocks(), "after the cleanups memory is left behind: %s", mem::describe().c_str());
  });
  mem::stop(); if (twice) c.nontrivial();
}
std::vector<Suite> suites = {{"nested", nested, 48000, 300000}, {"separate", separate, 72000, 300000}};
