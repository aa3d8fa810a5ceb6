// variant: sched
#include "pbt.h"
#include "intercept.h"
extern "C" {
#include "time/time_util.h"
#include "time/time_rfc1123.h"
#include "time/time_rfc2822.h"
}
using namespace pbt;

Property property = {
  "C28",
  "sequences of clock readings (equal, same second, next second, back, minute/hour/day/year changes, 1970 and after 2038) each followed by a current-time call in a generated zone, from untouched and used caches; the same from 2-4 threads under "
  "generated schedules with the clock running; explicit instants; RFC strings for instants of the years 1..9999 with output sizes around the limit; compared with gmtime_r; non-trivial: the cached second was hit and missed, or threads read different seconds",
  "exploration", {"zones of whole hours from -12 to +14", "the file name form has the layout MMDDhhmmss.mmm, as the code produces"}};

static std::string want(int64_t us, int tz, bool file) { int64_t s = us / 1000000, f = us % 1000000; if (f < 0) { f += 1000000; --s; } time_t t = (time_t)(s + tz * 3600ll); struct tm tm; gmtime_r(&t, &tm); char b[64]; snprintf(b, sizeof b, file ? "%02d%02d%02d%02d%02d.%03d" : "%02d-%02d %02d:%02d:%02d.%03d", tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)(f / 1000)); return b; }
static std::string call(bool file, int tz, const char *what) {
  char *b = (char *)malloc(TIME_STR_SIZE); memset(b, 0x5a, TIME_STR_SIZE); int n = file ? time_util_get_time_str_for_file_name_current(b, tz) : time_util_get_time_str_current(b, tz); size_t l = strnlen(b, TIME_STR_SIZE); if (l == TIME_STR_SIZE) fail("%s: the string is not terminated", what); if (n != (int)l) fail("%s returned %d for %s", what, n, quote(b, l).c_str()); std::string s(b, l); free(b); return s;
}
static int64_t next_time(Case &c, int64_t t) {
  switch (c.draw(9)) {
    case 0: return t; case 1: return t + c.irange(0, 1500); case 2: return t - t % 1000000 + (int64_t)c.draw(999999); case 3: return t + 1000000; case 4: return t + c.irange(-3000000, 3000000); case 5: return t - 1000000; case 6: return t + c.oneof<int64_t>({60, 3600, 86400, 31536000, 28 * 86400}) * 1000000;
    case 7: return (t / 1000000 / 86400 * 86400 + 86400) * 1000000 - c.irange(-2, 2) * 500000; case 8: return (c.oneof<int64_t>({0, 1, 86399, 951782399, 951868799, 1709164799, 1735689599, 2147483647, 4294967295ll, 4107542399ll})) * 1000000 + (int64_t)c.draw(1999999); default: return (int64_t)c.draw(4102444800ull) * 1000000 + (int64_t)c.draw(999999); }
}
static void sequence(Case &c, bool fresh) {
  bool init = fresh ? c.boolean() : true; if (init) PBT_EQ(time_util_global_init(), 0, "time_util_global_init");
  if (!fresh) for (int64_t s : {1234567890ll, 1234567899ll}) { vclock::set_us(s * 1000000); call(false, 0, "current"); call(true, 0, "current"); }   // the caches are in a known state now
  int64_t t = fresh ? c.oneof<int64_t>({0, 0, 1, 1500000, -1, 1700000000000000ll}) : 1234567899ll * 1000000; if (t < 0) t = next_time(c, 1700000000000000ll); size_t n = c.size(1, fresh ? 8 : 60); std::vector<int> zones; size_t nz = c.size(1, 3); for (size_t i = 0; i < nz; ++i) zones.push_back((int)c.oneof<int64_t>({0, 8, -5, c.irange(-12, 14)}));
  int64_t last[2] = {-1, -1}; bool hit = false, miss = false;
  for (size_t i = 0; i < n; ++i) {
    Span sp(c); if (!fresh || i) t = next_time(c, t); if (t < 0) t = -t; bool file = c.draw(2) == 2; int tz = c.pick(zones); vclock::set_us(t); std::string g = call(file, tz, file ? "the current time for a file name" : "the current time"); c.note("clock %lld.%06lld, zone %+d, %s -> %s", (long long)(t / 1000000), (long long)(t % 1000000), tz, file ? "file name" : "time stamp", g.c_str());
    std::string w = want(t, tz, file); PBT_CHECK(g == w, "the current time is %s, expected %s", quote(g).c_str(), w.c_str()); (last[file] == t / 1000000 ? hit : miss) = true; last[file] = t / 1000000;
    uint64_t ms = 0; if (c.draw(3) == 3) { time_util_current_ms(&ms); PBT_EQ(ms, t / 1000, "time_util_current_ms"); uint64_t p = 0; time_util_query_performance_ms(&p); if (vclock::last_us == (int64_t)t) PBT_EQ(p, t / 1000, "time_util_query_performance_ms"); }
  }
  if (init && c.draw(7) == 7) { PBT_EQ(time_util_global_cleanup(), 0, "time_util_global_cleanup"); std::string g = call(false, 8, "current"); PBT_CHECK(g == want(t, 8, false), "after cleanup the current time is %s", g.c_str()); }
  vclock::off(); if (hit && miss) c.nontrivial();
}
static void history(Case &c) { sequence(c, false); }
static void fresh(Case &c) { sequence(c, true); c.nontrivial(); }

static void given(Case &c) {
  int64_t t = next_time(c, 1700000000000000ll); if (t < 0) t = -t; int tz = (int)c.irange(-12, 14); bool file = c.boolean(); struct timeval tv = {t / 1000000, t % 1000000}, in = tv; char *b = (char *)malloc(TIME_STR_SIZE); int n = file ? time_util_get_time_str_for_file_name(&tv, b, tz) : time_util_get_time_str(&tv, b, tz); c.note("instant %lld us, zone %+d -> %s", (long long)t, tz, quote(b, strnlen(b, TIME_STR_SIZE)).c_str());
  PBT_CHECK(want(t, tz, file) == b, "the time string is %s, expected %s", quote(b, strlen(b)).c_str(), want(t, tz, file).c_str()); PBT_EQ(n, strlen(b), "returned length"); PBT_CHECK(!memcmp(&tv, &in, sizeof tv), "the instant was changed"); free(b); if (t / 1000000 / 86400 != (t / 1000000 + tz * 3600ll) / 86400) c.nontrivial();
}
static void rfc(Case &c) {
  static const char *const D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *const M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  time_t t = c.boolean() ? (time_t)c.draw(4102444800ull) : c.boolean() ? (time_t)c.draw(253402300799ull) : (time_t)c.irange(-30610224000ll, 253402300799ll); time_t in = t; struct tm tm; gmtime_r(&t, &tm); unsigned kind = c.draw(2); char pre[64]; snprintf(pre, sizeof pre, "%s, %02d %s %04d %02d:%02d:%02d", D[tm.tm_wday], tm.tm_mday, M[tm.tm_mon], tm.tm_year + 1900, tm.tm_hour, tm.tm_min, tm.tm_sec); std::string w = std::string(pre) + (kind == 0 ? " GMT" : kind == 1 ? " +0000" : " UTC");
  size_t need = kind == 0 ? TIME_RFC1123_STR_SIZE : kind == 1 ? TIME_RFC2822_STR_SIZE : TIME_RFC2822_UTC_STR_SIZE, size = c.oneof<size_t>({need, need, need + 1, need + 40, need - 1, 1, 0}); char *b = (char *)malloc(size ? size : 1); memset(b, 0x5a, size ? size : 1); int r = kind == 0 ? time_rfc1123(&t, b, size) : kind == 1 ? time_rfc2822(&t, b, size) : time_rfc2822_utc(&t, b, size);
  c.note("%s of %lld into %zu bytes -> %d", kind == 0 ? "rfc1123" : kind == 1 ? "rfc2822" : "rfc2822_utc", (long long)in, size, r);
  if (size < need) { PBT_EQ(r, -1, "with a too small buffer"); for (size_t i = 0; i < size; ++i) PBT_CHECK(b[i] == 0x5a, "a refused call wrote"); } else { PBT_EQ(r, 0, "return value"); PBT_CHECK(w == b, "the string is %s, expected %s", quote(b, strnlen(b, size)).c_str(), w.c_str()); c.nontrivial(); }
  PBT_CHECK(t == in, "the instant was changed"); free(b); PBT_EQ(time_rfc1123(&t, nullptr, 99), -1, "NULL output");
}
static void threads(Case &c) {
  for (int64_t s : {1234567890ll, 1234567899ll}) { vclock::set_us(s * 1000000); call(false, 0, "current"); call(true, 0, "current"); } vclock::off(); bool init = c.draw(7) != 7;
  if (!init) time_util_global_cleanup(); unsigned n = init ? (unsigned)c.range(2, 4) : 1; sched::Opts o = sched::draw_opts(c); o.tick_us = c.oneof<int64_t>({300000, 1, 0, 999999, 1000000, 70000}); bool differ = false;
  sched::run(c, o, [&] {
    if (init) time_util_global_init(); int64_t first = -1; std::vector<int> ids;
    for (unsigned k = 0; k < n; ++k) { int tz = (int)c.oneof<int64_t>({0, 8, -5, 14}); unsigned calls = (unsigned)c.range(1, 6); ids.push_back(sched::spawn([&, k, tz, calls] {
      for (unsigned i = 0; i < calls; ++i) {
        bool file = c.draw(3) == 3; uint64_t r0 = vclock::readings; std::string g = call(file, tz, "the current time"); if (vclock::readings != r0 + 1) continue; int64_t us = vclock::last_us; std::string w = want(us, tz, file); c.note("thread %u, clock %lld us, zone %+d -> %s", k, (long long)us, tz, g.c_str());
        PBT_CHECK(g == w, "thread %u got %s at an instant that is %s", k, quote(g).c_str(), w.c_str()); if (first < 0) first = us / 1000000; else if (first != us / 1000000) differ = true; if (c.draw(4) == 4) sched::sleep_us(c.oneof<int64_t>({1, 1000, 400000}));
      } })); }
    for (int id : ids) sched::join(id); time_util_global_cleanup(); });
  if (differ && n > 1) c.nontrivial();
}
static struct Zone { Zone() { setenv("TZ", "XST-5:30", 1); tzset(); } } zone_;   // the strings are about the given zone or UTC, never the local one
std::vector<Suite> suites = {{"history", history, 300000, 3000000}, {"fresh", fresh, 3000, 60000, 30000, true}, {"given", given, 600000, 4000000}, {"rfc", rfc, 600000, 4000000}, {"threads", threads, 36000, 400000}};
