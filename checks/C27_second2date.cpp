// variant: asan
#include "pbt.h"
#include "intercept.h"
extern "C" {
#include "time/time_util.h"
}
using namespace pbt;

Property property = {
  "C27",
  "the first and last second of every day from 1970 to 9999 in every zone from -12 to +14 hours (exhaustively), and generated seconds biased to the boundaries of minutes, hours, days, months, leap years and of 32-bit integers; "
  "and seconds up to the year 1,462,000; compared with gmtime_r of the shifted second; the zone offset function under generated TZ settings with and without daylight saving, around every change of it, against the C library's own offset of the instant; non-trivial: a day with a boundary, or a second in another day than in UTC",
  "exploration", {"tm_wday, tm_yday and tm_isdst are not set by the function", "years up to 1,462,000 (the day arithmetic is done in 32-bit integers)"}};

static void one(time_t t, int tz) {
  struct tm g, w; memset(&g, 0x5a, sizeof g); time_t in = t, sh = t + (time_t)tz * 3600; gmtime_r(&sh, &w); int r = time_util_fast_second2date(&in, &g, tz); if (r || in != t) fail("time_util_fast_second2date returned %d", r);
  if (g.tm_sec != w.tm_sec || g.tm_min != w.tm_min || g.tm_hour != w.tm_hour || g.tm_mday != w.tm_mday || g.tm_mon != w.tm_mon || g.tm_year != w.tm_year)
    fail("second %lld in zone %+d is %d-%02d-%02d %02d:%02d:%02d, expected %d-%02d-%02d %02d:%02d:%02d", (long long)t, tz, g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec, w.tm_year + 1900, w.tm_mon + 1, w.tm_mday, w.tm_hour, w.tm_min, w.tm_sec);
}
static const int64_t END = 253402300799ll;   // 9999-12-31 23:59:59
static const int64_t FAR = 534000000ll * 86400;
enum { DAYS = 2932897 };
static void days(Case &c) {   // 1024 days a case; one zone in the quick tier, all in the thorough one
  int64_t d0 = (int64_t)c.idx * 1024; c.note("days %lld..%lld after 1970-01-01", (long long)d0, (long long)d0 + 1023);
  for (int64_t d = d0; d < d0 + 1024 && d < DAYS; ++d) for (int tz = c.thorough ? -12 : (int)(d % 27) - 12; tz <= (c.thorough ? 14 : (int)(d % 27) - 12); ++tz) for (int64_t t : {d * 86400 - tz * 3600ll, d * 86400 - tz * 3600ll + 86399, d * 86400 + 43200 - tz * 3600ll}) if (t >= 0 && t <= END) one((time_t)t, tz);
  c.nontrivial();
}
static void any(Case &c) {
  int tz = (int)c.irange(-12, 14); int64_t t; unsigned k = c.draw(6);
  if (k == 0) t = (int64_t)c.draw((uint64_t)END); else if (k == 1) t = (int64_t)c.draw(4102444800ull); else if (k == 2) t = c.irange(-3, 3) + c.oneof<int64_t>({0, 59, 60, 3600, 86400, 43200, 2147483647ll, 4294967296ll, 68169600, 951782400, 4107542400ll, 128849018880ll, 12884901888ll}); else if (k == 3) t = c.irange(-2, 2) + 86400ll * (int64_t)c.draw(DAYS); else if (k == 4) t = (int64_t)c.draw(100000); else if (k == 6) { t = c.chance(1, 2) ? (int64_t)c.draw((uint64_t)FAR) : c.irange(-2, 2) + 86400ll * (int64_t)c.draw(534000000ull); if (t > FAR) t = FAR; } else t = c.irange(-2, 2) + 60ll * (int64_t)c.draw(4223371680ull);
  if (t < 0) t = 0; if (t > END && k != 6) t = END; if (t > END) c.label("after 9999"); c.note("second %lld, zone %+d", (long long)t, tz); one((time_t)t, tz); if ((t + tz * 3600ll) / 86400 != t / 86400) c.nontrivial(); if (t > 2147483647ll) c.label("after 2038"); if (t + tz * 3600 < 0) c.label("local time before 1970");
}
static void zone(Case &c) {
  int m = (int)c.irange(-12 * 4, 14 * 4) * 15; char off[32]; snprintf(off, sizeof off, "%s%d:%02d", m > 0 ? "-" : "", abs(m) / 60, abs(m) % 60); std::string tz = std::string("XXX") + off; bool dst = c.chance(1, 2); int ms = 3, wk = 5, me = 10, we = 5, hs = 2, he = 3;
  if (dst) { ms = (int)c.irange(1, 12); me = (int)c.irange(1, 12); if (me == ms) me = ms % 12 + 1; wk = (int)c.irange(1, 5); we = (int)c.irange(1, 5); hs = (int)c.irange(0, 23); he = (int)c.irange(0, 23); char b[64]; snprintf(b, sizeof b, "YYY,M%d.%d.%d/%d,M%d.%d.%d/%d", ms, wk, (int)c.irange(0, 6), hs, me, we, (int)c.irange(0, 6), he); tz += b; }
  setenv("TZ", tz.c_str(), 1); tzset(); int64_t now = (int64_t)c.draw(2 * 2147483648ull) + 200000; struct tm l;
  if (dst && c.chance(3, 4)) {   // an instant within a day of a change of the offset
    auto gm = [](int64_t x) { time_t v = (time_t)x; struct tm q; localtime_r(&v, &q); return (long)q.tm_gmtoff; };
    int64_t lo = now, hi = now; for (int i = 0; i < 40 && gm(lo) == gm(hi); ++i) hi += 10 * 86400;
    if (gm(lo) != gm(hi)) { lo = hi - 10 * 86400; while (hi - lo > 1) { int64_t mid = lo + (hi - lo) / 2; (gm(mid) == gm(lo) ? lo : hi) = mid; } now = hi + (c.chance(1, 2) ? c.irange(-5, 5) : c.irange(-86400, 86400)); if (now < 200000) now = 200000; c.label("around a daylight saving change"); }
  }
  time_t tn = (time_t)now; localtime_r(&tn, &l); long want = l.tm_gmtoff; if (!dst && want != m * 60) fail("harness: C library offset %ld under TZ=%s", want, tz.c_str());
  vclock::set_us(now * 1000000 + (int64_t)c.draw(999999)); c.note("TZ=%s at %lld", tz.c_str(), (long long)now);
  int g = time_util_zone_offset_seconds_to_utc(); vclock::off(); setenv("TZ", "UTC", 1); tzset(); PBT_EQ(g, (int)want, "zone offset in seconds"); if (want) c.nontrivial();
}
std::vector<Suite> suites = {{"days", days, (DAYS + 1023) / 1024, (DAYS + 1023) / 1024}, {"any", any, 8000000, 120000000}, {"zone offset", zone, 100000, 800000}};
