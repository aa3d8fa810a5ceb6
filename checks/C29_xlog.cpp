// variant: asan
#include "pbt.h"
#include "intercept.h"
#include "capture.h"
#include <fcntl.h>
#include <map>
#include <unistd.h>
#include <ctime>
#include <sys/syscall.h>
extern "C" {
#include "log/xlog.h"
#include "lcu.h"
}
using namespace pbt;
// the macros of xlog.h, before slog.h redefines them
static void xlog_macro(int level, const char *tag, const char *m) { switch (level) { case 1: TLOGV(tag, "%s", m); break; case 2: TLOGD(tag, "%s", m); break; case 3: TLOGI(tag, "%s", m); break; case 4: TLOGW(tag, "%s", m); break; default: TLOGE(tag, "%s", m); } }
static void xlog_macro_default(int level, const char *m) { switch (level) { case 1: LOGV("%s", m); break; case 2: LOGD("%s", m); break; case 3: LOGI("%s", m); break; case 4: LOGW("%s", m); break; default: LOGE("%s", m); } }
static int xlog_trace(int level, const char *tag, const char *m) { switch (level) { case 1: TLOGV_TRACE(tag, "%s", m); break; case 2: TLOGD_TRACE(tag, "%s", m); break; case 3: TLOGI_TRACE(tag, "%s", m); break; case 4: TLOGW_TRACE(tag, "%s", m); break; default: TLOGE_TRACE(tag, "%s", m); } return __LINE__; }
static void xlog_hex(int level, const char *tag, const std::string &d) { switch (level) { case 1: TLOGV_HEX(tag, d.data(), d.size()); break; case 2: TLOGD_HEX(tag, d.data(), d.size()); break; case 3: TLOGI_HEX(tag, d.data(), d.size()); break; case 4: TLOGW_HEX(tag, d.data(), d.size()); break; default: TLOGE_HEX(tag, d.data(), d.size()); } }
#undef LOG_TAG
#undef _LOG_TAG
#define LOG_TAG "facade"
#include "log/logger.h"
static void facade(int level, const char *m) { switch (level) { case 1: LOGV("%s", m); break; case 2: LOGD("%s", m); break; case 3: LOGI("%s", m); break; case 4: LOGW("%s", m); break; default: LOGE("%s", m); } }
static void facade_min(int l) { LOG_SET_MIN_LEVEL(l); }
#pragma clang diagnostic ignored "-Wmacro-redefined"
extern "C" {
#include "log/slog.h"
}
static void slog_macro(int level, const char *tag, const char *m) { switch (level) { case 1: SLOGV(tag, "%s", m); break; case 2: SLOGD(tag, "%s", m); break; case 3: SLOGI(tag, "%s", m); break; case 4: SLOGW(tag, "%s", m); break; default: SLOGE(tag, "%s", m); } }
static int slog_trace(int level, const char *tag, const char *m) { switch (level) { case 1: SLOGV_TRACE(tag, "%s", m); break; case 2: SLOGD_TRACE(tag, "%s", m); break; case 3: SLOGI_TRACE(tag, "%s", m); break; case 4: SLOGW_TRACE(tag, "%s", m); break; default: SLOGE_TRACE(tag, "%s", m); } return __LINE__; }
static void slog_hex(int level, const char *tag, const std::string &d) { switch (level) { case 1: SLOGV_HEX(tag, d.data(), d.size()); break; case 2: SLOGD_HEX(tag, d.data(), d.size()); break; case 3: SLOGI_HEX(tag, d.data(), d.size()); break; case 4: SLOGW_HEX(tag, d.data(), d.size()); break; default: SLOGE_HEX(tag, d.data(), d.size()); } }

Property property = {
  "C29",
  "histories of configuration calls (minimum level, level-up, target, format, tag, zone, callback, flush mode; invalid values too) and log calls through the internal function and the public macros of xlog, the facade and slog, with "
  "message lengths around the 512-byte buffer (total length 505..520 and its edges) and up to 70000, tags and function names of any length, a controlled clock; console bytes and callback calls are compared with a model after each "
  "call; redirection to files, from one to another and back (to a stand-in for the terminal) compared likewise; non-trivial: a history in which a message was filtered and one of more than 511 bytes was emitted",
  "exploration", {"tags are shown with at most 22 characters and padded to 8, thread ids with their last 5 digits, as the format documents", "messages contain no NUL except where only the callback listens"}};

struct Model { int min = 1, up = 0, target = LOG_TARGET_CONSOLE, format = LOG_FORMAT_WITH_TIMESTAMP | LOG_FORMAT_WITH_TAG_LEVEL, tz = 8, flush = 0; std::string tag = "XLog"; bool cb = false; };
struct Emit { int level; std::string msg; };
static std::vector<Emit> got_cb; static int cookie;
static void user_cb(LogLevel level, void *m, size_t n, void *u) { if (u != &cookie) fail("the callback was given other user data"); if (n == 0 || ((char *)m)[n - 1]) fail("the message given to the callback does not end with a NUL at its size %zu", n); got_cb.push_back({(int)level, std::string((char *)m, n - 1)}); }
static std::string stamp(int64_t us, int tz) { time_t t = (time_t)(us / 1000000 + tz * 3600); struct tm tm; gmtime_r(&t, &tm); char b[64]; snprintf(b, sizeof b, "%02d-%02d %02d:%02d:%02d.%03d", tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)(us / 1000 % 1000)); return b; }
static int tid5() { return (int)((long)syscall(SYS_gettid) % 100000); }
static std::string header(const Model &m, int level, const char *tag, int64_t us) {
  std::string h; if (m.format & LOG_FORMAT_WITH_TIMESTAMP) h += stamp(us, m.tz);
  if (m.format & LOG_FORMAT_WITH_TAG_LEVEL) { std::string t = tag ? tag : m.tag; if (t.size() > 22) t.resize(22); while (t.size() < 8) t += ' '; h += std::string(" ") + "0VDIWE?"[level] + "/" + t; }
  if (m.format & LOG_FORMAT_WITH_TID) { char b[16]; snprintf(b, sizeof b, syscall(SYS_gettid) > 99999 ? "(%05d)" : "(%5d)", tid5()); h += b; }
  return h.empty() ? h : h + ": ";
}
static std::string hexs(const std::string &d, size_t n) { std::string r; char b[5]; for (size_t i = 0; i < n; ++i) { snprintf(b, sizeof b, " %02x", (unsigned char)d[i]); r += b; } return r; }
// [prefix]name:line) message, where the name may be cut when it is too long
static bool match_func(const std::string &got, const std::string &head, const std::string &func, int line, const std::string &msg, bool &cut) {
  std::string tail = ":" + std::to_string(line) + ") " + msg; cut = false; if (got == head + "(" + func + tail) return true;
  if (head.size() + func.size() < 470 || got.size() < head.size() + 1 + tail.size() || got.compare(0, head.size() + 1, head + "(")) return false;
  size_t k = got.size() - head.size() - 1 - tail.size(); cut = true; return k <= func.size() && k >= 300 && got.substr(head.size() + 1, k) == func.substr(0, k) && got.substr(head.size() + 1 + k) == tail;
}
static std::string text(Case &c, size_t n) { static const char A[] = "abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789%\n\t\\"; std::string s = c.payload(n); for (auto &ch : s) ch = A[(unsigned char)ch % (sizeof A - 1)]; return s; }
static void reset() {
  xlog_auto_level_up(LOG_LEVEL_OFF); xlog_set_min_level(LOG_LEVEL_VERBOSE); xlog_set_target(LOG_TARGET_CONSOLE); xlog_set_format(LOG_FORMAT_WITH_TIMESTAMP | LOG_FORMAT_WITH_TAG_LEVEL); char t[] = "XLog"; xlog_set_default_tag(t); xlog_set_timezone(8); xlog_set_user_callback(nullptr, nullptr); xlog_set_flush_mode(LOG_FLUSH_MODE_AUTO); got_cb.clear();
}
static size_t msg_len(Case &c, size_t head) { switch (c.draw(4)) { case 0: return c.draw(40); case 1: return 505 - std::min<size_t>(505, head) + c.draw(15); case 2: return c.size(0, 700); case 3: return c.size(0, 3000); default: return c.size(0, 70000); } }

static void history(Case &c) {
  reset(); Model m; bool init = c.boolean(); if (init) PBT_EQ(xlog_global_init(), 0, "xlog_global_init"); int64_t us = 1700000000000000ll; bool filtered = false, longone = false; size_t n = c.size(1, 40); mem::start(); Capture cap;
  for (size_t i = 0; i < n; ++i) {
    Span sp(c); us += c.oneof<int64_t>({0, 0, 1000, 999999, 86400000000ll, -5000000}); vclock::set_us(us);
    switch (c.weighted({12, 2, 2, 3, 3, 2, 2, 2, 1})) {
      case 1: { int v = (int)c.irange(-1, 7); xlog_set_min_level((LogLevel)v); if (v >= 0 && v <= LOG_LEVEL_ERROR) m.min = v; PBT_EQ(xlog_get_min_level(), m.min, "xlog_get_min_level"); c.note("set_min_level(%d)", v); break; }
      case 2: { int v = (int)c.irange(0, 5); xlog_auto_level_up((LogLevel)v); m.up = v; c.note("auto_level_up(%d)", v); break; }
      case 3: { int v = c.oneof<int>({4, 8, 12, 0, 2, 14, 1, -1}); xlog_set_target(v); if (v >= 0) m.target = v; PBT_EQ(xlog_get_target(), m.target, "xlog_get_target"); c.note("set_target(%d)", v); break; }
      case 4: { int v = (int)c.irange(-1, 15); xlog_set_format(v); if (v >= 0) m.format = v; PBT_EQ(xlog_get_format(), m.format, "xlog_get_format"); c.note("set_format(%d)", v); break; }
      case 5: { std::string t = text(c, c.size(0, 40)); for (auto &ch : t) if (ch == '\n') ch = '_'; bool null = c.draw(9) == 9; std::string own = t; xlog_set_default_tag(null ? nullptr : &own[0]); if (!null) m.tag = t.substr(0, 23); c.note("set_default_tag(%s)", null ? "NULL" : quote(t).c_str()); break; }
      case 6: { int v = (int)c.irange(-14, 14); xlog_set_timezone(v); if (v >= -12 && v <= 12) m.tz = v; c.note("set_timezone(%d)", v); break; }
      case 7: { bool on = c.boolean(); xlog_set_user_callback(on ? user_cb : nullptr, on ? &cookie : nullptr); m.cb = on; c.note("set_user_callback(%s)", on ? "on" : "NULL"); break; }
      case 8: { int v = (int)c.irange(0, 1); xlog_set_flush_mode((LogFlushMode)v); m.flush = v; PBT_EQ(xlog_get_flush_mode(), v, "xlog_get_flush_mode"); c.note("set_flush_mode(%d)", v); break; }
      default: {
        int level = (int)c.oneof<int>({1, 2, 3, 4, 5, 0, 6, -1}); if (c.boolean()) level = (int)c.range(1, 5); unsigned how = (unsigned)c.weighted({4, 3, 2, 1, 1, 2, 1, 1}); std::string tagv = text(c, c.oneof<size_t>({3, 8, 7, 9, 21, 22, 23, 24, 0, 300})); const char *tag = c.draw(3) == 0 ? nullptr : tagv.c_str();
        if (how >= 2 && how != 5 && (level < 1 || level > 5)) level = 3; bool logged = m.target && m.min && level >= m.min && level < LOG_LEVEL_UNKNOWN; int shown = logged ? (m.up > level ? m.up : level) : 0; if (how == 4) tag = "facade"; if (how == 6) tag = nullptr; std::string h = logged ? header(m, shown, tag, us) : "", msg = text(c, msg_len(c, h.size())), func, want; int line = 0; bool exact = true;
        switch (how) {
          case 0: __xlog_internal_print((LogLevel)level, tag, nullptr, c.boolean() ? 7 : 0, "%s", msg.c_str()); break;
          case 1: { func = text(c, c.oneof<size_t>({5, 0, 30, 200, 400, 430, 440, 450, 460, 470, 480, 500, 511, 600, 5000}) + c.draw(10)); line = (int)c.oneof<int64_t>({1, 9, 10, 99999, 2147483647, 0, -1, 120}); std::string own = func; __xlog_internal_print((LogLevel)level, tag, own.c_str(), line, "%s", msg.c_str()); if (line > 0) exact = false; break; }
          case 2: { int a = (int)c.irange(-100, 100); double d = (double)c.irange(-1000, 1000) / 8; __xlog_internal_print((LogLevel)level, tag, nullptr, 0, "%d|%s|%.3f|%s|%c", a, msg.c_str(), d, "end", 'x'); std::string b(64, 0); b.resize((size_t)snprintf(&b[0], 64, "|%.3f|end|x", d)); msg = std::to_string(a) + "|" + msg + b; break; }
          case 3: xlog_macro(level, tag, msg.c_str()); break;
          case 4: facade(level, msg.c_str()); break;
          case 5: { std::string d = c.payload(c.draw(60)); if (level < 1 || level > 5) __xlog_internal_hex_print((LogLevel)level, tag, d.data(), d.size()); else xlog_hex(level, tag, d); msg = hexs(d, d.size()); break; }
          case 6: xlog_macro_default(level, msg.c_str()); break;
          default: line = xlog_trace(level, tag, msg.c_str()); func = "xlog_trace"; exact = false; break; }
        c.note("log level %d via %u, message of %zu bytes, header %s%s", level, how, msg.size(), quote(h).c_str(), exact ? "" : (", function of " + std::to_string(func.size()) + " bytes, line " + std::to_string(line)).c_str());
        bool con = logged && (m.target & LOG_TARGET_CONSOLE), cb = logged && (m.target & LOG_TARGET_USER_CALLBACK) && m.cb; bool any = (m.target & LOG_TARGET_CONSOLE) || (m.target & LOG_TARGET_USER_CALLBACK); if (!any) h = "";
        std::string out; if (m.flush) { off_t e = lseek(cap.fd, 0, SEEK_END); out.resize((size_t)e); if (pread(cap.fd, &out[0], out.size(), 0) < 0) {} std::string all = cap.take(); PBT_CHECK(all == out, "%zu bytes were not flushed", all.size() - out.size()); } else out = cap.take();
        bool cut = false;
        auto ok = [&](const std::string &g) { return exact ? g == h + msg : match_func(g, h, func, line, msg, cut); };
        if (!con) PBT_CHECK(out.empty(), "a filtered message was printed: %s", quote(out).c_str()); else { PBT_CHECK(!out.empty() && out.back() == '\n', "the console shows %s", quote(out).c_str()); out.pop_back(); PBT_CHECK(ok(out), "the console shows %zu bytes %s, expected %zu: header %s, message %s", out.size(), quote(out, 900).c_str(), h.size() + msg.size(), quote(h).c_str(), quote(msg).c_str()); }
        PBT_EQ(got_cb.size(), cb ? 1 : 0, "calls of the callback"); if (cb) { PBT_EQ(got_cb[0].level, shown, "level given to the callback"); PBT_CHECK(ok(got_cb[0].msg), "the callback got %s, expected header %s, message %s", quote(got_cb[0].msg, 900).c_str(), quote(h).c_str(), quote(msg).c_str()); if (con) PBT_CHECK(got_cb[0].msg == out, "console and callback got different texts"); }
        got_cb.clear(); if (!logged) filtered = true; if ((con || cb) && h.size() + msg.size() > 511) longone = true; if (cut) c.label("function name cut"); } }
  }
  std::string rest = cap.take(); PBT_CHECK(rest.empty(), "configuration calls printed %s", quote(rest).c_str()); if (init) xlog_global_cleanup(); vclock::off(); reset();
  PBT_CHECK(mem::live_blocks() == 0, "memory left behind: %s", mem::describe().c_str()); mem::stop(); if (filtered && longone) c.nontrivial();
}
// slog: console only
static void slog_history(Case &c) {
  int min = 1; fflush(stderr); int saved = dup(2), nul = memfd_create("stderr", MFD_CLOEXEC); dup2(nul, 2); close(nul); slog_set_min_level(LOG_LEVEL_VERBOSE); size_t n = c.size(1, 30); bool f = false, e = false; Capture cap; std::string err;
  for (size_t i = 0; i < n && err.empty(); ++i) {
    Span sp(c); if (c.draw(4) == 4) { int v = (int)c.irange(-1, 7); slog_set_min_level((LogLevel)v); if (v >= 0 && v <= LOG_LEVEL_ERROR) min = v; if ((int)slog_get_min_level() != min) err = "slog_get_min_level"; c.note("slog_set_min_level(%d)", v); continue; }
    int level = (int)c.range(1, 5); std::string tag = text(c, c.draw(30)), msg = text(c, c.size(0, 5000)), want, h = std::string("[") + "0VDIWE"[level] + "/" + tag + "]"; unsigned how = (unsigned)c.draw(2);
    if (how == 0) { slog_macro(level, tag.c_str(), msg.c_str()); want = h + " " + msg + "\n"; } else if (how == 1) { int l = slog_trace(level, tag.c_str(), msg.c_str()); want = h + "(slog_trace:" + std::to_string(l) + ") " + msg + "\n"; } else { std::string d = c.payload(c.draw(80)); slog_hex(level, tag.c_str(), d); want = h + " " + hexs(d, d.size()) + "\n"; }
    bool on = min && level >= min; (on ? e : f) = true; std::string out = cap.take(); c.note("slog level %d via %u", level, how); if (out != (on ? want : "")) err = "slog printed " + quote(out) + ", expected " + (on ? quote(want) : "nothing");
  }
  slog_set_min_level(LOG_LEVEL_VERBOSE); dup2(saved, 2); close(saved); if (!err.empty()) fail("%s", err.c_str()); if (e && f) c.nontrivial();
}
// stdout redirected to a file (each case in its own process)
static void redirect(Case &c) {
  bool slog = c.boolean(); std::string p = scratch() + "/out.log", p2 = scratch() + "/out2.log", want; unlink(p.c_str()); unlink(p2.c_str()); bool init = c.boolean(); if (init) lcu_global_init(); reset(); xlog_set_format(LOG_FORMAT_RAW); char empty[] = ""; if (c.boolean()) { if (slog) { slog_stdout2file(nullptr); slog_stdout2file(empty); } else { xlog_stdout2file(nullptr); xlog_stdout2file(empty); } }
  if (c.boolean()) write_file(p, "old contents that must go"); bool fl = c.boolean(); xlog_set_flush_mode(fl ? LOG_FLUSH_MODE_EVERY : LOG_FLUSH_MODE_AUTO); if (slog) slog_stdout2file(&p[0]); else xlog_stdout2file(&p[0]); size_t n = c.size(1, 20);
  for (size_t i = 0; i < n; ++i) { Span sp(c); std::string msg = text(c, c.size(0, 3000)); if (slog) { slog_macro(3, "t", msg.c_str()); want += "[I/t] " + msg + "\n"; } else { __xlog_internal_print(LOG_LEVEL_INFO, nullptr, nullptr, 0, "%s", msg.c_str()); want += msg + "\n"; if (fl) PBT_CHECK(read_file(p) == want, "after %zu flushed lines the file has %zu bytes, expected %zu", i + 1, read_file(p).size(), want.size()); } }
  fflush(stdout); c.note("%zu lines redirected to a file by %s", n, slog ? "slog" : "xlog"); std::string g = read_file(p); PBT_CHECK(g == want, "the file has %zu bytes, expected %zu", g.size(), want.size()); c.nontrivial();
}
// redirected to one file after the other and back to the console (a file stands in for the terminal)
static void switching(Case &c) {
  bool slog = c.boolean(); io::tty = scratch() + "/tty"; std::map<std::string, std::string> want; std::string cur, bad = scratch() + "/none/x.log"; bool init = c.boolean(), back = false, again = false, failed = false; for (const char *f : {"/a.log", "/b.log", "/tty"}) unlink((scratch() + f).c_str());
  fflush(stderr); int saved = dup(2), null = open("/dev/null", O_WRONLY); dup2(null, 2); close(null); if (init) lcu_global_init(); reset(); xlog_set_format(LOG_FORMAT_RAW); size_t n = c.size(2, 20);
  auto to = [&](std::string p) { if (slog) slog_stdout2file(&p[0]); else xlog_stdout2file(&p[0]); };
  for (size_t i = 0; i < n; ++i) { Span sp(c); unsigned k = i ? c.weighted({6, 3, 2, 1}) : 1;
    if (k == 0 && !cur.empty()) { std::string msg = text(c, c.size(0, 700)); c.note("log %zu bytes", msg.size()); if (slog) { slog_macro(3, "t", msg.c_str()); want[cur] += "[I/t] " + msg + "\n"; } else { __xlog_internal_print(LOG_LEVEL_INFO, nullptr, nullptr, 0, "%s", msg.c_str()); want[cur] += msg + "\n"; } }
    else if (k == 1) { std::string p = scratch() + (c.boolean() ? "/a.log" : "/b.log"); c.note("to %s", p.substr(scratch().size()).c_str()); if (!cur.empty() && cur != io::tty) again = true; if (cur != p && c.boolean()) { write_file(p, "old"); } to(p); cur = p; want[p] = ""; }
    else if (k == 2) { c.note("back"); if (slog) slog_back2stdout(); else xlog_back2stdout(); if (!cur.empty() && cur != io::tty) { cur = io::tty; want[cur] = ""; back = true; } }
    else if (k == 3) { c.note("to a file that cannot be made"); to(bad); cur = ""; failed = true; }
    if (cur.empty()) continue; fflush(stdout); PBT_CHECK(read_file(cur) == want[cur], "%s holds %s, expected %s", cur.substr(scratch().size()).c_str(), quote(read_file(cur), 200).c_str(), quote(want[cur], 200).c_str());
  }
  if (!cur.empty()) { fputs("end\n", stdout); fflush(stdout); want[cur] += "end\n"; for (auto &w : want) if (w.first == cur) PBT_CHECK(read_file(w.first) == w.second, "%s holds %s, expected %s", w.first.substr(scratch().size()).c_str(), quote(read_file(w.first), 200).c_str(), quote(w.second, 200).c_str()); }
  if (init) lcu_global_cleanup(); dup2(saved, 2); close(saved); if (failed) c.label("a redirection failed"); if (back && again) c.nontrivial();
}
static void facade_levels(Case &c) { reset(); for (int l = -1; l <= 7; ++l) { xlog_set_min_level(LOG_LEVEL_INFO); facade_min(l); PBT_EQ(xlog_get_min_level(), l >= 0 && l <= 5 ? l : 3, "minimum level after the facade call"); PBT_EQ((int)LOG_GET_MIN_LEVEL(), (int)xlog_get_min_level(), "facade level"); } reset(); c.nontrivial(); }
std::vector<Suite> suites = {{"history", history, 150000, 3000000}, {"slog", slog_history, 40000, 800000}, {"redirect", redirect, 1500, 20000, 30000, true}, {"switching", switching, 1500, 20000, 30000, true}, {"facade", facade_levels, 1, 1, 30000, false, false, true}};
