// variant: sched
#include "pbt.h"
#include "intercept.h"
#include "capture.h"
#include <algorithm>
#include <dirent.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "lcu.h"
#include "log/xlog.h"
#include "log/file_logger.h"
#include "thread/portable_thread.h"
}
using namespace pbt;

Property property = {
  "C30",
  "2-5 threads with generated scripts of log calls (lengths around the internal buffer and up to 3000, any level, plain and hex) through xlog to console, user callback and through the callback to a rotating file_logger, or straight into a "
  "file_logger with lock hooks, while one of them changes format and tag, under generated schedules in which every load, store and output call is a preemption point; non-trivial: lines of two threads alternate at least 3 times",
  "exploration", {"the library is initialised first, as documented", "sequentially consistent interleavings"}};

struct Rec { int thread, seq; bool operator<(const Rec &o) const { return thread != o.thread ? thread < o.thread : seq < o.seq; } };
static std::string body(Case &c, int t, int i, size_t n) { std::string s = "<" + std::to_string(t) + ":" + std::to_string(i) + "|", p = c.payload(n); for (auto &ch : p) ch = (char)('a' + (unsigned char)ch % 26); return s + p + ">"; }
struct Sent { std::string msg; int level; std::string tag; };
static std::map<Rec, Sent> sent; static std::vector<std::string> cb_lines; static bool in_cb; static file_logger_handle g_fl; static int g_cb_yield; static std::set<std::string> g_refused;
static void cb(LogLevel, void *m, size_t n, void *) {
  if (in_cb) fail("the callback was entered by a second thread while it was running"); in_cb = true; std::string s((char *)m, n - 1); if (((char *)m)[n - 1]) fail("a message without NUL"); if (g_cb_yield) sched::yield(); if (s != std::string((char *)m, n - 1)) fail("the message changed while the callback was running"); cb_lines.push_back(s);
  if (g_fl && file_logger_log(g_fl, m, n)) g_refused.insert(s); in_cb = false; }
// header and "<t:i|...>" of a line
static bool parse(const std::string &l, Rec &r, std::string &head) { size_t b = l.find('<'); if (b == std::string::npos || sscanf(l.c_str() + b, "<%d:%d|", &r.thread, &r.seq) != 2) return false; head = l.substr(0, b); auto it = sent.find(r); return it != sent.end() && l.substr(b) == it->second.msg; }
static bool good_header(std::string h, const Sent &s, const std::set<std::string> &tags, bool fixed, int fmt) {
  if (h.empty()) return !fixed || fmt == 0; if (h.size() < 3 || h.substr(h.size() - 2) != ": ") return false; h.resize(h.size() - 2); bool ts = false, tag = false, tid = false; int a, b, d, e, f, g, n = 0;
  if (h.size() >= 18 && sscanf(h.c_str(), "%2d-%2d %2d:%2d:%2d.%3d%n", &a, &b, &d, &e, &f, &g, &n) == 6 && n == 18) { ts = true; h = h.substr(18); }
  if (h.size() >= 7 && h[h.size() - 7] == '(' && h.back() == ')') { tid = true; h.resize(h.size() - 7); }
  if (!h.empty()) { tag = true; bool ok = false; for (std::string t : tags) { if (!s.tag.empty()) t = s.tag; while (t.size() < 8) t += ' '; ok |= h == std::string(" ") + "0VDIWE"[s.level] + "/" + t; } if (!ok) return false; }
  return !fixed || (ts == !!(fmt & LOG_FORMAT_WITH_TIMESTAMP) && tag == !!(fmt & LOG_FORMAT_WITH_TAG_LEVEL) && tid == !!(fmt & LOG_FORMAT_WITH_TID));
}
static std::vector<std::string> split(const std::string &t, const char *what) { std::vector<std::string> r; size_t b = 0; while (b < t.size()) { size_t e = t.find('\n', b); if (e == std::string::npos) fail("%s ends with the unfinished line %s", what, quote(t.substr(b)).c_str()); r.push_back(t.substr(b, e - b)); b = e + 1; } return r; }
static int check_lines(const std::vector<std::string> &lines, const char *what, const std::set<std::string> &tags, bool fixed, int fmt, bool exact, size_t missing_ok = 0) {
  std::map<int, int> last; std::set<Rec> seen; int alt = 0, prev = -1;
  for (auto &l : lines) { Rec r; std::string h; if (!parse(l, r, h)) fail("%s contains %s, which is no line that was logged", what, quote(l, 700).c_str()); if (!good_header(h, sent[r], tags, fixed, fmt)) fail("%s: line %d of thread %d has the header %s", what, r.seq, r.thread, quote(h).c_str()); if (!seen.insert(r).second) fail("%s: line %d of thread %d appears twice", what, r.seq, r.thread); auto it = last.find(r.thread); if (it != last.end() && it->second > r.seq) fail("%s: line %d of thread %d comes after line %d", what, r.seq, r.thread, it->second); last[r.thread] = r.seq; if (prev != r.thread) ++alt; prev = r.thread; }
  if (exact && seen.size() + missing_ok != sent.size()) for (auto &s : sent) if (!seen.count(s.first)) fail("%s: line %d of thread %d is missing (%zu of %zu there)", what, s.first.seq, s.first.thread, seen.size(), sent.size()); return alt; }
static std::string dir_text(const std::string &d, const std::vector<std::string> &order) { std::string t; std::set<std::string> done; for (auto &p : order) if (done.insert(p).second) t += read_file(p); return t; }
extern "C" { extern LogLevel _g_slog_min_level; }
static void reset() { _g_slog_min_level = LOG_LEVEL_OFF; xlog_auto_level_up(LOG_LEVEL_OFF); xlog_set_min_level(LOG_LEVEL_VERBOSE); xlog_set_target(LOG_TARGET_CONSOLE); xlog_set_format(LOG_FORMAT_WITH_TIMESTAMP | LOG_FORMAT_WITH_TAG_LEVEL); char t[] = "XLog"; xlog_set_default_tag(t); xlog_set_timezone(8); xlog_set_user_callback(nullptr, nullptr); xlog_set_flush_mode(LOG_FLUSH_MODE_AUTO); }

static void xlogs(Case &c) {
  sent.clear(); cb_lines.clear(); g_refused.clear(); in_cb = false; reset(); unsigned n = (unsigned)c.range(2, 5); int target = c.oneof<int>({LOG_TARGET_CONSOLE | LOG_TARGET_USER_CALLBACK, LOG_TARGET_CONSOLE, LOG_TARGET_USER_CALLBACK}), fmt = (int)c.oneof<int>({6, 0, 2, 4, 8, 14}); bool conf = c.draw(3) == 3, file = (target & LOG_TARGET_USER_CALLBACK) && c.boolean(); g_cb_yield = c.boolean(); std::set<std::string> tags = {"XLog"}; if (conf) tags.insert("another-default-tag!"); std::string dir = scratch() + "/l"; if (file) scratch_clear(); io::reset(); mem::start();
  sched::Opts o = sched::draw_opts(c); o.max_steps = 6000000; o.tick_us = c.oneof<int64_t>({0, 1, 1000, 400000}); std::string out; int fl = c.boolean(); size_t piece = c.oneof<size_t>({0, 64, 500, 3000});
  { Capture cap;
    sched::run(c, o, [&] {
      lcu_global_init(); xlog_set_target(target); xlog_set_format(fmt); xlog_set_user_callback(cb, nullptr); xlog_set_flush_mode((LogFlushMode)fl); g_fl = nullptr;
      if (file) { file_logger_cfg g; memset(&g, 0, sizeof g); snprintf(g.log_folder_path, sizeof g.log_folder_path, "%s", dir.c_str()); g.one_piece_file_max_len = piece; g.log_queue_size = 256; g_fl = file_logger_init(&g); if (!g_fl) fail("file_logger_init failed"); }
      std::vector<int> ids; for (unsigned t = 0; t < n; ++t) {
        struct L { int level; std::string msg, tag; bool sleep; int conf; }; std::vector<L> script; unsigned k = (unsigned)c.range(1, 6);
        for (unsigned i = 0; i < k; ++i) { Span sp(c); size_t len = c.oneof<size_t>({5, 460, 500, 1500}) + c.draw(40); L l; l.level = (int)c.range(1, 5); l.msg = body(c, (int)t, (int)i, len); l.tag = c.boolean() ? "tag" + std::to_string(t) : ""; l.sleep = c.draw(7) == 7; l.conf = conf && t == 0 ? (int)c.draw(3) : 0; sent[{(int)t, (int)i}] = {l.msg, l.level, l.tag}; script.push_back(l); }
        ids.push_back(sched::spawn([script, t, fmt] { for (auto &l : script) { if (l.conf == 1) xlog_set_format(fmt ^ 2); if (l.conf == 2) { char tg[] = "another-default-tag!"; xlog_set_default_tag(tg); } if (l.conf == 3) { char tg[] = "XLog"; xlog_set_default_tag(tg); xlog_set_format(fmt); } __xlog_internal_print((LogLevel)l.level, l.tag.empty() ? nullptr : l.tag.c_str(), nullptr, 0, "%s", l.msg.c_str()); if (l.sleep) sched::sleep_us(1000); } })); }
      for (int id : ids) sched::join(id); if (g_fl) { sched::settle(); file_logger_deinit(&g_fl); } lcu_global_cleanup();
    });
    out = cap.take(); }
  if (mem::live_blocks()) fail("memory left behind: %s", mem::describe().c_str()); mem::stop(); reset(); int alt = 0; bool fixed = !conf; size_t missing = 0;
  if (target & LOG_TARGET_CONSOLE) alt = check_lines(split(out, "the console"), "the console", tags, fixed, fmt, true); else if (!out.empty()) fail("the console shows %s", quote(out).c_str());
  if (target & LOG_TARGET_USER_CALLBACK) { alt = check_lines(cb_lines, "the callback", tags, fixed, fmt, true); if (target & LOG_TARGET_CONSOLE) { auto l = split(out, "the console"); for (size_t i = 0; i < l.size(); ++i) if (l[i] != cb_lines[i]) fail("line %zu is %s for the console but %s for the callback", i, quote(l[i]).c_str(), quote(cb_lines[i]).c_str()); } } else if (!cb_lines.empty()) fail("the callback was called without being a target");
  if (file) { missing = g_refused.size(); auto lines = split(dir_text(dir, io::opened()), "the log folder"); std::vector<std::string> want; for (auto &l : cb_lines) if (!g_refused.count(l)) want.push_back(l); if (lines.size() != want.size()) fail("the files have %zu lines, expected %zu", lines.size(), want.size()); std::vector<std::string> a = lines, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) fail("the files do not hold exactly the accepted lines"); check_lines(lines, "the log folder", tags, fixed, fmt, true, missing); PBT_EQ(io::open_files, 0, "files left open"); }
  if (alt >= 4) c.nontrivial(); c.label(file ? "with files" : conf ? "with configuration changes" : "plain");
}
static int m_lock(void *m) { return portable_mutex_lock((portable_mutex_t *)m); }
static int m_unlock(void *m) { return portable_mutex_unlock((portable_mutex_t *)m); }
static void files(Case &c) {
  sent.clear(); reset(); unsigned n = (unsigned)c.range(2, 5); std::string dir = scratch() + "/l"; scratch_clear(); io::reset(); mem::start(); size_t piece = c.oneof<size_t>({0, 64, 500, 3000}), q = c.oneof<size_t>({2, 8, 256}); bool keep = c.boolean(); std::set<Rec> refused; int64_t tick = c.oneof<int64_t>({1000, 0, 400000}); sched::Opts o = sched::draw_opts(c); o.max_steps = 6000000; o.tick_us = tick;
  sched::run(c, o, [&] {
    lcu_global_init(); portable_mutex_t mx = nullptr; portable_mutex_init(&mx, nullptr); file_logger_cfg g; memset(&g, 0, sizeof g); snprintf(g.log_folder_path, sizeof g.log_folder_path, "%s", dir.c_str()); g.one_piece_file_max_len = piece; g.log_queue_size = q; g.is_try_my_best_to_keep_log = keep; g.lock = {&mx, m_lock, m_unlock}; file_logger_handle h = file_logger_init(&g); if (!h) fail("file_logger_init failed"); std::vector<int> ids;
    for (unsigned t = 0; t < n; ++t) {
      std::vector<std::string> script; unsigned k = (unsigned)c.range(1, 8); for (unsigned i = 0; i < k; ++i) { Span sp(c); script.push_back(body(c, (int)t, (int)i, c.oneof<size_t>({5, 60, 400, 2040, 3000}) + c.draw(10))); sent[{(int)t, (int)i}] = {script.back(), 0, ""}; }
      ids.push_back(sched::spawn([&refused, script, t, h] { for (size_t i = 0; i < script.size(); ++i) { std::string own = script[i]; int r = file_logger_log(h, &own[0], own.size() + (t & 1)); if (r) refused.insert({(int)t, (int)i}); std::fill(own.begin(), own.end(), '#'); } })); }
    for (int id : ids) sched::join(id); sched::settle(); file_logger_deinit(&h); portable_mutex_destroy(&mx); lcu_global_cleanup(); });
  if (mem::live_blocks()) fail("memory left behind: %s", mem::describe().c_str()); mem::stop(); PBT_EQ(io::open_files, 0, "files left open"); std::vector<std::string> logs; std::string lost; for (auto &p : io::opened()) if (p.find("_lost") == std::string::npos) logs.push_back(p); else lost = read_file(p);
  std::set<Rec> in_lost; if (!lost.empty()) { std::vector<std::string> l = split(lost, "the file of lost records"); std::vector<std::string> recs; for (size_t i = 0; i < l.size(); i += 2) { if (i + 1 >= l.size() || !l[i + 1].empty()) fail("the file of lost records is mixed up"); recs.push_back(l[i]); } check_lines(recs, "the file of lost records", {"XLog"}, true, 0, false); for (auto &r : recs) { Rec x; std::string hd; parse(r, x, hd); in_lost.insert(x); } }
  if (keep) { for (auto &r : refused) if (!in_lost.count(r)) fail("record %d of thread %d was refused and is not in the file of lost records", r.seq, r.thread); if (in_lost.size() != refused.size()) fail("the file of lost records has %zu records, %zu were refused", in_lost.size(), refused.size()); } else if (!lost.empty()) fail("a file of lost records was written");
  for (auto &r : refused) sent.erase(r); int alt = check_lines(split(dir_text(dir, logs), "the log folder"), "the log folder", {"XLog"}, true, 0, true); if (alt >= 4) c.nontrivial(); if (!refused.empty()) c.label("refused records");
}
std::vector<Suite> suites = {{"xlog", xlogs, 12000, 300000}, {"file", files, 12000, 300000}};
