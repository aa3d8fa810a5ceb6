// variant: sched
#include "pbt.h"
#include "intercept.h"
#include <algorithm>
#include <ctime>
#include <dirent.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "log/file_logger.h"
}
using namespace pbt;

Property property = {
  "C31",
  "histories of log calls (texts of 0..6000 bytes, with or without final NUL), pauses in which the writing thread catches up, and clock changes (none, milliseconds, jumps back onto names used before), over generated folders (existing or not, "
  "nested, with backslashes, with or without final slash), prefixes, piece sizes, queue sizes, with and without keep-my-log and lock hooks, under generated schedules; then every file of the folder is compared with the accepted records; records of 2 to 4 GiB; "
  "non-trivial: at least two rotations, or a record was refused by the full queue",
  "exploration", {"folder paths leave room for the final slash", "records are text without NUL and newline", "the disk accepts the writes"}};

static int g_depth; static uint64_t g_acquired;
static int acq(void *) { ++g_acquired; if (g_depth++) fail("the logger's lock was taken twice"); return 0; }
static int rel(void *) { if (g_depth-- != 1) fail("the logger's lock was released while not held"); return 0; }
static std::vector<std::string> ls(const std::string &d) { std::vector<std::string> r; if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != "..") r.push_back(n); } closedir(p); } std::sort(r.begin(), r.end()); return r; }
static std::string line(Case &c, size_t i, size_t n) { if (n == 1) return std::string(1, (char)('A' + i)); std::string s = "#" + std::to_string(i) + " "; if (n <= s.size()) return s; std::string p = c.payload(n - s.size()); for (auto &ch : p) ch = (char)(33 + (unsigned char)ch % 90); return s + p; }
static std::string name_at(int64_t us) { time_t t = (time_t)(us / 1000000); struct tm tm; gmtime_r(&t, &tm); char b[64]; snprintf(b, sizeof b, "%02d%02d%02d%02d%02d.%03d", tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)(us / 1000 % 1000)); return b; }

static void history(Case &c) {
  std::string base = scratch() + "/c"; scratch_clear(); mkdir(base.c_str(), 0755);
  file_logger_cfg cfg; memset(&cfg, 0, sizeof cfg); std::string rel_dir = c.oneof<const char *>({"logs", "logs/deep/er", "a b", "x.y/z", "pad"}); if (rel_dir == "pad") { rel_dir = "p"; size_t total = 120 + c.draw(6); while (base.size() + 1 + rel_dir.size() < total) rel_dir += 'd'; } std::string dir = base + "/" + rel_dir, given = dir; if (c.draw(3) == 3) mkdir((base + "/logs").c_str(), 0755);
  if (c.draw(3) == 3) for (size_t i = base.size(); i < given.size(); ++i) if (given[i] == '/') given[i] = '\\'; if (c.boolean()) given += c.boolean() ? "/" : "\\"; snprintf(cfg.log_folder_path, sizeof cfg.log_folder_path, "%s", given.c_str()); std::string prefix = c.oneof<const char *>({"log_", "", "p", "prefix_of_thirty_one_characters"}); snprintf(cfg.log_file_name_prefix, sizeof cfg.log_file_name_prefix, "%s", prefix.c_str());
  cfg.one_piece_file_max_len = c.oneof<size_t>({64, 0, 100, 63, 1, 65, 500, 2000, 100000}); size_t max = cfg.one_piece_file_max_len < 64 ? 0 : cfg.one_piece_file_max_len; cfg.log_queue_size = c.oneof<size_t>({2, 3, 8, 64}); cfg.is_try_my_best_to_keep_log = c.boolean(); bool lock = c.boolean(); if (lock) { cfg.lock.acquire = acq; cfg.lock.release = rel; } g_depth = 0; g_acquired = 0;
  c.note("folder %s, prefix '%s', pieces of %zu, queue of %zu KiB%s", given.substr(base.size()).c_str(), prefix.c_str(), cfg.one_piece_file_max_len, cfg.log_queue_size, cfg.is_try_my_best_to_keep_log ? ", keep" : "");
  io::reset(); int64_t us = 1700000000000000ll; vclock::set_us(us); std::map<std::string, std::string> before; sched::Opts o = sched::draw_opts(c); o.max_steps = 4000000; std::vector<std::string> accepted, lost; size_t n = c.size(1, 30); bool settled_end = c.draw(4) != 4, refused = false;
  if (c.draw(3) == 3) { for (size_t i = 0; i <= dir.size(); ++i) if (i == dir.size() || dir[i] == '/') { std::string d = dir.substr(0, i); if (d.size() > base.size()) mkdir(d.c_str(), 0755); } std::string f = prefix + name_at(us) + ".log"; before[f] = "kept from before\n"; write_file(dir + "/" + f, before[f]); }
  mem::start();
  sched::run(c, o, [&] {
    file_logger_cfg own = cfg; file_logger_handle h = file_logger_init(&own); if (!h) fail("file_logger_init failed"); memset(&own, 0xEE, sizeof own); bool idle = true;
    for (size_t i = 0; i < n; ++i) {
      Span sp(c); unsigned k = c.weighted({8, 3, 3});
      if (k == 1) { sched::settle(); idle = true; continue; }
      if (k == 2) { us += c.oneof<int64_t>({1000, 0, 300, 1000000, -1000, -1000000, 86400000000ll}); vclock::set_us(us); c.note("clock %lld ms", (long long)(us / 1000)); continue; }
      size_t len; switch (c.draw(5)) { case 5: len = (size_t(1) << c.range(10, 13)) - 4 + c.draw(8); break; case 0: len = 1 + c.draw(80); break; case 1: len = max ? max - 1 - c.draw(2) : 63; break; case 2: len = c.size(0, 300); break; case 3: len = 2040 + c.draw(16); break; default: len = c.size(0, 6000); }
      std::string m = line(c, i, len); bool nul = c.boolean(), empty = c.draw(19) == 19; if (empty) m.clear(); char *buf = (char *)malloc(m.size() + nul + (empty && !nul)); memcpy(buf, m.data(), m.size()); if (nul) buf[m.size()] = 0; size_t sz = m.size() + nul; if (empty) nul = false, sz = 0;
      uint64_t a0 = g_acquired; int r = file_logger_log(h, buf, sz); c.note("log(%zu bytes) -> %d", sz, r); memset(buf, 'Z', sz); free(buf); if (g_depth) fail("the lock is still held"); if (lock && g_acquired != a0 + 1) fail("the log call did not take the lock");
      if (r == 0) { if (!m.empty()) accepted.push_back(m); } else { refused = true; if (idle && sz + 64 < cfg.log_queue_size * 512) fail("a record of %zu bytes was refused with %d by the empty queue", sz, r); if (!empty) lost.push_back(m); }
      idle = false;
    }
    if (settled_end) sched::settle(); PBT_EQ(file_logger_deinit(&h), 0, "file_logger_deinit"); if (h) fail("the handle was not cleared"); PBT_EQ(file_logger_deinit(&h), -1, "second deinit"); PBT_EQ(sched::threads_alive(), 1, "threads after deinit");
  });
  vclock::off(); if (mem::live_blocks()) fail("memory left behind: %s", mem::describe().c_str()); mem::stop(); PBT_EQ(io::open_files, 0, "files left open");
  // every file of the tree is where it belongs
  std::string top = rel_dir.substr(0, rel_dir.find('/')); for (auto &e : ls(base)) if (e != top && e != "logs") fail("something was created outside the folder: %s", e.c_str());
  std::map<std::string, std::string> files; std::string lost_name = prefix + "_lost.log", lost_text; for (auto &f : ls(dir)) { std::string t = read_file(dir + "/" + f); if (f == lost_name) { lost_text = t; continue; } if (f.compare(0, prefix.size(), prefix) || f.size() < 4 || f.substr(f.size() - 4) != ".log") fail("unexpected file %s", f.c_str()); auto b = before.find(f); if (b != before.end()) { if (t.compare(0, b->second.size(), b->second)) fail("the file %s that existed before was overwritten", f.c_str()); t = t.substr(b->second.size()); before.erase(b); if (t.empty()) continue; } files[f] = t; }
  if (!before.empty()) fail("a file that existed before is gone");
  std::string want_lost; for (auto &m : lost) want_lost += m + "\n\n"; if (cfg.is_try_my_best_to_keep_log ? lost_text != want_lost : !lost_text.empty()) fail("the file of lost records has %zu bytes, expected %zu", lost_text.size(), cfg.is_try_my_best_to_keep_log ? want_lost.size() : 0);
  // order of the pieces as they were opened
  std::vector<std::string> pieces; bool again = false; for (auto &p : io::opened()) { std::string f = p.substr(p.rfind('/') + 1); if (f == lost_name) continue; if (std::find(pieces.begin(), pieces.end(), f) != pieces.end()) again = true; else pieces.push_back(f); } std::vector<size_t> at(pieces.size()), last(pieces.size()); for (auto &f : files) if (std::find(pieces.begin(), pieces.end(), f.first) == pieces.end()) fail("file %s was not opened by the logger", f.first.c_str());
  size_t cur = 0, done = 0; for (auto &m : accepted) {
    std::string rec = m + "\n"; size_t k = 0; for (; k < pieces.size(); ++k) if (files[pieces[k]].compare(at[k], rec.size(), rec) == 0) break;
    if (k == pieces.size()) { if (settled_end) fail("record %s (number %zu of %zu accepted) is not in the files in its place", quote(m).c_str(), done, accepted.size()); break; }
    if (!again && k < cur) fail("record %s is in an earlier file than the one before it", quote(m).c_str()); cur = k; at[k] += rec.size(); last[k] = rec.size(); ++done; }
  for (size_t k = 0; k < pieces.size(); ++k) { const std::string &t = files[pieces[k]]; if (at[k] != t.size()) fail("file %s has %zu more bytes than the records belonging there: %s", pieces[k].c_str(), t.size() - at[k], quote(t.substr(at[k])).c_str()); if (again) continue; if (max && t.size() - last[k] >= max) fail("file %s has %zu bytes although the limit is %zu and its last record has %zu", pieces[k].c_str(), t.size(), max, last[k]); if (k + 1 < pieces.size() && (!max || t.size() < max)) fail("file %s was rotated at %zu bytes, the limit is %zu", pieces[k].c_str(), t.size(), max); }
  if (again) c.label("a name was used again"); if (refused) c.label("refused"); if (!settled_end) c.label("ended at once"); if (pieces.size() >= 3 || again || refused) c.nontrivial();
}
static void bad(Case &c) {
  mem::start(); PBT_CHECK(!file_logger_init(nullptr), "NULL config accepted"); file_logger_cfg g; memset(&g, 0, sizeof g); g.log_queue_size = 2; PBT_CHECK(!file_logger_init(&g), "empty folder accepted"); strcpy(g.log_folder_path, "x"); PBT_CHECK(!file_logger_init(&g), "too short folder accepted"); strcpy(g.log_folder_path, "xx"); g.log_queue_size = c.draw(1); PBT_CHECK(!file_logger_init(&g), "too small queue accepted"); g.log_queue_size = c.oneof<uint64_t>({1ull << 22, (1ull << 22) + 2, (1ull << 32) + 64, 1ull << 54, ~0ull}); PBT_CHECK(!file_logger_init(&g), "a queue of %zu KiB accepted", g.log_queue_size); PBT_EQ(file_logger_deinit(nullptr), -1, "deinit of NULL"); file_logger_handle h = nullptr; PBT_EQ(file_logger_deinit(&h), -1, "deinit of a NULL handle"); PBT_CHECK(!mem::live_blocks(), "memory left behind"); mem::stop(); c.nontrivial();
}
static void enormous(Case &c) {   // records whose length is no int (pages of zeros that were never written take no memory)
  const uint64_t two31 = 1ull << 31, two32 = 1ull << 32; std::string base = scratch() + "/c"; scratch_clear(); mkdir(base.c_str(), 0755); size_t span = two32 + 65536; char *p = (char *)mmap(nullptr, span, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) c.discard();
  size_t sz = c.oneof<uint64_t>({two31, two32}) + c.draw(40000); file_logger_cfg cfg; memset(&cfg, 0, sizeof cfg); snprintf(cfg.log_folder_path, sizeof cfg.log_folder_path, "%s/", base.c_str()); cfg.one_piece_file_max_len = 1000; cfg.log_queue_size = 8; cfg.is_try_my_best_to_keep_log = c.boolean(); c.note("record of %zu bytes", sz); std::string want;
  sched::Opts o = sched::draw_opts(c); o.max_steps = 4000000; sched::run(c, o, [&] { file_logger_handle h = file_logger_init(&cfg); if (!h) fail("file_logger_init failed"); char small[] = "small"; auto good = [&] { PBT_EQ(file_logger_log(h, small, 5), 0, "a small record"); sched::settle(); want += "small\n"; };
    if (c.boolean()) good(); if (!file_logger_log(h, p, sz)) fail("a record of %zu bytes went into a queue of 8 KiB", sz); good(); PBT_EQ(file_logger_deinit(&h), 0, "file_logger_deinit"); });
  munmap(p, span); std::string got; for (auto &f : ls(base)) if (f.find("_lost") == std::string::npos) got += read_file(base + "/" + f); if (got != want) fail("the log holds %s, expected %s", quote(got).c_str(), quote(want).c_str()); c.nontrivial();
}
std::vector<Suite> suites = {{"enormous", enormous, 20, 60}, {"history", history, 50000, 1000000}, {"bad", bad, 20, 20}};
