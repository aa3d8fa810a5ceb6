// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "file/file_util.h"
#include "file/file_iterator.h"
#include "log/xlog.h"
}
#undef fclose
using namespace pbt;

Property property = {
  "C32",
  "in a scratch folder: read/write on descriptors with system calls that move generated short counts or fail; whole-file and line-wise reading of generated contents; sizes; mkdirs over generated trees of folders and files with paths of "
  "generated components ('.', '..', empty, over-long) and total lengths around 256; slash appending; iteration over folders with files, folders, links (also dangling), fifos and names of 1..255 bytes, stopping at a generated entry; all "
  "compared with a model of the file system; non-trivial: a short transfer, a created and an existing component, or an entry of at least two types",
  "exploration", {"run as a user allowed to do everything in its scratch folder", "lines of at most 1022 bytes for line-wise reading", "paths with '/' on this platform"}};

static int fds() { int n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }
static void enter() { scratch_clear(); if (chdir(scratch().c_str())) fail("harness: chdir"); io::reset(); io::escapes.clear(); }
static void no_escape() { if (!io::escapes.empty()) fail("the library was about to %s, outside of the given path", io::escapes[0].c_str()); PBT_EQ(io::open_files, 0, "streams left open"); }

static void rw(Case &c) {
  enter(); size_t n = c.size(0, 70000), ask = c.oneof<size_t>({n, n, n + c.draw(100), n / 2}); std::string d = c.payload(n); size_t total = 0; bool partial = false; int err_at = c.draw(4) == 4 ? (int)c.draw(5) : -1, calls = 0; unsigned mode = (unsigned)c.draw(2); bool failed = false;
  io::short_rw = [&](size_t k) -> int64_t { if (calls++ == err_at) { failed = true; return c.boolean() ? -EIO : -EINTR; } size_t m = mode == 0 ? k : mode == 1 ? 1 + c.draw(3000) : 1 + c.draw(k > 1 ? k - 1 : 0); if (calls > 60) m = k; if (m < k) partial = true; return (int64_t)std::max<size_t>(m, k ? 1 : 0); };
  if (c.boolean()) {
    int fd = open("f", O_RDWR | O_CREAT, 0600); size_t skip = c.draw(20); std::string pre(skip, 'p'); if (write(fd, pre.data(), skip) < 0) {} if (write(fd, d.data(), n) < 0) {} lseek(fd, (off_t)skip, SEEK_SET); char *b = (char *)malloc(ask); memset(b, 0x5a, ask); int r = file_util_read(fd, b, ask); total = std::min(n, ask); c.note("read(%zu of %zu bytes) -> %d", ask, n, r);
    PBT_CHECK(r >= 0 && (size_t)r <= total, "read returned %d", r); if (!failed) PBT_EQ(r, total, "file_util_read"); PBT_CHECK(!memcmp(b, d.data(), (size_t)r), "the bytes read differ"); for (size_t i = (size_t)r; i < ask; ++i) PBT_CHECK(b[i] == 0x5a, "byte %zu beyond the %d bytes read was changed", i, r); PBT_EQ(lseek(fd, 0, SEEK_CUR), (off_t)skip + r, "file position"); free(b); close(fd);
  } else {
    int fd = open("f", O_RDWR | O_CREAT | (c.boolean() ? O_APPEND : 0), 0600); char *b = (char *)malloc(n); memcpy(b, d.data(), n); int r = file_util_write(fd, b, n); c.note("write(%zu bytes) -> %d", n, r); PBT_CHECK(r >= 0 && (size_t)r <= n, "write returned %d", r); if (!failed) PBT_EQ(r, n, "file_util_write"); free(b); close(fd); std::string g = read_file("f"); PBT_CHECK(g == d.substr(0, (size_t)r), "the file has %zu bytes, expected the first %d of %zu", g.size(), r, n);
  }
  io::short_rw = nullptr; PBT_EQ(file_util_read(-1, &total, 4), 0, "read from a bad descriptor"); if (partial) c.nontrivial(); if (failed) c.label("with a failing call");
}
// Buffers of up to 7 GiB of address space, with stand-ins for the system calls, which move up to 0x7ffff000 bytes as those of Linux do.
static void giant_rw(Case &c) {
  static char *buf = (char *)mmap(nullptr, 8ull << 30, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (buf == MAP_FAILED) fail("harness: mmap");
  uint64_t ask = c.oneof<uint64_t>({0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000u, 0x17fffffffu}) + c.draw(c.boolean() ? 3 : 1000000000) - c.draw(3), avail = c.boolean() ? ask : c.draw(ask + 5), moved = 0, calls = 0; unsigned mode = (unsigned)c.draw(2); bool end = false; uint64_t fail_at = c.draw(5) ? ~0ull : c.draw(6);
  io::stand_in_rw = [&](int fd, char *b, size_t n) -> ssize_t {
    PBT_EQ(fd, 77, "descriptor"); PBT_CHECK(b == buf + moved, "a system call on byte %lld of the buffer after %llu bytes were moved", (long long)(b - buf), (unsigned long long)moved); PBT_CHECK(n <= ask - moved, "a system call on %zu bytes, %llu of %llu bytes of the buffer are left", n, (unsigned long long)(ask - moved), (unsigned long long)ask);
    if (calls++ == fail_at) { end = true; errno = EIO; return -1; } uint64_t m = std::min<uint64_t>({n, 0x7ffff000, avail - moved}); if (mode && m && calls < 200) m = 1 + c.draw((mode == 1 ? m : std::min<uint64_t>(m, 400000000)) - 1); if (!m && n) end = true; moved += m; return (ssize_t)m;
  };
  int r = c.boolean() ? file_util_read(77, buf, ask) : file_util_write(77, buf, ask); io::stand_in_rw = nullptr; c.note("%llu bytes asked, %llu possible: moved %llu in %llu calls -> %d", (unsigned long long)ask, (unsigned long long)avail, (unsigned long long)moved, (unsigned long long)calls, r);
  PBT_CHECK(r >= 0 && (uint64_t)r == moved, "%llu bytes were moved, %d returned", (unsigned long long)moved, r); if (!end && ask <= 0x7fffffff) PBT_EQ(moved, ask, "bytes moved"); if (calls > 1) c.nontrivial();
}
static void whole(Case &c) {
  enter(); int f0 = fds(); mem::start(); std::string d = c.payload(c.oneof<size_t>({0, 1, 2, 4095, 4096, 4097, (size_t)c.size(0, 100000)})); const char *p = "some file"; bool missing = c.draw(7) == 7, isdir = !missing && c.draw(7) == 7; if (isdir) mkdir(p, 0755); else if (!missing) write_file(p, d);
  char *m = (char *)1; int len = 77, r = file_util_read_all(p, &m, &len); c.note("read_all(%s) -> %d, %d bytes", missing ? "missing" : isdir ? "folder" : "file", r, len);
  if (missing || isdir || d.empty()) { PBT_CHECK(r != 0 && !m, "reading %s succeeded", missing ? "a missing file" : isdir ? "a folder" : "an empty file"); PBT_CHECK(len <= 0, "length %d was reported", len); } else { PBT_EQ(r, 0, "file_util_read_all"); PBT_EQ(len, d.size(), "reported length"); PBT_CHECK(m && !memcmp(m, d.data(), d.size()), "the contents differ"); PBT_EQ(m[len], 0, "terminator"); mem::release(m); }
  PBT_CHECK(!mem::live_blocks(), "memory left behind"); mem::stop(); char *x = (char *)1; PBT_EQ(file_util_read_all(nullptr, &x, &len), -1, "NULL path"); PBT_CHECK(!x && len == -1, "outputs for a NULL path"); x = (char *)1; PBT_EQ(file_util_read_all("", &x, &len), -1, "empty path"); PBT_EQ(file_util_read_all(p, nullptr, &len), -1, "NULL output"); PBT_EQ(file_util_read_all(p, &x, nullptr), -1, "NULL length");
  if (!isdir && !missing && c.boolean()) { if (symlink(p, "link")) fail("harness: symlink"); PBT_EQ(file_util_get_size_by_path("link"), d.size(), "file_util_get_size_by_path of a link to the file"); PBT_EQ(file_util_access("link", F_OK), 0, "file_util_access of a link"); char *lm = nullptr; int ll = 0; PBT_EQ(file_util_read_all("link", &lm, &ll), d.empty() ? -3 : 0, "file_util_read_all of a link"); if (lm) mem::release(lm); }
  if (!isdir) { PBT_EQ(file_util_get_size_by_path(p), missing ? -1 : (long)d.size(), "file_util_get_size_by_path"); PBT_EQ(!file_util_access(p, F_OK), !missing, "file_util_access"); }
  if (!isdir && !missing) { FILE *f = fopen(p, "rb"); fseek(f, (long)c.draw(d.size()), SEEK_SET); if (c.boolean()) fgetc(f); PBT_EQ(file_util_get_size_by_fs(f), d.size(), "file_util_get_size_by_fs"); PBT_EQ(ftell(f), 0, "position after it"); fclose(f); }
  if (c.draw(7) == 7) { int fd[2]; if (pipe(fd)) fail("harness: pipe"); if (write(fd[1], "abc", 3) != 3) fail("harness: write"); FILE *f = fdopen(fd[0], "rb"); PBT_CHECK(file_util_get_size_by_fs(f) < 0, "a pipe has a size"); char b[4] = {0}; PBT_EQ(fread(b, 1, 3, f), 3, "bytes left in the pipe"); PBT_CHECK(!strcmp(b, "abc"), "the contents of the pipe changed"); fclose(f); close(fd[1]); }
  if (c.draw(15) == 15) { // a sparse file whose size needs more than 31 bits
    uint64_t big = c.oneof<uint64_t>({0x80000000u, 0xffffffffu, 0x100000000u, 0x280000000u}) + c.draw(1000); write_file("big", ""); if (truncate("big", (off_t)big)) fail("harness: truncate"); char *bm = (char *)1; int bl = 5, br = file_util_read_all("big", &bm, &bl); PBT_CHECK(br != 0 && !bm && bl < 1, "file_util_read_all of %llu bytes: %d, length %d", (unsigned long long)big, br, bl);
    PBT_EQ(file_util_get_size_by_path("big"), big, "file_util_get_size_by_path"); FILE *f = fopen("big", "rb"); PBT_EQ(file_util_get_size_by_fs(f), big, "file_util_get_size_by_fs"); PBT_EQ(ftell(f), 0, "position after it"); fclose(f); c.label("more than 2 GiB");
  }
  PBT_CHECK(file_util_get_size_by_fs(nullptr) < 0, "size of NULL"); no_escape(); PBT_EQ(fds(), f0, "descriptors left open"); if (d.size() > 4000) c.nontrivial();
}
struct Line { int num; std::string text; };
static std::vector<Line> g_lines; static int g_stop, g_ret;
static int on_line(int n, char *t, void *u) { if (u != &g_lines) fail("other user data"); g_lines.push_back({n, t}); memset(t, 'X', strlen(t)); return (int)g_lines.size() == g_stop ? g_ret : 0; }
static void lines(Case &c) {
  enter(); std::string text; std::vector<Line> want; size_t n = c.size(0, 30); bool too_long = c.draw(19) == 19; bool cr = false;
  for (size_t i = 0; i < n; ++i) {
    Span sp(c); size_t len; switch (c.draw(3)) { case 0: len = c.draw(20); break; case 1: len = c.draw(1019); break; case 2: len = 1000 + c.draw(19); break; default: len = 0; } if (too_long) len += c.draw(3000); std::string s = c.payload(len); for (auto &ch : s) { static const char A[] = "abcxyz0123 \t#;=\xc3\xa4\xff\v"; ch = A[(unsigned char)ch % (sizeof A - 1)]; } size_t ws = c.draw(3); if (s.size() >= ws) for (size_t k = 0; k < ws; ++k) s[k] = c.oneof<char>({' ', '\t', '\v', '\f'}); bool last = i + 1 == n && c.boolean(), crl = c.draw(3) == 3; if (crl) cr = true;
    if (crl && !last) s += '\r'; text += s + (last ? "" : "\n"); if (crl && !last) s.pop_back(); if (!s.empty() && s.back() == '\r') s.pop_back(); size_t b = s.find_first_not_of(" \t\v\f\r\n"); if (b != std::string::npos) want.push_back({(int)i, s.substr(b)});
  }
  write_file("t", text); g_lines.clear(); g_stop = c.boolean() ? 0 : (int)c.range(1, 10); g_ret = (int)c.oneof<int64_t>({1, -1, 42}); int r = file_util_read_txt("t", on_line, &g_lines); c.note("%zu lines, %zu bytes, stop at %d -> %d, %zu calls", n, text.size(), g_stop, r, g_lines.size());
  if (too_long) { no_escape(); return; }
  bool stopped = g_stop && (size_t)g_stop <= want.size(); if (stopped) want.resize((size_t)g_stop); PBT_EQ(r, stopped ? g_ret : 0, "return value"); PBT_EQ(g_lines.size(), want.size(), "lines handled");
  for (size_t i = 0; i < want.size(); ++i) { PBT_EQ(g_lines[i].num, want[i].num, "line number"); PBT_CHECK(g_lines[i].text == want[i].text, "line %d is %s, expected %s", want[i].num, quote(g_lines[i].text).c_str(), quote(want[i].text).c_str()); }
  PBT_CHECK(file_util_read_txt("missing", on_line, &g_lines) != 0, "a missing file was read"); no_escape(); if (want.size() > 2 && cr) c.nontrivial();
}
// lexical model of a tree without links
struct Tree { std::set<std::string> dirs{""}, files; };
static void scan(const std::string &d, const std::string &rel, Tree &t) { if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string r = rel.empty() ? n : rel + "/" + n; struct stat st; lstat((d + "/" + n).c_str(), &st); if (S_ISDIR(st.st_mode)) { t.dirs.insert(r); scan(d + "/" + n, r, t); } else t.files.insert(r); } closedir(p); } }
static void mkdirs(Case &c) {
  enter(); Tree t; size_t pre = c.draw(4); for (size_t i = 0; i < pre; ++i) { std::string d = t.dirs.empty() ? "" : *std::next(t.dirs.begin(), (long)c.draw(t.dirs.size() - 1)), n = (d.empty() ? "" : d + "/") + c.oneof<const char *>({"a", "b", "cc", "d.e"}); if (t.dirs.count(n) || t.files.count(n)) continue; if (c.draw(3) == 3) { t.files.insert(n); write_file(n, "x"); } else { t.dirs.insert(n); mkdir(n.c_str(), 0755); } }
  std::string path; std::vector<std::string> comp; size_t n = c.size(0, 8); bool abs = c.draw(3) == 3; bool slash = c.draw(3) != 3; std::vector<std::string> resolved; bool ok = true, made = false, there = false; Tree w = t; size_t target = 0; if (c.draw(2) == 2) target = (size_t)c.oneof<int64_t>({256, 255, 257, 254, 258, 300, 1000, 5000});
  if (abs) { path = scratch() + "/"; }
  for (size_t i = 0; i < n; ++i) comp.push_back(c.oneof<const char *>({"a", "b", "cc", "d.e", ".", "..", "", "new dir", "x"}));
  if (target) while (true) { size_t l = path.size() + (slash ? 0 : 0); for (auto &x : comp) l += x.size() + 1; if (!slash) --l; if (l >= target || l + 2 > target) { if (l > target && !comp.empty() && comp.back().size() > l - target) comp.back().resize(comp.back().size() - (l - target)); break; } comp.push_back(std::string(std::min<size_t>(target - l - 1, c.oneof<size_t>({60, 100, 255, 20})), 'q')); }
  for (size_t i = 0; i < comp.size(); ++i) { path += comp[i]; if (i + 1 < comp.size() || slash) path += '/'; }
  { size_t b = path.find_first_not_of('/'); if (!abs && !path.empty() && b != 0) path = "./" + path; } if (path.find("..") != std::string::npos) { int depth = 0; for (auto &x : comp) { depth += x == ".." ? -1 : (x == "." || x.empty()) ? 0 : 1; if (depth < 0) { c.discard(); return; } } }
  // model: every component that is followed by a slash
  if (path.size() > 256) ok = false; else for (size_t i = 0; i < comp.size() && ok; ++i) {
    if (i + 1 == comp.size() && !slash) break; const std::string &x = comp[i]; if (x.empty() || x == ".") continue; if (x == "..") { resolved.pop_back(); continue; } resolved.push_back(x); std::string r; for (auto &y : resolved) r += (r.empty() ? "" : "/") + y;
    if (x.size() > 255 || w.files.count(r)) { ok = false; break; } if (w.dirs.count(r)) there = true; else { w.dirs.insert(r); made = true; } }
  char *own = strdup(path.c_str()); int r = file_util_mkdirs(own); c.note("mkdirs(%zu characters: %s) -> %d", path.size(), quote(path, 300).c_str(), r); PBT_EQ(r == 0, ok, "mkdirs succeeded"); PBT_CHECK(path == own, "the path was changed"); free(own);
  Tree g; scan(".", "", g); for (auto &d : w.dirs) PBT_CHECK(g.dirs.count(d), "folder %s is missing", quote(d).c_str()); for (auto &d : g.dirs) PBT_CHECK(w.dirs.count(d), "folder %s was created although not asked for", quote(d).c_str()); PBT_CHECK(g.files == w.files, "the files changed"); no_escape();
  if (ok && c.boolean()) PBT_EQ(file_util_mkdirs(path.c_str()), 0, "mkdirs of an existing path"); PBT_CHECK(file_util_mkdirs(nullptr) != 0, "NULL accepted"); if (made && there) c.nontrivial(); c.label(!ok ? "refused" : made ? "created" : "nothing to do");
}
static void slash(Case &c) {
  size_t size = c.size(3, 40), max = size - 1; std::string s = c.str(0, max, "ab/\\ ."); char *b = (char *)malloc(size); memset(b, 0x5a, size); memcpy(b, s.c_str(), s.size() + 1); int r = file_util_append_slash_on_path_if_needed(b, size); std::string t = s; while (!t.empty() && t.back() == ' ') t.pop_back(); c.note("append_slash(%s, %zu) -> %d %s", quote(s).c_str(), size, r, quote(b, strnlen(b, size)).c_str());
  PBT_CHECK(strnlen(b, size) < size, "not terminated");
  if (t.empty()) { PBT_CHECK(r != 0, "a blank path was accepted"); PBT_CHECK(s == b, "a blank path was changed"); } else if (t.back() == '/' || t.back() == '\\') { PBT_EQ(r, 0, "return value"); PBT_CHECK(s == b || t == b, "a path that ends with a slash was changed to %s", quote(b, strlen(b)).c_str()); } else if (t.size() + 1 < size) { PBT_EQ(r, 0, "return value"); std::string w = t + (s.find('\\') != std::string::npos ? '\\' : '/'); PBT_CHECK(w == b, "the path is %s, expected %s", quote(b, strlen(b)).c_str(), quote(w).c_str()); c.nontrivial(); } else c.label("no room");
  free(b); PBT_CHECK(file_util_append_slash_on_path_if_needed(nullptr, 9) != 0, "NULL accepted");
}
struct Seen { std::string name; int type; uint64_t ino, size; };
static std::vector<Seen> seen; static std::string g_dir; static size_t stop_at;
static int on_file(file_info_t *i, void *u) { if (u != &seen) fail("other user data"); if (g_dir != i->dir) fail("the callback was told folder %s instead of %s", i->dir, g_dir.c_str()); seen.push_back({i->name, i->type, (uint64_t)i->p_stat->st_ino, (uint64_t)i->p_stat->st_size}); return seen.size() == stop_at ? 7 : 0; }
static void iterate(Case &c) {
  enter(); mkdir("d", 0755); std::string dir = "d", deep; if (c.draw(3) == 3) { size_t k = 1 + c.draw(5); for (size_t i = 0; i < k; ++i) { dir += "/" + std::string(c.oneof<size_t>({1, 60, 250}), (char)('a' + i)); mkdir(dir.c_str(), 0755); } }
  if (chdir(dir.c_str())) fail("harness: chdir"); std::map<std::string, int> want; std::set<std::string> dangling, names; size_t n = c.size(0, 25); std::set<int> types;
  for (size_t i = 0; i < n; ++i) {
    Span sp(c); std::string nm; switch (c.draw(4)) { case 0: nm = "f" + std::to_string(i); break; case 1: nm = std::string(c.oneof<const char *>({".a", "..", "...", "..b", "a.", ".", "b", "- x", "\xc3\xa4"})); break; case 2: nm = std::string(255, (char)('a' + i % 26)); break; default: nm = c.str(1, 4, ".ab \\\"%sn"); } if (nm == "." || nm == ".." || names.count(nm)) nm = "z" + std::to_string(i); names.insert(nm);
    switch (c.weighted({5, 4, 1, 1, 2, 1})) { case 1: mkdir(nm.c_str(), 0755); if (c.boolean()) write_file(nm + "/inner", "x"); want[nm] = 1; break; case 2: if (symlink(".", nm.c_str())) {} want[nm] = 1; break; case 3: write_file("../../target", "abc"), write_file(scratch() + "/target", "abc"); if (symlink((scratch() + "/target").c_str(), nm.c_str())) {} want[nm] = 0; break; case 4: if (symlink("nowhere/at all", nm.c_str())) {} dangling.insert(nm); break; case 5: mkfifo(nm.c_str(), 0600); want[nm] = 0; break; default: write_file(nm, c.payload(c.draw(3) ? c.draw(5000) : 0)); want[nm] = 0; }
  }
  for (auto &x : want) types.insert(x.second); if (chdir(scratch().c_str())) fail("harness: chdir"); unlink("target.x"); g_dir = c.boolean() ? dir : c.boolean() ? dir + "/" : scratch() + "/" + dir; stop_at = c.boolean() ? 0 : (size_t)c.range(1, 20); seen.clear(); int f0 = fds(); mem::start(); char *own = strdup(g_dir.c_str()); int r = file_iterator_foreach(own, on_file, &seen); c.note("%zu entries (%zu dangling) in a path of %zu characters, stop at %zu -> %d, %zu calls", names.size(), dangling.size(), g_dir.size(), stop_at, r, seen.size());
  PBT_EQ(r, 0, "file_iterator_foreach"); PBT_CHECK(g_dir == own, "the path was changed"); free(own); PBT_EQ(fds(), f0, "descriptors left open"); PBT_CHECK(!mem::live_blocks(), "memory left behind"); mem::stop(); std::set<std::string> got;
  size_t regular = 0; for (auto &s : seen) { if (dangling.count(s.name)) { if (!got.insert(s.name).second) fail("%s was visited twice", quote(s.name).c_str()); continue; } ++regular; auto it = want.find(s.name); PBT_CHECK(it != want.end(), "%s was visited, which is not there", quote(s.name).c_str()); PBT_CHECK(got.insert(s.name).second, "%s was visited twice", quote(s.name).c_str()); PBT_EQ(s.type, it->second ? FILE_ITERATOR_TYPE_DIR : FILE_ITERATOR_TYPE_FILE, "type"); struct stat st; if (stat((g_dir + "/" + s.name).c_str(), &st)) fail("harness: stat"); PBT_CHECK(st.st_ino == s.ino && (uint64_t)st.st_size == s.size, "the stat data of %s differ", quote(s.name).c_str()); }
  if (stop_at && seen.size() >= stop_at) PBT_EQ(seen.size(), stop_at, "entries visited when asked to stop"); else for (auto &x : want) PBT_CHECK(got.count(x.first), "%s was not visited", quote(x.first).c_str());
  char miss[] = "missing"; size_t k = seen.size(); PBT_CHECK(file_iterator_foreach(miss, on_file, &seen) != 0, "a missing folder was iterated"); write_file("plain", "x"); char pl[] = "plain"; PBT_CHECK(file_iterator_foreach(pl, on_file, &seen) != 0, "a file was iterated"); PBT_EQ(seen.size(), k, "callbacks for no folder"); PBT_EQ(fds(), f0, "descriptors left open"); if (types.size() > 1) c.nontrivial(); if (!dangling.empty()) c.label("with a dangling link"); no_escape();
}
static struct Init { Init() { xlog_set_min_level(LOG_LEVEL_OFF); } } init_;
std::vector<Suite> suites = {{"rw", rw, 8000, 200000}, {"giant_rw", giant_rw, 4000, 200000}, {"whole", whole, 8000, 200000}, {"lines", lines, 10000, 300000}, {"mkdirs", mkdirs, 15000, 400000}, {"slash", slash, 100000, 2000000}, {"iterate", iterate, 5000, 150000}};
