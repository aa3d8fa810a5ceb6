// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#undef strdup
extern "C" {
#include "file/ini_parser.h"
}
#include "ini_model.h"
using namespace pbt;

Property property = {
  "C24",
  "stores of generated sections, keys and values (any bytes the format can represent, lengths up to the limits, empty values, after deletions) dumped to a string, to caller memory of any size and to a file (also over an older, longer file), and "
  "parsed again; saves into /dev/full, with a failing fopen or fwrite and with the disk filling up at a generated position; non-trivial: at least 2 sections and 4 pairs were parsed back, or a write fault hit",
  "exploration", {"names are kept in their first 63, values in their first 255 characters; they are without line breaks, surrounding whitespace or what the format reads as comment or separator", "sections without keys need not survive the round trip", "saving a store without sections is refused"}};

static std::string clean(std::string s, const char *bad, const char *bad_first, bool trim, char r) {
  bool sp = false; for (size_t i = 0; i < s.size(); ++i) { char &ch = s[i]; if (!ch || ch == '\n' || strchr(bad, ch) || (i == 0 && strchr(bad_first, ch)) || (sp && ch == ';')) ch = r; if (trim && (i == 0 || i + 1 == s.size()) && isspace((unsigned char)ch)) ch = r; sp = isspace((unsigned char)ch); }
  return s;
}
static ini_parser_handle make(Case &c, IniModel &m) {
  ini_parser_handle p = ini_parser_create(); PBT_CHECK(p, "ini_parser_create failed"); size_t n = c.size(0, c.thorough ? 150 : 40); std::vector<std::string> secs; size_t ns = c.size(1, 8);
  for (size_t i = 0; i < ns; ++i) secs.push_back(clean(c.boolean() ? c.str(1, 3, "ab S") : c.payload(c.draw(5) == 5 ? c.range(60, 70) : c.size(1, 20)), "]", "", false, 's'));
  for (size_t i = 0; i < n; ++i) {
    Span sp(c); const std::string &s = c.pick(secs); std::string k = clean(c.boolean() ? c.str(1, 3, "kK.[ #;") : c.payload(c.draw(5) == 5 ? c.range(60, 70) : c.size(1, 20)), "=:", "[;#", true, 'k'), v = clean(c.boolean() ? c.str(0, 6, "v =:;#[]\t\"") : c.payload(c.draw(5) == 5 ? c.range(250, 260) : c.size(0, 40)), "", ";", true, 'v');
    if (k.size() > 62 && isspace((unsigned char)k[62])) k[62] = 'k'; if (v.size() > 254 && isspace((unsigned char)v[254])) v[254] = 'v';   // the last character that is kept
    if (c.draw(9) == 9 && m.s.size()) { auto &x = m.s[c.draw(m.s.size() - 1)]; std::string sn = x.name; if (c.boolean() && x.kv.size()) { std::string kn = x.kv[c.draw(x.kv.size() - 1)].first; PBT_EQ(ini_parser_delete_by_section_key(p, sn.c_str(), kn.c_str()), 0, "delete"); m.erase(sn, kn); } else { PBT_EQ(ini_parser_delete_section(p, sn.c_str()), 0, "delete section"); m.erase(sn); } continue; }
    PBT_EQ(ini_parser_put_string(p, s.c_str(), k.c_str(), v.c_str()), 0, "put"); m.put(s, k, v);
  }
  return p;
}
static IniModel without_empty(const IniModel &m) { IniModel r; for (auto &s : m.s) if (!s.kv.empty()) r.s.push_back(s); return r; }
static void reparse(ini_parser_handle q, const IniModel &m, const char *what) { PBT_CHECK(q, "%s cannot be parsed", what); ini_compare(q, without_empty(m), what); ini_parser_destroy(&q); }
static std::string dump(ini_parser_handle p, Case &c) { char *t = ini_parser_dump(p); PBT_CHECK(t, "ini_parser_dump returned NULL"); std::string s = t; mem::release(t); c.note("dump -> %s", quote(s, 600).c_str()); return s; }

static void text(Case &c) {
  mem::start(); io::reset(); IniModel m; ini_parser_handle p = make(c, m); std::string t = dump(p, c); reparse(ini_parser_parse_str(t.c_str()), m, "the dumped text");
  // the store itself did not change, and dumping it again gives the same
  ini_compare(p, m, "the store after dump"); PBT_CHECK(dump(p, c) == t, "a second dump gives another text");
  // a parsed dump dumps to the same text (up to empty sections)
  ini_parser_handle q = ini_parser_parse_str(t.c_str()); std::string t2 = dump(q, c); reparse(ini_parser_parse_str(t2.c_str()), m, "the dump of the parsed dump"); ini_parser_destroy(&q);
  // dump_to_mem
  size_t n = c.oneof<size_t>({t.size() + 1, t.size(), t.size() + 2, t.size() / 2, 0, 2 * t.size() + 512 + 80 * 300, t.size() + 64}), given = n; char *o = (char *)malloc(n ? n : 1); memset(o, 0x5a, n ? n : 1); int r = ini_parser_dump_to_mem(p, o, &n); c.note("dump_to_mem(%zu) -> %d, %zu", given, r, n);
  if (r == INI_PARSER_CODE_SUCCEED) { PBT_EQ(n, t.size() + 1, "dump_to_mem: reported size"); PBT_CHECK(given >= n && t == o, "dump_to_mem gives another text than dump"); for (size_t i = n; i < given; ++i) PBT_CHECK(o[i] == 0x5a, "dump_to_mem wrote behind the reported size"); }
  else { PBT_CHECK(t.empty() || given < 2 * t.size() + 512 + 80 * 300, "dump_to_mem of %zu characters failed (%d) with room for %zu", t.size(), r, given); for (size_t i = 0; i < given; ++i) PBT_CHECK(o[i] == 0x5a, "dump_to_mem failed but wrote"); }
  free(o); ini_parser_destroy(&p); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (m.s.size() > without_empty(m).s.size()) c.label("with an empty section"); if (m.s.size() >= 2 && m.pairs() >= 4) c.nontrivial();
}
static void file(Case &c) {
  mem::start(); io::reset(); int64_t open0 = io::open_files; IniModel m; ini_parser_handle p = make(c, m); std::string t = dump(p, c), path = scratch() + "/t.ini"; bool old = c.boolean(); unlink(path.c_str()); if (old) write_file(path, std::string(c.size(0, 20000), 'z') + "\n[z]\nz=z\n");
  unsigned fault = c.weighted({10, 2, 2, 4, 4}); std::string target = fault == 1 ? "/dev/full" : path; struct rlimit rl, old_rl; size_t lim = 0; bool none = m.s.empty();
  if (fault == 2) io::fail_fopen_at(1); if (fault == 3) io::fail_fwrite_at(1);
  if (fault == 4 && !t.empty()) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old_rl); rl = old_rl; lim = c.draw(t.size() - 1); rl.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &rl); }
  int r = ini_parser_save(p, target.c_str()); if (fault == 4 && !t.empty()) setrlimit(RLIMIT_FSIZE, &old_rl); bool hit = fault == 1 || fault == 4 || io::delivered(); io::fail_fopen_at(0); io::fail_fwrite_at(0);
  c.note("save of %zu characters%s, fault %u (room for %zu) -> %d", t.size(), old ? " over an older file" : "", fault, lim, r); PBT_EQ(io::open_files, open0, "files left open by ini_parser_save");
  if (none) { PBT_CHECK(r != INI_PARSER_CODE_SUCCEED, "saving nothing succeeded"); }
  else if (hit) { PBT_CHECK(r != INI_PARSER_CODE_SUCCEED, "ini_parser_save reported success although not everything could be written (fault %u)", fault); c.label("write fault"); c.nontrivial(); }
  else {
    PBT_EQ(r, INI_PARSER_CODE_SUCCEED, "ini_parser_save"); PBT_CHECK(read_file(path) == t, "the saved file is not the dumped text"); ini_parser_handle q = ini_parser_parse_file(path.c_str()); if (q || m.pairs() || t.size() >= 6) reparse(q, m, "the saved file"); PBT_EQ(io::open_files, open0, "files left open by ini_parser_parse_file");
    if (m.s.size() >= 2 && m.pairs() >= 4) c.nontrivial();
  }
  ini_compare(p, m, "the store after save");
  if (hit && !none && c.boolean()) { PBT_EQ(ini_parser_save(p, path.c_str()), INI_PARSER_CODE_SUCCEED, "save after a failed save"); PBT_CHECK(read_file(path) == t, "the file saved after a failed save is not the dumped text"); }
  ini_parser_destroy(&p); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (old) c.label("over an older file");
}
std::vector<Suite> suites = {{"text", text, 160000, 2000000}, {"file", file, 80000, 800000}};
