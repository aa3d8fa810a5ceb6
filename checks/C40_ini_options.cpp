// variant: asan
// extra: tu/ini_config.c -DCFG=0 -DBITS=70 -DMEM=0
// extra: tu/ini_config.c -DCFG=1 -DBITS=69 -DMEM=0
// extra: tu/ini_config.c -DCFG=2 -DBITS=67 -DMEM=0
// extra: tu/ini_config.c -DCFG=3 -DBITS=79 -DMEM=0
// extra: tu/ini_config.c -DCFG=4 -DBITS=87 -DMEM=0
// extra: tu/ini_config.c -DCFG=5 -DBITS=103 -DMEM=0
// extra: tu/ini_config.c -DCFG=6 -DBITS=7 -DMEM=0
// extra: tu/ini_config.c -DCFG=7 -DBITS=199 -DMEM=0
// extra: tu/ini_config.c -DCFG=8 -DBITS=71 -DMEM=0
// extra: tu/ini_config.c -DCFG=9 -DBITS=71 -DMEM=1
// extra: tu/ini_config.c -DCFG=10 -DBITS=71 -DMEM=2
// extra: tu/ini_config.c -DCFG=11 -DBITS=71 -DMEM=3
// extra: tu/ini_config.c -DCFG=12 -DBITS=71 -DMEM=4
// extra: tu/ini_config.c -DCFG=13 -DBITS=71 -DMEM=0 -DMAXLINE=40
// extra: tu/ini_config.c -DCFG=14 -DBITS=71 -DMEM=2 -DMAXLINE=40 -DINITIAL=8
// extra: tu/ini_config.c -DCFG=15 -DBITS=71 -DMEM=2 -DMAXLINE=3000 -DINITIAL=16
// extra: tu/ini_config.c -DCFG=16 -DBITS=71 -DMEM=4 -DMAXLINE=4000 -DINITIAL=3
// extra: tu/ini_config.c -DCFG=17 -DBITS=71 -DMEM=1 -DMAXLINE=40 -DINITIAL=40
// extra: tu/ini_config.c -DCFG=18 -DBITS=71 -DMEM=4 -DMAXLINE=100 -DINITIAL=64
// extra: tu/ini_config.c -DCFG=19 -DBITS=14 -DMEM=4 -DMAXLINE=97 -DINITIAL=33
// extra: tu/ini_config.c -DCFG=20 -DBITS=26 -DMEM=3 -DMAXLINE=40 -DINITIAL=20
// extra: tu/ini_config.c -DCFG=21 -DBITS=190 -DMEM=1
// extra: tu/ini_config.c -DCFG=22 -DBITS=194 -DMEM=3 -DMAXLINE=40 -DINITIAL=20
// extra: tu/ini_config.c -DCFG=23 -DBITS=6 -DMEM=4 -DINITIAL=5
// extra: tu/ini_config.c -DCFG=24 -DBITS=143 -DMEM=1 -DMAXLINE=1500
// extra: tu/ini_config.c -DCFG=25 -DBITS=81 -DMEM=1 -DMAXLINE=1500
// extra: tu/ini_config.c -DCFG=26 -DBITS=227 -DMEM=0 -DMAXLINE=40
// extra: tu/ini_config.c -DCFG=27 -DBITS=0 -DMEM=1 -DMAXLINE=40 -DINITIAL=20
// extra: tu/ini_config.c -DCFG=28 -DBITS=110 -DMEM=0 -DMAXLINE=40
// extra: tu/ini_config.c -DCFG=29 -DBITS=148 -DMEM=1 -DMAXLINE=40 -DINITIAL=20
// extra: tu/ini_config.c -DCFG=30 -DBITS=93 -DMEM=2 -DMAXLINE=40 -DINITIAL=5
// extra: tu/ini_config.c -DCFG=31 -DBITS=152 -DMEM=1 -DMAXLINE=1500
// extra: tu/ini_config.c -DCFG=32 -DBITS=212 -DMEM=0 -DMAXLINE=97
// extra: tu/ini_config.c -DCFG=33 -DBITS=135 -DMEM=1 -DMAXLINE=40 -DINITIAL=20
// extra: tu/ini_config.c -DCFG=34 -DBITS=154 -DMEM=0 -DMAXLINE=97
// extra: tu/ini_config.c -DCFG=35 -DBITS=33 -DMEM=4 -DINITIAL=33
// extra: tu/ini_parser_config.c -DCFG=0 -DBITS=70 -DMEM=0
// extra: tu/ini_parser_config.c -DCFG=1 -DBITS=69 -DMEM=0
// extra: tu/ini_parser_config.c -DCFG=2 -DBITS=67 -DMEM=0
// extra: tu/ini_parser_config.c -DCFG=3 -DBITS=79 -DMEM=0
// extra: tu/ini_parser_config.c -DCFG=4 -DBITS=87 -DMEM=0
// extra: tu/ini_parser_config.c -DCFG=5 -DBITS=103 -DMEM=0
// extra: tu/ini_parser_config.c -DCFG=6 -DBITS=7 -DMEM=0
// extra: tu/ini_parser_config.c -DCFG=7 -DBITS=199 -DMEM=0
// extra: tu/ini_parser_config.c -DCFG=8 -DBITS=71 -DMEM=0
// extra: tu/ini_parser_config.c -DCFG=11 -DBITS=71 -DMEM=3
// extra: tu/ini_parser_config.c -DCFG=12 -DBITS=71 -DMEM=4
// extra: tu/ini_parser_config.c -DCFG=19 -DBITS=14 -DMEM=4 -DMAXLINE=97 -DINITIAL=33
// extra: tu/ini_parser_config.c -DCFG=21 -DBITS=190 -DMEM=1
// extra: tu/ini_parser_config.c -DCFG=23 -DBITS=6 -DMEM=4 -DINITIAL=5
// extra: tu/ini_parser_config.c -DCFG=25 -DBITS=81 -DMEM=1 -DMAXLINE=1500
// extra: tu/ini_parser_config.c -DCFG=27 -DBITS=0 -DMEM=1 -DMAXLINE=40 -DINITIAL=20
// extra: tu/ini_parser_config.c -DCFG=29 -DBITS=148 -DMEM=1 -DMAXLINE=40 -DINITIAL=20
// extra: tu/ini_parser_config.c -DCFG=31 -DBITS=152 -DMEM=1 -DMAXLINE=1500
// extra: tu/ini_parser_config.c -DCFG=33 -DBITS=135 -DMEM=1 -DMAXLINE=40 -DINITIAL=20
// extra: tu/ini_parser_config.c -DCFG=35 -DBITS=33 -DMEM=4 -DINITIAL=33
#include "pbt.h"
#include "intercept.h"
#include "tu/ini_config.h"
extern "C" {
#include "file/ini_parser.h"
}
#include "ini_model.h"
#include <cctype>
#include <cstring>
using namespace pbt;

Property property = {
  "C40",
  "ini_reader.c built with 36 combinations of its documented build options (each option on its own, each way of holding a line, and random combinations); texts built from grammar lines and special characters, lines up to and beyond that "
  "build's maximum, handlers that fail at generated calls, allocations that fail at a generated point; parsed from a string, a FILE, a path and an fgets-style reader and compared with a reference parser that takes the options; non-trivial: at least "
  "3 handler calls and something an option decides about",
  "exploration", {"the reference grammar is applied to lines within the configured maximum length and names and sections of at most 63 characters; longer ones only have to give the same result from every source", "texts contain no NUL"}};

extern "C" {
extern const ini_config ini_config_0;
extern const ini_config ini_config_1;
extern const ini_config ini_config_2;
extern const ini_config ini_config_3;
extern const ini_config ini_config_4;
extern const ini_config ini_config_5;
extern const ini_config ini_config_6;
extern const ini_config ini_config_7;
extern const ini_config ini_config_8;
extern const ini_config ini_config_9;
extern const ini_config ini_config_10;
extern const ini_config ini_config_11;
extern const ini_config ini_config_12;
extern const ini_config ini_config_13;
extern const ini_config ini_config_14;
extern const ini_config ini_config_15;
extern const ini_config ini_config_16;
extern const ini_config ini_config_17;
extern const ini_config ini_config_18;
extern const ini_config ini_config_19;
extern const ini_config ini_config_20;
extern const ini_config ini_config_21;
extern const ini_config ini_config_22;
extern const ini_config ini_config_23;
extern const ini_config ini_config_24;
extern const ini_config ini_config_25;
extern const ini_config ini_config_26;
extern const ini_config ini_config_27;
extern const ini_config ini_config_28;
extern const ini_config ini_config_29;
extern const ini_config ini_config_30;
extern const ini_config ini_config_31;
extern const ini_config ini_config_32;
extern const ini_config ini_config_33;
extern const ini_config ini_config_34;
extern const ini_config ini_config_35;
extern const ini_parser_config ini_parser_config_0;
extern const ini_parser_config ini_parser_config_1;
extern const ini_parser_config ini_parser_config_2;
extern const ini_parser_config ini_parser_config_3;
extern const ini_parser_config ini_parser_config_4;
extern const ini_parser_config ini_parser_config_5;
extern const ini_parser_config ini_parser_config_6;
extern const ini_parser_config ini_parser_config_7;
extern const ini_parser_config ini_parser_config_8;
extern const ini_parser_config ini_parser_config_11;
extern const ini_parser_config ini_parser_config_12;
extern const ini_parser_config ini_parser_config_19;
extern const ini_parser_config ini_parser_config_21;
extern const ini_parser_config ini_parser_config_23;
extern const ini_parser_config ini_parser_config_25;
extern const ini_parser_config ini_parser_config_27;
extern const ini_parser_config ini_parser_config_29;
extern const ini_parser_config ini_parser_config_31;
extern const ini_parser_config ini_parser_config_33;
extern const ini_parser_config ini_parser_config_35;
}
static const ini_config *const configs[] = {&ini_config_0, &ini_config_1, &ini_config_2, &ini_config_3, &ini_config_4, &ini_config_5, &ini_config_6, &ini_config_7, &ini_config_8, &ini_config_9, &ini_config_10, &ini_config_11, &ini_config_12, &ini_config_13, &ini_config_14, &ini_config_15, &ini_config_16, &ini_config_17, &ini_config_18, &ini_config_19, &ini_config_20, &ini_config_21, &ini_config_22, &ini_config_23, &ini_config_24, &ini_config_25, &ini_config_26, &ini_config_27, &ini_config_28, &ini_config_29, &ini_config_30, &ini_config_31, &ini_config_32, &ini_config_33, &ini_config_34, &ini_config_35};
static const struct { unsigned config; const ini_parser_config *p; } parsers[] = {{0, &ini_parser_config_0}, {1, &ini_parser_config_1}, {2, &ini_parser_config_2}, {3, &ini_parser_config_3}, {4, &ini_parser_config_4}, {5, &ini_parser_config_5}, {6, &ini_parser_config_6}, {7, &ini_parser_config_7}, {8, &ini_parser_config_8}, {11, &ini_parser_config_11}, {12, &ini_parser_config_12}, {19, &ini_parser_config_19}, {21, &ini_parser_config_21}, {23, &ini_parser_config_23}, {25, &ini_parser_config_25}, {27, &ini_parser_config_27}, {29, &ini_parser_config_29}, {31, &ini_parser_config_31}, {33, &ini_parser_config_33}, {35, &ini_parser_config_35}};
// the line buffer of the builds that do not keep it on the stack
static long live, fail_at = -1, allocs; static bool failed;
void *ini_mem_malloc(size_t n) { if (++allocs == fail_at) { failed = true; return nullptr; } void *p = malloc(n); memset(p, 0x5a, n); ++live; return p; }
void *ini_mem_realloc(void *p, size_t n) { if (!p) return ini_mem_malloc(n); if (++allocs == fail_at) { failed = true; return nullptr; } return realloc(p, n); }
void ini_mem_free(void *p) { if (p) --live; free(p); }

struct Call { std::string s, n, v; bool hn, hv; int line; bool operator==(const Call &o) const { return s == o.s && n == o.n && v == o.v && hv == o.hv && hn == o.hn && line == o.line; } };
struct Run { std::vector<Call> calls; int result = 0; uint64_t bad; };
static bool bad_call(uint64_t bad, size_t i) { return bad && mix64(bad + i) % 7 == 0; }
static int handler(void *user, const char *s, const char *n, const char *v, int line) { Run *r = (Run *)user; if (!s) fail("the handler got a NULL section"); r->calls.push_back({s, n ? n : "", v ? v : "", n != nullptr, v != nullptr, line}); return bad_call(r->bad, r->calls.size() - 1) ? 0 : 1 + (int)(r->calls.size() % 3); }
static bool sp(char c) { return isspace((unsigned char)c); }
static std::string trim(std::string s, bool l = true, bool r = true) { size_t b = 0, e = s.size(); while (r && e > b && sp(s[e - 1])) --e; while (l && b < e && sp(s[b])) ++b; return s.substr(b, e - b); }
static bool has(const char *set, char c) { return c && strchr(set, c); }
// position of the first of chars, or of an inline comment, or the end
static size_t scan(const ini_config &k, const std::string &s, size_t i, const char *chars) { bool was = false; for (; i < s.size(); ++i) { if (has(chars, s[i])) return i; if (k.inline_comments && was && has(k.inline_prefixes, s[i])) return i; was = sp(s[i]); } return i; }
static Run reference(const ini_config &k, const std::string &text, uint64_t bad, bool &judge, bool &special) {
  Run r; r.bad = bad; std::string section, prev; int lineno = 0; judge = true;
  for (size_t i = 0; i < text.size();) {
    if (k.stop && r.result) break;
    size_t j = text.find('\n', i); std::string line = text.substr(i, j == std::string::npos ? std::string::npos : j - i); i = j == std::string::npos ? text.size() : j + 1; ++lineno;
    if (line.size() > (size_t)k.max_line - 3) { judge = false; return r; }
    if (k.bom && lineno == 1 && line.compare(0, 3, "\xef\xbb\xbf") == 0) line.erase(0, 3), special = true;
    bool lead = !line.empty() && sp(line[0]); std::string t = trim(line); auto error = [&] { special = true; if (!r.result) r.result = lineno; };
    auto call = [&](const std::string &n, bool hn, const std::string &v, bool hv) { r.calls.push_back({section, n, v, hn, hv, k.lineno ? lineno : -1}); if (bad_call(bad, r.calls.size() - 1)) error(); };
    if (t.empty()) continue;
    if (has(k.start_prefixes, t[0])) { special = true; continue; }
    if (k.multiline && !prev.empty() && lead) { special = true; call(prev, true, trim(t.substr(0, scan(k, t, 0, "")), false), true); continue; }
    if (t[0] == '[') { size_t e = scan(k, t, 1, "]"); if (e < t.size() && t[e] == ']') { section = t.substr(1, e - 1); prev.clear(); if (section.size() > 63) { judge = false; return r; } if (k.new_section) { special = true; call("", false, "", false); } } else error(); continue; }
    size_t e = scan(k, t, 0, "=:");
    if (e < t.size() && (t[e] == '=' || t[e] == ':')) { std::string n = trim(t.substr(0, e), false), v = t.substr(e + 1); v = trim(v.substr(0, scan(k, v, 0, ""))); prev = n; if (n.size() > 63) { judge = false; return r; } call(n, true, v, true); }
    else if (k.no_value) { special = true; call(trim(t.substr(0, e), false), true, "", false); }
    else error();
  }
  return r;
}
static std::string describe(const Run &r) { std::string s = "result " + std::to_string(r.result) + ":"; for (auto &c : r.calls) s += " [" + quote(c.s) + "] " + (c.hn ? quote(c.n) : std::string("NULL")) + " = " + (c.hv ? quote(c.v) : std::string("NULL")) + (c.line >= 0 ? " @" + std::to_string(c.line) : "") + ";"; return s.substr(0, 900); }
static void same(const Run &g, const Run &w, const char *a, const char *b) { if (g.result != w.result || !(g.calls == w.calls)) fail("%s gives %s\n but %s gives %s", a, describe(g).c_str(), b, describe(w).c_str()); }
struct Rd { const char *p, *e; bool fill; };
static char *reader(char *str, int num, void *st) { Rd *r = (Rd *)st; if (num < 1) fail("the reader was asked for %d bytes", num); if (r->p == r->e) return nullptr; if (r->fill) memset(str, 0x77, (size_t)num); int n = 0; while (n < num - 1 && r->p < r->e) { char ch = *r->p++; str[n++] = ch; if (ch == '\n') break; } str[n] = 0; return str; }
static std::string gen(Case &c, const ini_config &k, bool regular = false) {
  std::string t; unsigned kind = regular ? 0 : c.weighted({12, 4, 2, 3}); size_t max = (size_t)k.max_line;
  if (kind == 1) return c.str(0, 120, "a=: ;#[]\n\n\tb\r%");
  if (c.draw(5) == 5) t = "\xef\xbb\xbf"; static const std::string SPC = "  \t\r\v"; size_t n = c.size(0, 25);
  auto word = [&](size_t lo) { return c.draw(40) == 40 ? c.str(40, 63, "abK.9") : c.str(lo, 5, regular ? "abKk.9" : "abK.9[]#\"\xa0%"); };
  auto ws = [&] { return c.draw(2) ? std::string() : c.str(0, 3, SPC); };
  for (size_t i = 0; i < n; ++i) {
    Span s(c); std::string l;
    switch (regular ? (c.draw(4) ? 0 : c.oneof<unsigned>({1, 1, 2, 3, k.no_value ? 4u : 1u, 6, 7})) : c.weighted({12, 5, 3, 3, 2, 2, 2, 1})) {
      case 0: l = (regular ? "" : ws()) + word(regular) + ws() + (c.draw(3) ? "=" : ":") + ws() + c.str(0, 8, "v w=;:#[]'%") + ws(); break;
      case 1: l = ws() + "[" + word(regular) + "]" + ws() + (c.draw(4) ? "" : word(0)); break;
      case 2: l = c.str(1, 2, " \t") + c.str(0, 8, "cont ;=[#]%"); break;
      case 3: l = ws() + c.oneof<const char *>({";", "#", "%"}) + c.str(0, 6, "x=[ ]"); break;
      case 4: l = word(1) + ws(); break;
      case 5: l = "[" + word(0) + ws(); break;
      case 6: l = ws(); break;
      default: { size_t len = kind == 3 ? c.range(max - 6, max + 8) : c.range(max / 2, max - 3); if (kind == 3 && c.boolean()) len = c.range(2, 3) * max; if (kind == 3 && c.boolean()) len = (size_t)k.initial + c.draw(4) - 2; l = (c.boolean() ? "n=" : "[s] ;") + std::string(len > 6 ? len - 6 : 0, 'L'); while (l.size() < len) l += (char)('0' + l.size() % 10); } }
    if (c.draw(30) == 30) l = "\xef\xbb\xbf" + l;
    if (c.draw(9) == 9) l += c.oneof<const char *>({" ;", " #", " %", ";"}) + c.str(0, 4, "cm ="); t += l; if (i + 1 < n || c.boolean()) t += c.draw(5) == 5 ? "\r\n" : "\n";
  }
  return t;
}
static void options(Case &c) {
  const ini_config &k = *configs[c.draw(sizeof configs / sizeof *configs - 1)]; live = allocs = 0; fail_at = -1; std::string t = gen(c, k); uint64_t bad = c.draw(2) == 2 ? 1 + c.draw(1000) : 0;
  c.note("multiline %d, BOM %d, inline comments %d (%s, %s), stop on error %d, new section %d, no value %d, line number %d, %s%s%s, line %d, initially %d", k.multiline, k.bom, k.inline_comments, k.start_prefixes, k.inline_prefixes, k.stop, k.new_section, k.no_value, k.lineno, k.heap ? "heap" : "stack", k.grow ? ", grows" : "", k.custom ? ", custom functions" : "", k.max_line, k.initial);
  c.note("%s%s", quote(t, 1500).c_str(), bad ? ", some handler calls fail" : "");
  bool judge, special = false; Run w = reference(k, t, bad, judge, special), a; a.bad = bad; std::vector<char> e(t.begin(), t.end()); e.push_back(0); a.result = k.string(e.data(), handler, &a); PBT_CHECK(t == e.data(), "the text was changed");
  if (judge) same(a, w, "parsing the string", "the reference"); bool stopped = k.stop && a.result;
  PBT_CHECK(k.heap || !allocs, "a build that uses the stack allocates"); PBT_CHECK(!k.heap || allocs, "a build that uses the heap does not use its functions");
  Run b; b.bad = bad; Rd rd = {t.data(), t.data() + t.size(), c.boolean()}; b.result = k.stream(reader, &rd, handler, &b); same(b, a, "parsing from a custom reader", "parsing the string"); PBT_CHECK(stopped || rd.p == rd.e, "the stream was not read to its end");
  Run f; f.bad = bad; FILE *fp = t.empty() ? (fopen)("/dev/null", "r") : fmemopen((void *)t.data(), t.size(), "r"); if (!fp) fail("fmemopen"); f.result = k.file(fp, handler, &f); PBT_CHECK(stopped || fgetc(fp) == EOF, "the FILE was not read to its end"); (fclose)(fp); same(f, a, "parsing from a FILE", "parsing the string");
  if (c.draw(7) == 7) { std::string path = scratch() + "/r.ini"; write_file(path, t); Run p; p.bad = bad; p.result = k.path(path.c_str(), handler, &p); same(p, a, "parsing from a path", "parsing the string"); Run q; q.bad = 0; PBT_EQ(k.path((scratch() + "/missing.ini").c_str(), handler, &q), -1, "parsing a missing file"); PBT_CHECK(q.calls.empty(), "parsing a missing file called the handler"); }
  PBT_EQ(live, 0, "line buffers left");
  if (k.heap) { Run m; m.bad = bad; allocs = 0; failed = false; fail_at = 1 + (long)c.draw(3); m.result = k.string(t.c_str(), handler, &m); fail_at = -1; if (failed) { c.label("out of memory"); PBT_EQ(m.result, -2, "result when memory runs out"); PBT_CHECK(m.calls.size() <= a.calls.size() && std::equal(m.calls.begin(), m.calls.end(), a.calls.begin()), "calls made up when memory runs out"); } else same(m, a, "parsing again", "parsing the string"); PBT_EQ(live, 0, "line buffers left when memory ran out"); }
  if (k.grow && judge) for (size_t i = 0; i < t.size(); i = t.find('\n', i) == std::string::npos ? t.size() : t.find('\n', i) + 1) if (std::min(t.find('\n', i), t.size()) - i + 1 >= (size_t)k.initial) { c.label("a line that made the buffer grow"); break; }
  if (!judge) c.label("overlong"); if (a.result) c.label("with an error"); if (stopped) c.label("stopped"); if (special && a.calls.size() >= 3) c.nontrivial();
}
// ini_parser on top of each build stores what that build of the reader reports
static void parser(Case &c) {
  unsigned which = (unsigned)c.draw(sizeof parsers / sizeof *parsers - 1); const ini_config &k = *configs[parsers[which].config]; const ini_parser_config &pc = *parsers[which].p; live = allocs = 0; fail_at = -1;
  std::string t = gen(c, k, c.draw(5) != 5); if (c.draw(9)) t = "[s]\n" + t;
  c.note("build %u: multiline %d, BOM %d, inline comments %d (%s, %s), stop on error %d, new section %d, no value %d, line number %d, %s%s", parsers[which].config, k.multiline, k.bom, k.inline_comments, k.start_prefixes, k.inline_prefixes, k.stop, k.new_section, k.no_value, k.lineno, k.heap ? "heap" : "stack", k.grow ? ", grows" : ""); c.note("%s", quote(t, 1500).c_str());
  Run a; a.bad = 0; a.result = k.string(t.c_str(), handler, &a); bool good = a.result == 0, small = true; IniModel m; for (auto &x : a.calls) { if (!x.hn) continue; if (x.s.empty() || x.n.empty()) good = false; if (x.s.size() > 63 || x.n.size() > 63 || x.v.size() > 255) small = false; m.put(x.s, x.n, x.v); }
  auto compare = [&](void *p, const char *what) { IniSeen seen; PBT_EQ(pc.foreach(p, ini_seen_cb, &seen), 0, "foreach"); size_t i = 0; for (auto &s : m.s) for (auto &kv : s.kv) { PBT_CHECK(i < seen.v.size(), "%s: foreach ended after %zu of %zu pairs", what, i, m.pairs()); auto &g = seen.v[i]; PBT_CHECK(g[0] == s.name && g[1] == kv.first && g[2] == kv.second, "%s: pair %zu is [%s] %s = %s, expected [%s] %s = %s", what, i, quote(g[0]).c_str(), quote(g[1]).c_str(), quote(g[2]).c_str(), quote(s.name).c_str(), quote(kv.first).c_str(), quote(kv.second).c_str()); ++i; } PBT_EQ(seen.v.size(), i, "pairs visited"); };
  void *p = pc.parse(t.c_str()); PBT_CHECK(!!p == good, "ini_parser_parse_str %s, expected it to %s", p ? "succeeded" : "failed", good ? "succeed" : "fail"); if (p && small) compare(p, "parsed string"); if (p) pc.destroy(p);
  if (t.size() >= 6 && c.draw(5) == 5) { std::string path = scratch() + "/p.ini"; write_file(path, t); void *q = pc.parse_file(path.c_str()); PBT_CHECK(!!q == good, "ini_parser_parse_file %s", q ? "succeeded" : "failed"); if (q && small) compare(q, "parsed file"); if (q) pc.destroy(q); }
  PBT_EQ(live, 0, "line buffers left"); if (!good) c.label("refused"); if (good && m.pairs() >= 2) c.nontrivial();
}
std::vector<Suite> suites = {{"parser", parser, 300000, 3000000}, {"options", options, 1000000, 8000000}};
