// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <cctype>
#undef strdup
extern "C" {
#include "file/ini_reader.h"
#include "file/ini_parser.h"
}
#include "ini_model.h"
using namespace pbt;

Property property = {
  "C25",
  "texts built from grammar lines (sections, pairs with '=' and ':', names without value, comments, inline comments, continuation lines, broken sections, blanks, BOM, CRLF, missing last newline), random characters over the grammar's "
  "special characters and raw bytes, lines up to and beyond the documented maximum, handlers that fail at generated calls; parsed from a string, a FILE, a path and an fgets-style reader and compared with a reference parser; non-trivial: at least "
  "3 handler calls and a comment, continuation, error or name without value",
  "exploration", {"the reference grammar is applied to lines within the documented maximum length and names and sections of at most 63 characters; longer ones only have to give the same result from every source", "texts contain no NUL"}};

struct Call { std::string s, n, v; bool hv; bool operator==(const Call &o) const { return s == o.s && n == o.n && v == o.v && hv == o.hv; } };
struct Run { std::vector<Call> calls; int result = 0; uint64_t bad; };
static bool bad_call(uint64_t bad, size_t i) { return bad && mix64(bad + i) % 7 == 0; }
static int handler(void *user, const char *s, const char *n, const char *v) { Run *r = (Run *)user; if (!s || !n) fail("the handler got a NULL section or name"); r->calls.push_back({s, n, v ? v : "", v != nullptr}); return bad_call(r->bad, r->calls.size() - 1) ? 0 : 1 + (int)(r->calls.size() % 3); }
static bool sp(char c) { return isspace((unsigned char)c); }
static std::string trim(std::string s, bool l = true, bool r = true) { size_t b = 0, e = s.size(); while (r && e > b && sp(s[e - 1])) --e; while (l && b < e && sp(s[b])) ++b; return s.substr(b, e - b); }
// position of the first of chars, or of a ';' after whitespace, or the end
static size_t scan(const std::string &s, size_t i, const char *chars) { bool was = false; for (; i < s.size(); ++i) { if (*chars && strchr(chars, s[i])) return i; if (was && s[i] == ';') return i; was = sp(s[i]); } return i; }
static Run reference(const std::string &text, uint64_t bad, bool &judge, bool &special) {
  Run r; r.bad = bad; std::string section, prev; int lineno = 0; judge = true;
  for (size_t i = 0; i < text.size();) {
    size_t j = text.find('\n', i); std::string line = text.substr(i, j == std::string::npos ? std::string::npos : j - i); i = j == std::string::npos ? text.size() : j + 1; ++lineno;
    if (line.size() > INI_MAX_LINE - 3) { judge = false; return r; }
    if (lineno == 1 && line.compare(0, 3, "\xef\xbb\xbf") == 0) line.erase(0, 3);
    bool lead = !line.empty() && sp(line[0]); std::string t = trim(line); auto error = [&] { special = true; if (!r.result) r.result = lineno; };
    auto call = [&](const std::string &n, const std::string &v, bool hv) { r.calls.push_back({section, n, v, hv}); if (bad_call(bad, r.calls.size() - 1)) error(); };
    if (t.empty()) continue;
    if (t[0] == ';' || t[0] == '#') { special = true; continue; }
    if (!prev.empty() && lead) { special = true; call(prev, trim(t.substr(0, scan(t, 0, "")), false), true); continue; }
    if (t[0] == '[') { size_t e = scan(t, 1, "]"); if (e < t.size() && t[e] == ']') { section = t.substr(1, e - 1); prev.clear(); if (section.size() > 63) { judge = false; return r; } } else error(); continue; }
    size_t e = scan(t, 0, "=:");
    if (e < t.size() && t[e] != ';') { std::string n = trim(t.substr(0, e), false), v = t.substr(e + 1); v = trim(v.substr(0, scan(v, 0, ""))); prev = n; if (n.size() > 63) { judge = false; return r; } call(n, v, true); }
    else { special = true; call(trim(t.substr(0, e), false), "", false); }
  }
  return r;
}
static std::string describe(const Run &r) { std::string s = "result " + std::to_string(r.result) + ":"; for (auto &c : r.calls) s += " [" + quote(c.s) + "] " + quote(c.n) + " = " + (c.hv ? quote(c.v) : std::string("NULL")) + ";"; return s.substr(0, 900); }
static void same(const Run &g, const Run &w, const char *a, const char *b) { if (g.result != w.result || !(g.calls == w.calls)) fail("%s gives %s\n but %s gives %s", a, describe(g).c_str(), b, describe(w).c_str()); }

struct Rd { const char *p, *e; bool fill; };
static char *reader(char *str, int num, void *st) { Rd *r = (Rd *)st; if (num < 2) fail("the reader was asked for %d bytes", num); if (r->fill) memset(str, 0x77, (size_t)num); if (r->p == r->e) return nullptr; int n = 0; while (n < num - 1 && r->p < r->e) { char ch = *r->p++; str[n++] = ch; if (ch == '\n') break; } str[n] = 0; return str; }

static std::string gen(Case &c, bool regular = false) {
  std::string t; unsigned kind = regular ? 0 : c.weighted({12, 4, 2, 1});
  if (kind == 1) return c.str(0, 120, "a=: ;#[]\n\n\tb\r");
  if (kind == 2) { t = c.payload(c.size(0, 300)); for (char &ch : t) { if (!ch) ch = '\n'; unsigned char u = (unsigned char)ch; if (u > 200) ch = "=:;#[]\n \t\r"[u % 10]; } return t; }
  if (c.draw(5) == 5) t = "\xef\xbb\xbf"; static const std::string SPC = "  \t\r\v"; size_t n = c.size(0, c.thorough ? 60 : 25);
  auto word = [&](size_t lo) { return c.draw(40) == 40 ? c.payload(c.range(40, 63)) : c.str(lo, 5, regular ? "abKk.9" : "abK.9[]#\"\xa0"); };
  auto ws = [&] { return c.draw(2) ? std::string() : c.str(0, 3, SPC); };
  for (size_t i = 0; i < n; ++i) {
    Span s(c); std::string l;
    switch (regular ? (c.draw(4) ? 0 : c.oneof<unsigned>({1, 2, 3, 4, 6, 7})) : c.weighted({12, 5, 3, 3, 2, 2, 2, 1})) {
      case 0: l = (regular ? "" : ws()) + word(regular) + ws() + (c.draw(3) ? "=" : ":") + ws() + c.str(0, 8, "v w=;:#[]'") + ws(); break;
      case 1: l = ws() + "[" + word(regular) + "]" + ws() + (c.draw(4) ? "" : word(0)); break;
      case 2: l = c.str(1, 2, " \t") + c.str(0, 8, "cont ;=[#]"); break;       // continuation
      case 3: l = ws() + c.oneof<const char *>({";", "#"}) + c.str(0, 6, "x=[ ]"); break;
      case 4: l = word(1) + ws(); break;                                        // no value
      case 5: l = "[" + word(0) + ws(); break;                                  // broken section
      case 6: l = ws(); break;
      default: { size_t len = kind == 3 ? c.range(INI_MAX_LINE - 6, INI_MAX_LINE + 8) : c.range(300, INI_MAX_LINE - 3); if (kind == 3 && c.boolean()) len = c.range(2, 3) * INI_MAX_LINE; l = (c.boolean() ? "n=" : "[s] ;") + std::string(len > 6 ? len - 6 : 0, 'L'); while (l.size() < len) l += (char)('0' + l.size() % 10); } }
    for (char &ch : l) if (!ch || ch == '\n') ch = 'n';
    if (c.draw(30) == 30) l = "\xef\xbb\xbf" + l;
    if (c.draw(9) == 9) l += " ;" + c.str(0, 4, "cm ="); t += l; if (i + 1 < n || c.boolean()) t += c.draw(5) == 5 ? "\r\n" : "\n";
  }
  return t;
}
static void sources(Case &c) {
  mem::start(); io::reset(); int64_t open0 = io::open_files; std::string t = gen(c); uint64_t bad = c.draw(2) == 2 ? 1 + c.draw(1000) : 0; c.note("%s%s", quote(t, 1500).c_str(), bad ? ", some handler calls fail" : "");
  bool judge, special = false; Run w = reference(t, bad, judge, special), a; a.bad = bad; char *e = strdup(t.c_str()); a.result = ini_reader_parse_string(e, handler, &a); PBT_CHECK(t == e, "the text was changed"); free(e);
  if (judge) same(a, w, "parsing the string", "the reference");
  Run b; b.bad = bad; Rd rd = {t.data(), t.data() + t.size(), c.boolean()}; b.result = ini_reader_parse_stream(reader, &rd, handler, &b); same(b, a, "parsing from a custom reader", "parsing the string"); PBT_CHECK(rd.p == rd.e, "the stream was not read to its end");
  Run f; f.bad = bad; FILE *fp = t.empty() ? fopen("/dev/null", "r") : fmemopen((void *)t.data(), t.size(), "r"); if (!fp) fail("fmemopen"); f.result = ini_reader_parse_file(fp, handler, &f); PBT_CHECK(fgetc(fp) == EOF, "the FILE was not read to its end"); fclose(fp); same(f, a, "parsing from a FILE", "parsing the string");
  if (c.draw(3) == 3) {
    std::string path = scratch() + "/r.ini"; write_file(path, t); Run p; p.bad = bad; p.result = ini_reader_parse(path.c_str(), handler, &p); same(p, a, "parsing from a path", "parsing the string");
    Run q; q.bad = 0; PBT_EQ(ini_reader_parse((scratch() + "/missing.ini").c_str(), handler, &q), -1, "parsing a missing file"); PBT_CHECK(q.calls.empty(), "parsing a missing file called the handler"); PBT_EQ(io::open_files, open0, "files left open");
  }
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (!judge) c.label("overlong"); if (a.result) c.label("with an error"); if (special && a.calls.size() >= 3) c.nontrivial();
}
// ini_parser stores exactly what the reader reports, or refuses the text
static void parser(Case &c) {
  mem::start(); io::reset(); int64_t open0 = io::open_files; std::string t = gen(c, c.draw(3) != 3); if (c.draw(9)) t = "[s]\n" + t; c.note("%s", quote(t, 1500).c_str()); Run a; a.bad = 0; a.result = ini_reader_parse_string(t.c_str(), handler, &a);
  bool good = a.result == 0, small = true; IniModel m; for (auto &k : a.calls) { if (k.s.empty() || k.n.empty()) good = false; if (k.s.size() > 63 || k.n.size() > 63 || k.v.size() > 255) small = false; m.put(k.s, k.n, k.v); }
  ini_parser_handle p = ini_parser_parse_str(t.c_str()); PBT_CHECK(!!p == good, "ini_parser_parse_str %s, expected it to %s", p ? "succeeded" : "failed", good ? "succeed" : "fail"); if (p && small) ini_compare(p, m, "parsed string");
  if (t.size() >= 6 && c.boolean()) { std::string path = scratch() + "/p.ini"; write_file(path, t); ini_parser_handle q = ini_parser_parse_file(path.c_str()); PBT_CHECK(!!q == good, "ini_parser_parse_file %s", q ? "succeeded" : "failed"); if (q && small) ini_compare(q, m, "parsed file"); if (q) ini_parser_destroy(&q); PBT_CHECK(!ini_parser_parse_file((scratch() + "/missing.ini").c_str()), "a missing file was parsed"); PBT_EQ(io::open_files, open0, "files left open"); }
  if (p) ini_parser_destroy(&p); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (!good) c.label("refused"); if (good && m.pairs() >= 2) c.nontrivial();
}
// a text counts as a path unless it holds a line end or starts like a section or comment
static void path_or_text(Case &c) {
  std::string t; switch (c.draw(3)) { case 0: t = c.str(0, 12, "ab/. #[]=:\\\t\r"); break; case 1: t = c.str(0, 3, " \t\v\f\r") + c.oneof<const char *>({"#", "[", "[s] a=b", "/etc/[x]#.ini", "a", ""}); break; case 2: t = c.str(0, 200, "ab/. #[]=\n"); break; default: t = gen(c); }
  size_t b = 0; while (b < t.size() && sp(t[b])) ++b; bool want = !t.empty() && t.find('\n') == std::string::npos && !(b < t.size() && (t[b] == '#' || t[b] == '['));
  char *e = strdup(t.c_str()); bool g = ini_parser_is_file_path(e); c.note("is_file_path(%s) -> %d", quote(t, 300).c_str(), g); PBT_CHECK(t == e, "the text was changed"); free(e); PBT_EQ(g, want, "ini_parser_is_file_path"); PBT_CHECK(!ini_parser_is_file_path(nullptr), "NULL is no path");
  c.label("%s", want ? "path" : "no path"); if (b && b < t.size()) c.nontrivial();
}
std::vector<Suite> suites = {{"path_or_text", path_or_text, 100000, 1000000}, {"sources", sources, 800000, 5000000}, {"parser", parser, 320000, 2000000}};
