// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <cerrno>
#include <climits>
#include <cmath>
#undef strdup
extern "C" {
#include "file/ini_parser.h"
}
#include "ini_model.h"
using namespace pbt;

Property property = {
  "C23",
  "histories of put, get (string with output sizes around the needed one, bool, int, long, long long, float, double), has, delete key, delete section and foreach (complete and stopped) on stores that start empty or parsed from text; "
  "names from small pools in varying case and of up to 90 characters, values of up to 300, operations biased to the section used last; compared with an ordered two-level model; non-trivial: a value was replaced, a key and a section were deleted",
  "exploration", {"names are significant, and kept, in their first 63 characters, values in their first 255", "names are compared ignoring ASCII case, and keep the case they were first put with", "numbers out of the range of the type, and bool words other than true/false/yes/no, are not judged"}};

static std::string recase(Case &c, std::string s) { if (c.draw(2) == 0) for (char &ch : s) if (c.boolean()) ch = (char)(isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch)); return s; }
static void history(Case &c) {
  mem::start(); IniModel m; ini_parser_handle p = nullptr;
  std::vector<std::string> secs, keys; auto longname = [&](size_t i, char ch) { return std::string(1, (char)('a' + i % 3)) + std::string(c.oneof<size_t>({60, 61, 62, 62, 62, 63, 64, 89}), ch) + c.str(0, 1, "xY"); };
  size_t ns = c.size(1, 8), nk = c.size(1, 10);
  for (size_t i = 0; i < ns; ++i) secs.push_back(c.draw(9) == 9 ? longname(i, 'q') : c.str(1, 3, "aAb_1"));
  for (size_t i = 0; i < nk; ++i) keys.push_back(c.draw(9) == 9 ? longname(i, 'Z') : c.str(1, 3, "xXy.2"));
  static const std::vector<std::string> odd = {"", "0", "1", "-1", "0x1F", "010", "1.5", "-2.25e3", "true", "TRUE", "False", "yes", "No", "1x", "x1", "nan", " 7", "7 ", "2147483647", "-2147483648", "9223372036854775807", "on", "off", "maybe"};
  auto value = [&] { std::string v = c.boolean() ? c.pick(odd) : c.payload(c.draw(9) == 9 ? c.range(250, 300) : c.size(0, 20)); for (char &ch : v) if (!ch) ch = 'v'; return v; };
  if (c.draw(3) == 3) {
    std::string t; size_t n = c.size(1, 20), last = (size_t)-1; for (size_t i = 0; i < n; ++i) { size_t s = c.draw(secs.size() - 1); std::string sn = recase(c, secs[s]), k = recase(c, c.pick(keys)), v = c.boolean() ? c.str(0, 6, "vw9") : std::to_string(c.irange(-50, 50)); if (s != last) t += "[" + sn + "]\n"; else sn = secs[s]; last = s; t += k + "=" + v + "\n"; m.put(sn, k, v); }
    c.note("parse_str(%s)", quote(t, 400).c_str()); p = ini_parser_parse_str(t.c_str()); PBT_CHECK(p, "ini_parser_parse_str failed"); ini_compare(p, m, "parsed text");
  } else { p = ini_parser_create(); PBT_CHECK(p, "ini_parser_create failed"); }
  bool replaced = false, dk = false, ds = false; size_t ops = c.size(1, c.thorough ? 300 : 80); std::string cur = secs[0];
  for (size_t i = 0; i < ops; ++i) {
    Span sp(c); if (c.draw(2) == 2) cur = c.pick(secs); std::string s = recase(c, cur), k = recase(c, c.pick(keys)); const std::string *have = m.get(s, k); unsigned op = c.weighted({30, 12, 12, 4, 8, 14, 4, 2, 2});
    if (op == 0) {
      std::string v = value(); bool nul = v.empty() && c.boolean(); char *es = strdup(s.c_str()), *ek = strdup(k.c_str()), *ev = strdup(v.c_str()); int r = ini_parser_put_string(p, es, ek, nul ? nullptr : ev); c.note("put([%s] %s = %s) -> %d", quote(s).c_str(), quote(k).c_str(), quote(v).c_str(), r); free(es); free(ek); free(ev);
      PBT_EQ(r, INI_PARSER_CODE_SUCCEED, "put_string"); if (m.put(s, k, v)) replaced = true;
    } else if (op == 1) {
      size_t need = have ? have->size() + 1 : 5, n = c.oneof<size_t>({need, need - 1, need + 1, 1, 300, need / 2}); if (!n) n = 1; char *o = (char *)malloc(n); memset(o, 0x5a, n); int r = ini_parser_get_string(p, s.c_str(), k.c_str(), o, n); c.note("get_string([%s] %s, %zu) -> %d", quote(s).c_str(), quote(k).c_str(), n, r);
      if (have && n >= need) { PBT_EQ(r, INI_PARSER_CODE_SUCCEED, "get_string"); PBT_CHECK(*have == o, "get_string gave %s, expected %s", quote(o, strlen(o)).c_str(), quote(*have).c_str()); }
      else { PBT_EQ(r, have ? INI_PARSER_CODE_NO_ENOUGH_MEMORY : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "get_string"); for (size_t j = 0; j < n; ++j) PBT_CHECK(o[j] == 0x5a, "get_string failed but changed the output"); }
      free(o);
    } else if (op == 2) {
      int r = ini_parser_has_section_key(p, s.c_str(), k.c_str()), r2 = ini_parser_has_section(p, s.c_str()); c.note("has([%s] %s) -> %d, section %d", quote(s).c_str(), quote(k).c_str(), r, r2);
      PBT_EQ(r, have ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "has_section_key"); PBT_EQ(r2, m.find(s) >= 0 ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "has_section");
    } else if (op == 3) { int r = ini_parser_delete_section(p, s.c_str()); c.note("delete_section(%s) -> %d", quote(s).c_str(), r); bool e = m.erase(s); ds |= e; PBT_EQ(r, e ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "delete_section"); }
    else if (op == 4) { int r = ini_parser_delete_by_section_key(p, s.c_str(), k.c_str()); c.note("delete([%s] %s) -> %d", quote(s).c_str(), quote(k).c_str(), r); bool e = m.erase(s, k); dk |= e; PBT_EQ(r, e ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "delete_by_section_key"); }
    else if (op == 5) {
      unsigned type = c.draw(5); int missing = INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, r; const char *v = have ? have->c_str() : ""; char *e = nullptr; bool range = false;
      if (type <= 3) {
        errno = 0; long long w = strtoll(v, &e, 0); range = errno == ERANGE; bool good = have && *v && !*e; long long got = 0; bool fits = true;
        if (type == 0) { int g = -99; r = ini_parser_get_int(p, s.c_str(), k.c_str(), &g); got = g; fits = w == (int)w; }
        else if (type == 1) { long g = -99; r = ini_parser_get_long(p, s.c_str(), k.c_str(), &g); got = g; }
        else if (type == 2) { r = ini_parser_get_long_long(p, s.c_str(), k.c_str(), &got); }
        else {
          bool g = c.boolean(); r = ini_parser_get_bool(p, s.c_str(), k.c_str(), &g); got = g; static const char *const words[] = {"true", "yes", "false", "no"}; bool word = false, prefix = false; for (int j = 0; j < 4; ++j) { if (!strcasecmp(v, words[j])) { word = true; w = j < 2; } else if (!strncasecmp(v, words[j], strlen(words[j]))) prefix = true; }
          if (prefix) continue; if (word) { good = true; range = false; } else w = w != 0;
        }
        c.note("get_%s([%s] %s) -> %d, %lld", type == 0 ? "int" : type == 1 ? "long" : type == 2 ? "long_long" : "bool", quote(s).c_str(), quote(k).c_str(), r, got); if (range || !fits) continue;
        PBT_EQ(r, good ? INI_PARSER_CODE_SUCCEED : have ? INI_PARSER_CODE_FAILED : missing, "typed get"); if (good) PBT_CHECK(got == w, "typed get of %s gave %lld, expected %lld", quote(v, strlen(v)).c_str(), got, w);
      } else {
        errno = 0; double w = strtod(v, &e); range = errno == ERANGE; bool good = have && *v && !*e; double g;
        if (type == 4) { g = -99; r = ini_parser_get_double(p, s.c_str(), k.c_str(), &g); } else { float f = -99; r = ini_parser_get_float(p, s.c_str(), k.c_str(), &f); g = f; }
        c.note("get_%s([%s] %s) -> %d, %g", type == 4 ? "double" : "float", quote(s).c_str(), quote(k).c_str(), r, g); if (range) continue;
        PBT_EQ(r, good ? INI_PARSER_CODE_SUCCEED : have ? INI_PARSER_CODE_FAILED : missing, "typed get"); if (good && (type == 4 || std::fabs(w) < 3e38)) PBT_CHECK(w != w ? g != g : g == w || (type == 5 && std::fabs(g - w) <= std::fabs(w) * 1.2e-7), "typed get of %s gave %g", quote(v, strlen(v)).c_str(), g);
      }
    } else if (op == 6) {
      IniSeen seen; seen.stop_after = 1 + c.draw(m.pairs() + 1); seen.stop_code = c.oneof<int>({1, -1, 256}); int r = ini_parser_foreach(p, ini_seen_cb, &seen); c.note("foreach(stop after %zu) -> %d, %zu calls", seen.stop_after, r, seen.v.size()); PBT_EQ(r, INI_PARSER_CODE_SUCCEED, "foreach"); PBT_EQ(seen.v.size(), std::min(seen.stop_after, m.pairs()), "calls of the foreach handler"); if (seen.stopped && m.s.size() > 1) c.label("foreach stopped");
    } else if (op == 7) ini_compare(p, m, "foreach");
    else {
      PBT_EQ(ini_parser_put_string(nullptr, "s", "k", "v"), INI_PARSER_CODE_INVALID_PARAM, "put on NULL"); PBT_EQ(ini_parser_put_string(p, "", k.c_str(), "v"), INI_PARSER_CODE_INVALID_PARAM, "put into section \"\""); PBT_EQ(ini_parser_put_string(p, s.c_str(), "", "v"), INI_PARSER_CODE_INVALID_PARAM, "put with key \"\""); PBT_EQ(ini_parser_put_string(p, nullptr, k.c_str(), "v"), INI_PARSER_CODE_INVALID_PARAM, "put with section NULL"); PBT_EQ(ini_parser_put_string(p, s.c_str(), nullptr, "v"), INI_PARSER_CODE_INVALID_PARAM, "put with key NULL");
      char o[8]; PBT_EQ(ini_parser_get_string(nullptr, s.c_str(), k.c_str(), o, 8), INI_PARSER_CODE_INVALID_PARAM, "get on NULL"); PBT_EQ(ini_parser_foreach(p, nullptr, nullptr), INI_PARSER_CODE_INVALID_PARAM, "foreach without handler"); PBT_EQ(ini_parser_delete_section(nullptr, s.c_str()), INI_PARSER_CODE_INVALID_PARAM, "delete on NULL"); PBT_EQ(ini_parser_delete_by_section_key(p, s.c_str(), nullptr), INI_PARSER_CODE_INVALID_PARAM, "delete key NULL"); PBT_EQ(ini_parser_destroy(nullptr), INI_PARSER_CODE_INVALID_PARAM, "destroy(NULL)");
    }
  }
  ini_compare(p, m, "at the end"); for (auto &s : secs) { PBT_EQ(ini_parser_has_section(p, s.c_str()), m.find(s) >= 0 ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "has_section at the end"); for (auto &k : keys) PBT_EQ(ini_parser_has_section_key(p, s.c_str(), k.c_str()), m.get(s, k) ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "has_section_key at the end"); }
  PBT_EQ(ini_parser_destroy(&p), INI_PARSER_CODE_SUCCEED, "destroy"); PBT_CHECK(!p, "destroy left the handle"); PBT_EQ(ini_parser_destroy(&p), INI_PARSER_CODE_INVALID_PARAM, "second destroy");
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (replaced) c.label("replaced"); if (dk) c.label("key deleted"); if (ds) c.label("section deleted"); if (replaced && dk && ds) c.nontrivial();
}
std::vector<Suite> suites = {{"history", history, 720000, 3000000}};
