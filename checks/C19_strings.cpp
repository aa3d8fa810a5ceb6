// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <set>
#undef strdup
extern "C" {
char *strreplace(char const *const, char const *const, char const *const);
void strsplit(char *recv_splited_str[], size_t *p_splited_nums, const char *src_str, const char *delimiter);
void strtrim(char *s, const char *cset);
size_t strutf8len(const char *); size_t strnutf8len(const char *, size_t);
}
using namespace pbt;

Property property = {
  "C19",
  "subjects, patterns, replacements, delimiter and trim sets over small alphabets (so that matches overlap and repeat) including empty ones, sometimes repeated to 12000 characters and more (and a few with more than 65536 matches, fields or characters), and generated valid UTF-8 of all code point ranges; compared with reference "
  "implementations, strings of exact size under AddressSanitizer; non-trivial: something was replaced / split off / trimmed / a multi-byte character was counted",
  "exploration", {"strsplit treats its delimiter argument as a set of characters", "strnutf8len's limit counts bytes"}};

static char *exact(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static void replace(Case &c) {
  mem::start(); const char *al = c.draw(4) ? "aab" : "aAbB\xff"; size_t big = c.draw(4000) ? 0 : 12000; std::string s = c.str(0, c.draw(9) == 9 ? 300 : 30, al), p = c.str(0, 4, al), r = c.str(0, c.draw(3) == 3 ? 40 : 5, c.draw(3) ? "abX" : al), want; if (big && !s.empty()) { std::string u = s; while (s.size() < big) s += u; } c.note("strreplace(%s, %s, %s)", quote(s, 300).c_str(), quote(p).c_str(), quote(r).c_str());
  size_t n = 0; if (p.empty()) want = s; else { size_t i = 0; for (;;) { size_t k = s.find(p, i); if (k == std::string::npos) break; want += s.substr(i, k - i) + r; i = k + p.size(); ++n; } want += s.substr(i); }
  char *a = exact(s), *b = exact(p), *d = exact(r), *g = strreplace(a, b, d); PBT_CHECK(g, "strreplace returned NULL"); PBT_CHECK(want == g, "strreplace gave %s, expected %s", quote(std::string(g), 300).c_str(), quote(want, 300).c_str());
  PBT_CHECK(s == a && p == b && r == d, "strreplace changed an argument"); PBT_CHECK(g != a, "strreplace returned its argument"); mem::release(g); free(a); free(b); free(d);
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (n) c.nontrivial(); if (n > 1 && r.size() != p.size()) c.label("several, other length"); if (p.empty()) c.label("empty pattern");
}
static void split(Case &c) {
  std::string s = c.str(0, 40, "ab,; "), d = c.str(0, 3, ",; a"); if (!c.draw(4000) && !s.empty()) { std::string u = s; while (s.size() < 12000) s += u; } std::vector<std::string> want; std::string cur; for (char ch : s + (d.empty() ? "" : d.substr(0, 1))) { if (d.find(ch) != std::string::npos) { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) want.push_back(cur);
  size_t max = c.boolean() ? want.size() + c.draw(3) : c.draw(want.size()); size_t n = max; c.note("strsplit(%s, %s, %zu)", quote(s, 300).c_str(), quote(d).c_str(), max);
  char *a = exact(s), *b = exact(d); char **out = (char **)malloc(sizeof(char *) * (max ? max : 1)); out[0] = (char *)1; strsplit(out, &n, a, b);
  PBT_EQ(n, std::min(max, want.size()), "number of fields"); for (size_t i = 0; i < n; ++i) { PBT_CHECK(out[i] >= a && out[i] <= a + s.size(), "field %zu is not inside the subject", i); }
  size_t full = n < want.size() ? n : want.size(); for (size_t i = 0; i < full; ++i) PBT_CHECK(want[i] == out[i], "field %zu is %s, expected %s", i, quote(out[i], strlen(out[i])).c_str(), quote(want[i]).c_str());
  PBT_CHECK(d == b, "strsplit changed the delimiters"); free(a); free(b); free(out); if (want.size() > 1) c.nontrivial(); if (max < want.size()) c.label("more fields than asked for");
}
static void trim(Case &c) {
  std::string s = c.str(0, 20, "  xy\t"), set = c.str(0, 3, " \tx"); size_t b = 0, e = s.size(); while (b < e && set.find(s[b]) != std::string::npos) ++b; while (e > b && set.find(s[e - 1]) != std::string::npos) --e; std::string want = s.substr(b, e - b);
  c.note("strtrim(%s, %s)", quote(s).c_str(), quote(set).c_str()); char *a = (char *)malloc(s.size() + 17); memset(a, ' ', 16); memcpy(a + 16, s.c_str(), s.size() + 1); char *t = exact(set);
  strtrim(a + 16, t); PBT_CHECK(want == a + 16, "strtrim gave %s, expected %s", quote(a + 16, strlen(a + 16)).c_str(), quote(want).c_str()); for (int i = 0; i < 16; ++i) PBT_CHECK(a[i] == ' ', "strtrim wrote before the string"); free(a); free(t);
  if (want.size() < s.size()) c.nontrivial(); if (want.empty() && !s.empty()) c.label("all trimmed");
}
static void utf8(Case &c) {
  size_t n = c.size(0, 40); std::string s; std::vector<size_t> starts; bool multi = false;
  for (size_t i = 0; i < n; ++i) {
    uint32_t cp; switch (c.draw(4)) { case 0: cp = (uint32_t)c.range(1, 0x7f); break; case 1: cp = (uint32_t)c.range(0x80, 0x7ff); break; case 2: cp = (uint32_t)c.range(0x800, 0xd7ff); break; case 3: cp = (uint32_t)c.range(0xe000, 0xffff); break; default: cp = (uint32_t)c.range(0x10000, 0x10ffff); }
    starts.push_back(s.size()); if (cp < 0x80) s += (char)cp; else { multi = true; if (cp < 0x800) { s += (char)(0xc0 | cp >> 6); } else { if (cp < 0x10000) s += (char)(0xe0 | cp >> 12); else { s += (char)(0xf0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); } s += (char)(0x80 | (cp >> 6 & 63)); } s += (char)(0x80 | (cp & 63)); }
  }
  c.note("utf8 %s", quote(s).c_str()); char *a = exact(s); PBT_EQ(strutf8len(a), n, "strutf8len"); if (!c.draw(4000) && n) { size_t times = 200000 / s.size(); std::string all; for (size_t i = 0; i < times; ++i) all += s; char *b = exact(all); PBT_EQ(strutf8len(b), n * times, "strutf8len of a long string"); free(b); c.label("long"); } size_t k = c.draw(19) ? (size_t)c.draw(s.size() + 3) : c.oneof<size_t>({SIZE_MAX, 1ull << 32, 1ull << 31, (1ull << 32) + 1, 1ull << 63}), want = 0; for (size_t x : starts) if (x < k) ++want; PBT_EQ(strnutf8len(a, k), want, "strnutf8len"); free(a); if (multi) c.nontrivial();
  std::string any = c.payload(c.size(0, 30)); a = exact(any); strutf8len(a); strnutf8len(a, c.draw(40)); free(a);   // any bytes: stays inside
}
// more matches, fields, characters to trim and characters to count than 16 bits hold
static void large(Case &c) {
  size_t n = 65536 + (size_t)c.draw(3000);
  switch (c.draw(3)) {
    case 0: { std::string u = c.str(1, 2, "ab"), p = c.str(1, 1, "ab"), r = c.str(0, 2, "abX"), s, want; n = n / u.size() + 1; c.note("strreplace(%s x %zu, %s, %s)", quote(u).c_str(), n, quote(p).c_str(), quote(r).c_str());
      for (size_t i = 0; i < n; ++i) s += u; size_t hits = 0; for (char ch : s) if (ch == p[0]) { want += r; ++hits; } else want += ch;
      char *a = exact(s), *g = strreplace(a, p.c_str(), r.c_str()); PBT_CHECK(g, "strreplace returned NULL"); PBT_EQ(strlen(g), want.size(), "length of the result"); PBT_CHECK(want == g, "strreplace gave another text (%zu matches)", hits); mem::release(g); free(a); if (hits > 65535) c.nontrivial(); break; }
    case 1: { size_t max = c.boolean() ? n : n - (size_t)c.draw(400); c.note("strsplit of %zu fields, at most %zu", n, max); std::string s; for (size_t i = 0; i < n; ++i) { if (i) s += ','; s += (char)('a' + i % 23); }
      char *a = exact(s), **out = (char **)malloc(sizeof(char *) * max); size_t got = max; strsplit(out, &got, a, ","); PBT_EQ(got, max, "number of fields"); for (size_t i = 0; i < got; ++i) PBT_CHECK(out[i] == a + 2 * i && out[i][0] == (char)('a' + i % 23) && (!out[i][1] || (i + 1 == got && got < n)), "field %zu is not the one expected", i); free(out); free(a); c.nontrivial(); break; }
    case 2: { size_t l = c.boolean() ? n : c.draw(5), m = c.boolean() ? n + 7 : c.draw(5), t = c.boolean() ? n + 11 : c.draw(5); c.note("strtrim of %zu + %zu + %zu characters", l, m, t); std::string mid; for (size_t i = 0; i < m; ++i) mid += i % 5 && i && i + 1 < m ? ' ' : 'x'; std::string s = std::string(l, ' ') + mid + std::string(t, ' ');
      char *a = exact(s); strtrim(a, " \t"); PBT_EQ(strlen(a), m, "length after strtrim"); PBT_CHECK(mid == a, "strtrim gave another text"); free(a); if (l + m + t > 65535) c.nontrivial(); break; }
    default: { std::string s; bool two = c.boolean(); for (size_t i = 0; i < n; ++i) s += two ? "\xc3\xa9" : "y"; size_t k = c.boolean() ? s.size() : s.size() - (size_t)c.draw(1000) * 2; c.note("strnutf8len of %zu characters, limit %zu", n, k); char *a = exact(s); PBT_EQ(strutf8len(a), n, "strutf8len"); PBT_EQ(strnutf8len(a, k), two ? k / 2 : k, "strnutf8len"); free(a); c.nontrivial(); }
  }
}
std::vector<Suite> suites = {{"large", large, 64, 1500, 300000}, {"strreplace", replace, 2400000, 30000000, 5000}, {"strsplit", split, 2400000, 30000000, 5000}, {"strtrim", trim, 2400000, 30000000, 5000}, {"utf8", utf8, 1600000, 18000000, 5000}};
