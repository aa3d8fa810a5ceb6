// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <sys/mman.h>
extern "C" {
#include "mem/stringbuilder.h"
}
using namespace pbt;

Property property = {
  "C20",
  "histories of appendchar/appendstr/appendnstr/appendf/clear/len/to_string with string lengths biased to the free space of the buffer, lengths given smaller, equal and larger than the string, initial sizes 0..300, formatted text that vsnprintf rejects; compared "
  "with std::string; sources have exact size under AddressSanitizer; non-trivial: the buffer had to grow and a prefix (len below the string length) or an over-long len was used",
  "exploration", {"appending an empty string or length 0 with appendnstr changes nothing or (length 0) appends the whole string; the return code of empty appends is not judged", "allocation failure is C34"}};

static void check(stringbuilder_t *sb, const std::string &m) {
  if (stringbuilder_len(sb) != m.size()) fail("length %zu, expected %zu", stringbuilder_len(sb), m.size()); const char *t = stringbuilder_to_string(sb);
  if (!t) fail("to_string returned NULL"); if (memcmp(t, m.data(), m.size())) { size_t k = 0; while (t[k] == m[k]) ++k; fail("the text differs at %zu of %zu", k, m.size()); } if (t[m.size()]) fail("the text is not terminated");
}
static void history(Case &c) {
  mem::start(); size_t init = c.size(0, 300); stringbuilder_t *sb = stringbuilder_create(init); PBT_CHECK(sb, "create failed"); c.note("create(%zu)", init); std::string m; check(sb, m);
  size_t cap = init < 2 ? 128 : init; bool grew = false, prefix = false, beyond = false; size_t n_ops = c.size(1, c.thorough ? 200 : 60);
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c); unsigned op = c.weighted({14, 20, 20, 14, 2, 1});
    auto text = [&](size_t lo) { size_t room = cap > m.size() + 1 ? cap - m.size() - 1 : 0, n; switch (c.draw(3)) { case 0: n = room; break; case 1: n = room + 1; break; default: n = c.size(lo, c.draw(15) == 15 ? 3000 : 60); } if (n < lo) n = lo; if (m.size() > 200000) n = lo; std::string s = c.payload(n); for (auto &ch : s) if (!ch) ch = 'n'; return s; };
    auto took = [&](size_t n) { while (cap < m.size() + n + 1) { cap *= 2; grew = true; } };
    if (op == 0) { char ch = (char)c.draw(255); PBT_EQ(stringbuilder_appendchar(sb, ch), 0, "appendchar"); took(1); m += ch; c.note("appendchar(%d)", ch); }
    else if (op == 1) { std::string s = text(0); char *p = strdup(s.c_str()); int r = stringbuilder_appendstr(sb, p); if (!s.empty()) PBT_EQ(r, 0, "appendstr"); memset(p, 0xee, s.size()); free(p); took(s.size()); m += s; c.note("appendstr(%zu characters)", s.size()); }
    else if (op == 2) {
      std::string s = text(0); size_t len; bool term = true; switch (c.draw(3)) { case 0: len = s.size(); break; case 1: len = 1 + c.draw(s.size()); break; case 2: len = s.size() + 1 + c.draw(400); break; default: len = s.size() + 1; } if (!len) len = 1;
      std::string want = s.substr(0, len); if (len <= s.size() && c.boolean()) term = false;   // a source that is not terminated
      size_t bytes = term ? s.size() + 1 : len; char *p = (char *)malloc(bytes); memcpy(p, s.c_str(), bytes); int r = stringbuilder_appendnstr(sb, p, len); if (!want.empty()) PBT_EQ(r, 0, "appendnstr"); free(p); took(want.size()); m += want; c.note("appendnstr(%zu characters, %zu)", s.size(), len);
      if (len < s.size()) prefix = true; if (len > s.size()) beyond = true;
    } else if (op == 3) {
      char b[4300]; int r; std::string s;
      switch (c.draw(5)) {
        case 0: { int v = (int)c.irange(-2147483648ll, 2147483647); snprintf(b, sizeof b, "%d", v); r = stringbuilder_appendf(sb, "%d", v); break; }
        case 1: { double v = (double)c.irange(-1000000, 1000000) / 8; snprintf(b, sizeof b, "%.3f|%g", v, v); r = stringbuilder_appendf(sb, "%.3f|%g", v, v); break; }
        case 2: { s = text(0); if (s.size() > 4000) s.resize(4000); snprintf(b, sizeof b, "<%s>", s.c_str()); r = stringbuilder_appendf(sb, "<%s>", s.c_str()); break; }
        case 3: { s = text(1); if (s.size() > 4000) s.resize(4000); snprintf(b, sizeof b, "%s", s.c_str()); r = stringbuilder_appendf(sb, "%s", s.c_str()); break; }
        case 5: {   // text that can't be formatted
          wchar_t w[3] = {L'a', (wchar_t)0x7fffffff, 0}; s = text(0); r = stringbuilder_appendf(sb, c.boolean() ? "%s%ls" : "%.0s%ls", s.c_str(), w); PBT_CHECK(r != 0, "appendf reported success for text that can't be formatted"); c.note("appendf of an invalid character"); c.label("unformattable"); check(sb, m); continue; }
        default: { unsigned w = (unsigned)c.draw(300); snprintf(b, sizeof b, "%*u%%", (int)w, 7u); r = stringbuilder_appendf(sb, "%*u%%", (int)w, 7u); } }
      PBT_EQ(r, 0, "appendf"); took(strlen(b)); m += b; c.note("appendf -> %zu characters", strlen(b));
    } else if (op == 4) { PBT_EQ(stringbuilder_clear(sb), 0, "clear"); m.clear(); c.note("clear"); }
    else { PBT_CHECK(stringbuilder_appendstr(sb, nullptr) < 0 && stringbuilder_appendnstr(sb, nullptr, 3) < 0 && stringbuilder_appendchar(nullptr, 'x') < 0 && stringbuilder_appendstr(nullptr, "x") < 0 && stringbuilder_clear(nullptr) < 0 && stringbuilder_appendf(nullptr, "x") < 0, "NULL argument accepted"); stringbuilder_appendstr(sb, ""); }
    check(sb, m);
  }
  stringbuilder_destroy(&sb); PBT_CHECK(!sb, "destroy must null the handle"); stringbuilder_destroy(&sb); stringbuilder_destroy(nullptr);
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
  if (grew) c.label("grew"); if (prefix) c.label("prefix of a string"); if (beyond) c.label("len beyond the string"); if (grew && (prefix || beyond)) c.nontrivial();
}
// Texts from 64 KiB to beyond 4 GiB: long pieces are moved by their ends only (mem::sparse) and compared there.
static void giant(Case &c) {
  const size_t SPAN = 48 << 20, EDGE = 1 << 12; static char *src; if (!src) { src = (char *)mmap(nullptr, SPAN + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (src == MAP_FAILED) fail("harness: mmap"); memset(src, 'q', SPAN); }
  mem::start(); struct On { On() { mem::big = 64 << 10; mem::sparse = 2 * EDGE; } ~On() { mem::big = mem::sparse = 0; } } on;
  bool enormous = c.chance(1, 60); size_t init = enormous ? c.oneof<size_t>({1ull << 31, (1ull << 32) - 1, (1ull << 32) + 5, 3ull << 30, 0, 1ull << 20}) : c.oneof<size_t>({0, 65535, 65536, 100, 70000}); stringbuilder_t *sb = stringbuilder_create(init); PBT_CHECK(sb, "create(%zu) failed", init); c.note("create(%zu)", init);
  struct Piece { size_t at, n; uint64_t id; }; std::vector<Piece> ps; size_t len = 0; uint64_t salt = c.draw(1000), next = 1; auto ch = [&](uint64_t id, size_t k) { char x = (char)mix64(id * 1000003 + k * 31 + salt); return x ? x : 'n'; };
  auto check = [&] {
    PBT_EQ(stringbuilder_len(sb), len, "length"); const char *t = stringbuilder_to_string(sb); PBT_CHECK(t && !t[len], "the text is not terminated");
    for (size_t i = ps.size() > 3 ? ps.size() - 3 : 0; i < ps.size(); ++i) for (size_t k = 0; k < std::min(ps[i].n, EDGE); ++k) for (size_t j : {k, ps[i].n - 1 - k}) PBT_CHECK(t[ps[i].at + j] == ch(ps[i].id, j), "the text differs at %zu of %zu", ps[i].at + j, len);
  };
  size_t n_ops = enormous ? c.range(80, 160) : c.size(1, 30);
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c); size_t n = enormous ? (c.draw(5) ? SPAN - c.draw(100) : (size_t)c.range(1, 5000)) : c.oneof<size_t>({65535, 65536, 65537, (size_t)c.range(1, 200000), (size_t)c.range(1, 300), 32767, 32768}); char *p = src + SPAN - n; uint64_t id = next++;
    for (size_t k = 0; k < std::min(n, EDGE); ++k) p[k] = ch(id, k), p[n - 1 - k] = ch(id, n - 1 - k); p[n] = 0;
    switch (c.weighted({4, 4, 1})) {
      case 0: PBT_EQ(stringbuilder_appendstr(sb, p), 0, "appendstr"); break;
      case 1: { size_t l = c.oneof<size_t>({n, n + 1, n + 70000, 1ull << 32}); if (l > n + 1 && l > SPAN) l = n + 1; PBT_EQ(stringbuilder_appendnstr(sb, p, std::min(l, n + 1)), 0, "appendnstr"); break; }
      case 2: if (enormous) { PBT_EQ(stringbuilder_appendchar(sb, p[0]), 0, "appendchar"); n = 1; break; } PBT_EQ(stringbuilder_appendf(sb, "%s", p), 0, "appendf"); break;
    }
    if (n == 1 && enormous) ps.push_back({len, 1, id}); else ps.push_back({len, n, id}); len += n; c.note("append of %zu", n); check(); memset(p, 'q', std::min(n, EDGE)); memset(p + n - std::min(n, EDGE), 'q', std::min(n, EDGE));
  }
  const char *t = stringbuilder_to_string(sb); for (auto &q : ps) for (size_t k = 0; k < std::min(q.n, EDGE); ++k) for (size_t j : {k, q.n - 1 - k}) PBT_CHECK(t[q.at + j] == ch(q.id, j), "the text differs at %zu of %zu in the end", q.at + j, len);
  PBT_EQ(stringbuilder_clear(sb), 0, "clear"); PBT_EQ(stringbuilder_len(sb), 0, "length after clear"); PBT_CHECK(!*stringbuilder_to_string(sb), "text after clear"); PBT_EQ(stringbuilder_appendstr(sb, "x"), 0, "appendstr"); PBT_EQ(stringbuilder_len(sb), 1, "length");
  stringbuilder_destroy(&sb); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (len > 65535) c.nontrivial(); if (len > 1ull << 32) c.label("text over 4 GiB");
}
std::vector<Suite> suites = {{"giant", giant, 1200, 12000, 120000}, {"history", history, 150000, 1500000}};
