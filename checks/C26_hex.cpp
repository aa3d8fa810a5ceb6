// variant: asan
#include "pbt.h"
#include "intercept.h"
#include "capture.h"
#include <sys/mman.h>
extern "C" {
size_t str_char2hex(char *out_hex_str, size_t out_hex_str_capacity, const char *chars, size_t chars_count);
#include "log/xlog.h"
void __slog_internal_hex_print(int level, const char *tag, const char *chars, size_t chars_count);
}
using namespace pbt;

Property property = {
  "C26",
  "str_char2hex: every capacity from 0 to past the full rendering for generated data up to 300 bytes (lengths biased to where the rendering just fits or just does not) and for counts up to 6 GiB; hex logging (xlog to callback and console, slog to "
  "console): data of 0..3000 bytes; the output must be a correct rendering of as many leading bytes as fit; buffers have exact size under AddressSanitizer; non-trivial: the rendering was truncated or fits exactly",
  "exploration", {"a truncated rendering starts with the header 'hex truncated(N):', which counts against the space"}};

static std::string hex(const std::string &d, size_t n) { std::string r; char b[5]; for (size_t i = 0; i < n; ++i) { snprintf(b, sizeof b, " %02x", (unsigned char)d[i]); r += b; } return r; }
static std::string want_hex(const std::string &d, size_t cap) {
  if (!cap) return ""; if (3 * d.size() < cap) return hex(d, d.size());
  std::string h = "hex truncated(" + std::to_string(d.size()) + "):"; if (h.size() >= cap) return h.substr(0, cap - 1);
  return h + hex(d, std::min(d.size(), (cap - 1 - h.size()) / 3));
}
static void render(Case &c) {
  size_t n = c.size(0, 300); std::string d = c.payload(n); size_t cap; switch (c.draw(3)) { case 0: cap = 3 * n + c.draw(3); break; case 1: cap = c.draw(3 * n + 4); break; case 2: cap = c.draw(30); break; default: cap = 3 * n + 1 - std::min<size_t>(3 * n + 1, c.draw(8)); }
  c.note("str_char2hex(capacity %zu, %zu bytes)", cap, n); char *src = (char *)malloc(n), *out = (char *)malloc(cap); memcpy(src, d.data(), n); memset(out, 0x5a, cap);
  size_t r = str_char2hex(out, cap, src, n); std::string want = want_hex(d, cap); PBT_EQ(r, want.size(), "reported length");
  if (cap) { PBT_CHECK(strnlen(out, cap) < cap, "not terminated"); PBT_CHECK(want == out, "rendering %s, expected %s", quote(out, strlen(out)).c_str(), quote(want).c_str()); }
  free(src); free(out); if (n && cap <= 3 * n + 1) c.nontrivial(); c.label(cap == 0 ? "capacity 0" : cap <= 3 * n ? "truncated" : cap == 3 * n + 1 ? "exact fit" : "room left");
}
// counts that a real mapping backs, beyond what 3 * count fits into 32 bits: only the prefix that fits may be rendered
static void huge(Case &c) {
  static char *map; static const size_t SIZE = 6ull << 30; if (!map) { map = (char *)mmap(nullptr, SIZE, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (map == MAP_FAILED) fail("harness: mmap"); }
  size_t n = c.oneof<size_t>({0x55555555, 0x55555556, 0xaaaaaaaa, 0xaaaaaaab, 0x80000000, 0x7fffffff, 0xffffffff, 0x100000000ull, 0x100000005ull, 0x155555556ull, (size_t)c.range(1u << 20, SIZE)}) + c.draw(40), cap = c.boolean() ? c.draw(60) : c.size(0, 3000);
  c.note("str_char2hex(capacity %zu, %zu bytes)", cap, n); char *out = (char *)malloc(cap); std::string h = "hex truncated(" + std::to_string(n) + "):", want; if (cap) { if (h.size() >= cap) want = h.substr(0, cap - 1); else { want = h; for (size_t k = (cap - 1 - h.size()) / 3; k; --k) want += " 00"; } }
  size_t r = str_char2hex(out, cap, map, n); PBT_EQ(r, want.size(), "reported length"); if (cap) PBT_CHECK(want == out, "rendering %s, expected %s", quote(out, strnlen(out, cap)).c_str(), quote(want).c_str()); free(out); c.nontrivial();
}
// a logged rendering: complete, or the truncation header and a prefix
static bool good_log(const std::string &got, const std::string &d, bool &trunc) {
  trunc = false; if (got == hex(d, d.size())) return true; trunc = true;
  std::string h = "hex truncated(" + std::to_string(d.size()) + "):"; if (got.compare(0, h.size(), h)) return false; size_t k = (got.size() - h.size()) / 3; return k < d.size() && k >= 16 && got.substr(h.size()) == hex(d, k);
}
static std::string cb_msg; static int cb_calls;
static void cb(LogLevel, void *m, size_t n, void *) { cb_msg.assign((char *)m, n ? n - 1 : 0); if (n && ((char *)m)[n - 1]) fail("the logged message is not terminated"); ++cb_calls; }
static void logs(Case &c) {
  size_t n; switch (c.draw(3)) { case 0: n = c.size(0, 3000); break; case 1: n = 165 + c.draw(10); break; case 2: n = 80 + c.draw(10); break; default: n = c.draw(400); } std::string d = c.payload(n); char *src = (char *)malloc(n); memcpy(src, d.data(), n); unsigned which = (unsigned)c.draw(2); std::string got; bool trunc;
  c.note("hex log of %zu bytes to %s", n, which == 0 ? "the xlog callback" : which == 1 ? "the xlog console" : "the slog console"); int level = (int)c.range(LOG_LEVEL_VERBOSE, LOG_LEVEL_ERROR);
  xlog_set_min_level(LOG_LEVEL_VERBOSE); xlog_set_format(LOG_FORMAT_RAW); xlog_set_user_callback(cb, nullptr);
  if (which == 0) { xlog_set_target(LOG_TARGET_USER_CALLBACK); cb_calls = 0; __xlog_internal_hex_print((LogLevel)level, "tag", src, n); PBT_EQ(cb_calls, 1, "callback calls"); got = cb_msg; }
  else { Capture cap; if (which == 1) { xlog_set_target(LOG_TARGET_CONSOLE); __xlog_internal_hex_print((LogLevel)level, "tag", src, n); } else __slog_internal_hex_print(level, "tag", src, n);
    got = cap.take(); PBT_CHECK(!got.empty() && got.back() == '\n', "the line does not end with a newline"); got.pop_back(); if (which == 2) { char pre[20]; snprintf(pre, sizeof pre, "[%c/tag] ", "?VDIWE"[level]); PBT_CHECK(!got.compare(0, strlen(pre), pre), "line starts with %s", quote(got).c_str()); got = got.substr(strlen(pre)); } }
  PBT_CHECK(good_log(got, d, trunc), "hex log of %zu bytes: %s", n, quote(got, 300).c_str()); if (!trunc) c.label("complete"); else { c.label("truncated"); c.nontrivial(); } PBT_CHECK(!trunc || n > 60, "%zu bytes were truncated", n); free(src);
}
std::vector<Suite> suites = {{"render", render, 1800000, 15000000}, {"huge counts", huge, 60000, 1000000, 5000}, {"hex logs", logs, 300000, 3000000}};
