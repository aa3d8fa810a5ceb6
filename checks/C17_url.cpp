// variant: asan
#include "pbt.h"
#include "intercept.h"
extern "C" {
#include "net/url_encoder_decoder.h"
}
using namespace pbt;

Property property = {
  "C17",
  "byte strings (all 1- and 2-byte ones exhaustively), every output capacity from 0 to more than enough (biased to the exact fit), decoding of generated texts with valid, cut off and broken escapes, and decoding resumed "
  "from the reported position with generated capacities, and (suite large) texts up to 600000 characters; compared with reference functions, buffers of exactly the given size under AddressSanitizer; non-trivial: an escape was produced or consumed and the capacity was not ample",
  "exploration", {"a space is written as '+'", "an encode that does not fit fails; what it leaves in the buffer is not specified", "an escape cut off at the end of the text is left undecoded (resumption point), not an error", "empty input and capacities below 2 are refused with -1"}};

static bool plain(unsigned char ch) { return (ch >= 'A' && ch <= 'Z') || (ch >= 'a' && ch <= 'z') || (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == '*' || ch == '_'; }
static std::string ref_encode(const std::string &s) { std::string r; char b[4]; for (unsigned char ch : s) { if (plain(ch)) r += (char)ch; else if (ch == ' ') r += '+'; else { snprintf(b, sizeof b, "%%%02X", ch); r += b; } } return r; }
static int hexv(char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : -1; }
// Decodes as much as fits into cap-1 characters. -2: illegal.
static int ref_decode(const std::string &t, size_t cap, std::string &out, size_t &pos) {
  out.clear(); pos = 0;
  while (pos < t.size() && out.size() < cap - 1) {
    char ch = t[pos];
    if (ch == '+') { out += ' '; pos++; }
    else if (ch == '%') { if (pos + 3 > t.size()) break; int a = hexv(t[pos + 1]), b = hexv(t[pos + 2]); if (a < 0 || b < 0) return -2; out += (char)(a << 4 | b); pos += 3; }
    else if (plain((unsigned char)ch)) { out += ch; pos++; } else return -2;
  }
  return (int)out.size();
}
static char *exact(const std::string &s) { char *p = (char *)malloc(s.size()); memcpy(p, s.data(), s.size()); return p; }

static void check_encode(const std::string &s, size_t cap) {
  std::string want = ref_encode(s); char *src = exact(s), *out = (char *)malloc(cap ? cap : 1); memset(out, 0x5a, cap ? cap : 1);
  int r = lcu_url_encode(out, cap, src, s.size());
  if (!s.empty() && want.size() < cap) { if (r != (int)want.size() || memcmp(out, want.c_str(), want.size() + 1)) fail("encode(%s, capacity %zu) gave %d %s, expected %zu %s", quote(s).c_str(), cap, r, quote(out, std::min(cap, want.size() + 1)).c_str(), want.size(), want.c_str()); }
  else if (r >= 0) fail("encode(%s, capacity %zu) returned %d, it does not fit", quote(s).c_str(), cap, r);
  free(src); free(out);
}
static void check_decode(const std::string &t, size_t cap, bool want_pos) {
  char *src = exact(t), *out = (char *)malloc(cap ? cap : 1); memset(out, 0x5a, cap ? cap : 1); char *pos = (char *)"unset"; int r = lcu_url_decode(out, cap, src, t.size(), want_pos ? &pos : nullptr);
  if (t.empty() || cap < 2) PBT_EQ(r, -1, "decode of nothing or into nothing");
  else {
    std::string want; size_t wp; int wr = ref_decode(t, cap, want, wp);
    if (wr < 0) { if (r >= 0) fail("decode(%s, capacity %zu) accepted an illegal text", quote(t).c_str(), cap); }
    else { if (r != wr || memcmp(out, want.data(), want.size()) || out[want.size()]) fail("decode(%s, capacity %zu) gave %d %s, expected %d %s", quote(t).c_str(), cap, r, quote(out, r > 0 ? (size_t)r : 0).c_str(), wr, quote(want).c_str());
      if (want_pos && pos != src + wp) fail("decode(%s, capacity %zu) reports position %zd, expected %zu", quote(t).c_str(), cap, (ssize_t)(pos - src), wp); }
  }
  free(src); free(out);
}
static void small(Case &c) {
  uint64_t i = c.idx; std::string s = i < 256 ? std::string(1, (char)i) : std::string{(char)((i - 256) >> 8), (char)(i - 256)}; c.note("bytes %s", quote(s).c_str());
  for (size_t cap = 0; cap <= 8; ++cap) { check_encode(s, cap); check_decode(s, cap, true); } std::string e = ref_encode(s); for (size_t cap = 0; cap <= s.size() + 2; ++cap) check_decode(e, cap, false);
  if (i < 65536) { std::string esc = std::string("%") + (char)(i >> 8) + (char)i; check_decode(esc, 4, true); check_decode("a" + esc + "b", 10, true); }
}
static std::string gen_bytes(Case &c) { static const std::string mixed = std::string("aZ09.-*_ +%/&=?\0\xff\x80~", 20); return c.boolean() ? c.str(1, c.draw(9) == 9 ? 400 : 40, mixed) : c.payload(c.size(1, 60)); }
static void encode(Case &c) {
  std::string s = gen_bytes(c), want = ref_encode(s); size_t cap; switch (c.draw(3)) { case 0: cap = want.size() + 1 + c.draw(5); break; case 1: cap = want.size() + 1 - c.draw(std::min<size_t>(want.size() + 1, 4)); break; case 2: cap = c.draw(want.size() + 4); break; default: cap = 3 * s.size() + 1; }
  c.note("encode(%s, capacity %zu)", quote(s).c_str(), cap); check_encode(s, cap); if (want.size() > s.size() && cap <= want.size() + 1) { c.nontrivial(); c.label(cap == want.size() + 1 ? "exact fit" : "does not fit"); }
  if (cap > want.size()) { check_decode(want, s.size() + 1, c.boolean()); check_decode(want, 1 + c.draw(s.size()), true); }
}
static void decode(Case &c) {
  std::string t; size_t n = c.size(1, 30); bool broken = false, esc = false;
  for (size_t i = 0; i < n; ++i) { Span sp(c); switch (c.weighted({20, 10, 4, 2, 1, 1})) { case 0: t += "aZ9._-*"[c.draw(6)]; break; case 1: { char b[4]; snprintf(b, sizeof b, c.boolean() ? "%%%02X" : "%%%02x", (unsigned)c.draw(255)); t += b; esc = true; break; } case 2: t += '+'; break;
      case 3: t += '%'; t += c.chars(2, "0fFgG/:@`x%"); esc = true; broken = true; break; case 4: t += (char)c.draw(255); broken = true; break; default: t += "%"; broken = true; } }
  if (c.draw(3) == 3 && t.size() > 1) t.resize(t.size() - 1);
  size_t cap = c.boolean() ? t.size() + 1 : c.draw(t.size() + 2); c.note("decode(%s, capacity %zu)", quote(t).c_str(), cap); check_decode(t, cap, c.boolean());
  if (broken) c.label("broken text"); if (esc && cap <= t.size()) c.nontrivial();
}
static void resume(Case &c) {
  std::string s = gen_bytes(c), t = ref_encode(s), got; char *src = exact(t), *p = src; size_t pieces = 0; std::string caps;
  while (p < src + t.size()) {
    size_t cap = c.range(2, 12); char *out = (char *)malloc(cap), *next = nullptr; int r = lcu_url_decode(out, cap, p, (size_t)(src + t.size() - p), &next); if (r < 0) fail("resumed decode failed with %d", r);
    if (out[r]) fail("a piece is not terminated"); got.append(out, (size_t)r); free(out); if (next <= p || next > src + t.size()) fail("decode reports position %zd after %zd", (ssize_t)(next - src), (ssize_t)(p - src)); p = next; ++pieces;
  }
  c.note("decode %s in %zu pieces", quote(t).c_str(), pieces); PBT_CHECK(got == s, "the pieces make %s, expected %s", quote(got).c_str(), quote(s).c_str()); free(src); if (pieces > 1 && t.size() > s.size()) c.nontrivial();
}
static void large(Case &c) {   // texts of up to 200000 characters, capacities around the exact fit
  size_t n = c.boolean() ? (size_t(1) << c.range(8, 17)) - 3 + c.draw(6) : c.size(60, 200000); uint64_t salt = c.draw(1000); unsigned esc = (unsigned)c.draw(4); std::string s(n, 0); for (size_t i = 0; i < n; ++i) { uint64_t h = mix64(salt + i * 131); s[i] = h % 5 < esc ? (char)(h >> 8) : "aZ09.-*_ "[(h >> 8) % 9]; }
  std::string want = ref_encode(s); size_t cap = c.boolean() ? want.size() - 2 + c.draw(6) : c.draw(want.size() + 10); c.note("%zu bytes, %zu characters encoded, capacity %zu", n, want.size(), cap); check_encode(s, cap); check_encode(s, want.size() + 1);
  check_decode(want, s.size() + 1, c.boolean()); check_decode(want, c.draw(want.size() + 2), true); if (want.size() > n && cap <= want.size() + 1) c.nontrivial();
}
std::vector<Suite> suites = {{"large", large, 3000, 60000}, {"1 and 2 bytes", small, 256 + 65536, 256 + 65536, 30000, false, false, true}, {"encode", encode, 2400000, 24000000}, {"decode", decode, 2400000, 24000000}, {"resume", resume, 1200000, 12000000}};
