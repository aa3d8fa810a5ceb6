// variant: asan
#include "pbt.h"
#include "intercept.h"
extern "C" {
#include "data/base64.h"
}
using namespace pbt;

Property property = {
  "C16",
  "all byte strings of 1 and 2 bytes, generated byte strings up to 5000 bytes (suite large: up to 400000), and generated texts (base64 alphabet mixed with padding, garbage and NUL) for the decoder; compared with a reference RFC 4648 codec; "
  "buffers have exactly the announced size (AddressSanitizer watches them); non-trivial: at least 3 bytes encoded, or a text with a non-alphabet character decoded",
  "exploration", {"encoding zero bytes is refused with -1 (as the code does)", "decoding covers the text up to its first character outside the alphabet, as the RFC's '=' does; a lone 6-bit leftover is dropped"}};

static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_encode(const std::string &s) {
  std::string r; unsigned long acc = 0; int bits = 0;
  for (unsigned char ch : s) { acc = acc << 8 | ch; bits += 8; while (bits >= 6) { bits -= 6; r += A[acc >> bits & 63]; } }
  if (bits) r += A[acc << (6 - bits) & 63]; while (r.size() % 4) r += '='; return r;
}
static std::string ref_decode(const std::string &t) {
  std::string r; unsigned long acc = 0; int bits = 0;
  for (char ch : t) { const char *p = ch ? strchr(A, ch) : nullptr; if (!p) break; acc = acc << 6 | (unsigned)(p - A); bits += 6; if (bits >= 8) { bits -= 8; r += (char)(acc >> bits & 255); } }
  return r;
}
static void check_encode(const std::string &s) {
  std::string want = ref_encode(s); int n = lcu_base64_encode_buf_size(s.size()); PBT_EQ(n, want.size() + 1, "announced encode buffer size");
  char *src = (char *)malloc(s.size()), *out = (char *)malloc((size_t)n); memcpy(src, s.data(), s.size()); memset(out, 0x5a, (size_t)n);
  int r = lcu_base64_encode(out, src, s.size()); if (r != n) fail("encode(%s) returned %d, expected %d", quote(s).c_str(), r, n);
  if (memcmp(out, want.c_str(), (size_t)n)) fail("encode(%s) gave %s, expected %s", quote(s).c_str(), quote(out, (size_t)n).c_str(), want.c_str());
  int dn = lcu_base64_decode_buf_size(want.size()); PBT_CHECK(dn > (int)s.size(), "announced decode buffer size %d for %zu bytes", dn, s.size());
  char *dec = (char *)malloc((size_t)dn); int d = lcu_base64_decode(dec, out); if (d != (int)s.size() || memcmp(dec, s.data(), s.size())) fail("decode(encode(%s)) gave %d bytes %s", quote(s).c_str(), d, quote(dec, d > 0 ? (size_t)d : 0).c_str());
  free(src); free(out); free(dec);
}
static void small(Case &c) {   // every string of one and two bytes
  uint64_t i = c.idx; std::string s; if (i < 256) s = std::string(1, (char)i); else s = {(char)((i - 256) >> 8), (char)(i - 256)};
  c.note("bytes %s", quote(s).c_str()); check_encode(s);
}
static void round_trip(Case &c) {
  size_t n = c.size(1, c.draw(9) == 9 ? 5000 : 80); std::string s = c.boolean() ? c.payload(n) : c.chars(std::min<size_t>(n, 60), std::string("\0\xff\x80\x7f" "a\xf0\x0f\xc0", 8));
  c.note("encode %s", quote(s).c_str()); check_encode(s); if (s.size() >= 3) c.nontrivial(); c.label("length mod 3 = %zu", s.size() % 3);
  char one[8] = "keep"; PBT_EQ(lcu_base64_encode(one, "x", 0), -1, "encode of nothing"); PBT_CHECK(!strcmp(one, "keep"), "encode of nothing wrote");
}
static void large(Case &c) {   // lengths around powers of two, up to some hundred thousand bytes
  size_t n = c.oneof<size_t>({c.size(5000, 400000), 49149 + c.draw(8), 65533 + c.draw(6), 98301 + c.draw(8), 131070 + c.draw(4), 24573 + c.draw(6)}); std::string s = c.payload(n);
  c.note("encode %zu bytes", n); check_encode(s); c.nontrivial(); c.label("length mod 3 = %zu", n % 3);
}
static void decode_any(Case &c) {
  static const std::string alpha = std::string(A) + std::string("=", 1); static const std::string junk = std::string("-_ \n\t=\0.%~\x80\xff@[`{:", 17);
  std::string t = c.str(0, 60, A); bool bad = c.draw(2) > 0; if (bad) { size_t n = 1 + c.draw(2); for (size_t i = 0; i < n; ++i) t.insert(c.draw(t.size()), 1, c.draw(3) ? junk[c.draw(junk.size() - 1)] : (char)c.draw(255)); }
  std::string z = t.substr(0, t.find('\0')); std::string want = ref_decode(z); c.note("decode %s", quote(t).c_str());
  char *src = strdup(z.c_str()); size_t cap = (size_t)lcu_base64_decode_buf_size(z.size()); char *out = (char *)malloc(cap); memset(out, 0x5a, cap);
  int r = lcu_base64_decode(out, src); PBT_EQ(r, want.size(), "decoded length"); PBT_CHECK(!memcmp(out, want.data(), want.size()), "decoded bytes %s, expected %s", quote(out, (size_t)r).c_str(), quote(want).c_str());
  PBT_CHECK(out[r] == 0, "the decoded bytes are not followed by a NUL"); free(src); free(out); if (bad && z.size() > 4) { c.nontrivial(); c.label("text with other characters"); }
}
std::vector<Suite> suites = {{"1 and 2 bytes", small, 256 + 65536, 256 + 65536, 30000, false, false, true}, {"round trip", round_trip, 3200000, 24000000}, {"large", large, 2500, 40000}, {"decode", decode_any, 3200000, 24000000}};
