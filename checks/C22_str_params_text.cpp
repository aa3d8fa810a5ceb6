// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <map>
#include <set>
#undef strdup
extern "C" {
#include "mem/str_params.h"
#include "log/xlog.h"
}
using namespace pbt;

Property property = {
  "C22",
  "texts generated from the grammar (pairs, repeated keys, missing '=', empty keys and values, several '=', empty items) and from random characters, any delimiter; stores with up to 60 (thorough 400) generated pairs, and (suite large) up to 34000 pairs or keys and values of up to 200000 characters; parsed stores are "
  "compared with a reference parse, logged by str_params_dump, dumped and parsed again; non-trivial: a key was listed twice or an item was skipped, and at least two pairs remained",
  "exploration", {"keys contain neither '=' nor the delimiter and are not empty, values do not contain the delimiter", "only the first character of the delimiter string counts"}};

typedef std::map<std::string, std::string> Map;
static Map reference(const std::string &s, char d, bool &odd) {
  Map m; size_t i = 0; while (i <= s.size()) { size_t j = s.find(d, i); if (j == std::string::npos) j = s.size(); std::string it = s.substr(i, j - i); i = j + 1; if (it.empty()) continue; size_t e = it.find('='); if (e == 0) { odd = true; continue; } std::string k = it.substr(0, e); if (m.count(k)) odd = true; m[k] = e == std::string::npos ? "" : it.substr(e + 1); }
  return m;
}
static void compare(str_params_ptr p, const Map &m, const std::vector<std::string> &absent, const char *what) {
  for (auto &kv : m) { std::string o(kv.second.size() + 1, 'z'); PBT_CHECK(str_params_has_key(p, kv.first.c_str()), "%s: key %s is missing", what, quote(kv.first).c_str()); int r = str_params_get_str(p, kv.first.c_str(), &o[0], o.size()); PBT_CHECK(r >= 0 && kv.second == o.c_str(), "%s: %s is %s (%d), expected %s", what, quote(kv.first).c_str(), quote(o.c_str(), strlen(o.c_str())).c_str(), r, quote(kv.second).c_str()); }
  for (auto &a : absent) if (!m.count(a)) PBT_CHECK(!str_params_has_key(p, a.c_str()), "%s: unexpected key %s", what, quote(a).c_str());
}
// str_params_dump logs every pair exactly once
static std::vector<std::string> logged;
static void on_log(LogLevel, void *m, size_t n, void *) { logged.push_back(std::string((char *)m, strnlen((char *)m, n))); }
static void dump_log(str_params_ptr p, const Map &m) {
  logged.clear(); xlog_set_target(LOG_TARGET_USER_CALLBACK); xlog_set_format(LOG_FORMAT_RAW); xlog_set_user_callback(on_log, nullptr); xlog_set_min_level(LOG_LEVEL_VERBOSE); str_params_dump(p); xlog_set_min_level(LOG_LEVEL_OFF);
  std::multiset<std::string> want, got(logged.begin(), logged.end()); for (auto &kv : m) want.insert("key=\"" + kv.first + "\", value=\"" + kv.second + "\""); if (got == want) return;
  PBT_EQ(logged.size(), m.size(), "pairs logged by str_params_dump"); for (auto &kv : m) { bool found = false; for (auto &l : logged) { size_t a = l.find(kv.first); found = found || (a != std::string::npos && l.find(kv.second, a + kv.first.size()) != std::string::npos); } PBT_CHECK(found, "str_params_dump does not log %s = %s", quote(kv.first).c_str(), quote(kv.second).c_str()); }
}
// to_str lists every pair exactly once, and parses back
static void dump_and_reparse(str_params_ptr p, const Map &m, const char *delim, char d, Case &c) {
  if (c.chance(1, 3)) dump_log(p, m);
  char *t = str_params_to_str(p); PBT_CHECK(t, "to_str returned NULL"); std::string text = t; c.note("to_str -> %s", quote(text).c_str()); mem::release(t);
  size_t len = m.empty() ? 0 : m.size() - 1; for (auto &kv : m) len += kv.first.size() + 1 + kv.second.size(); PBT_EQ(text.size(), len, "length of the text form"); bool odd = false; PBT_CHECK(reference(text, d, odd) == m && !odd, "the text form %s does not list exactly the pairs of the store", quote(text).c_str());
  str_params_ptr q = str_params_create_str(delim, text.c_str()); PBT_CHECK(q, "create_str of the text form failed"); compare(q, m, {}, "reparsed"); t = str_params_to_str(q); PBT_CHECK(t && strlen(t) == len, "text form of the reparsed store has another length"); mem::release(t); str_params_destroy(q);
}
static void parse(Case &c) {
  mem::start(); xlog_set_min_level(LOG_LEVEL_OFF); const char *delim = c.oneof<const char *>({nullptr, ";", ",", "&;", "|", " ", "\n"}); char d = delim ? delim[0] : ';'; std::string D(1, d), s; bool odd = false;
  unsigned kind = c.draw(3); if (kind == 0) s = c.str(0, 60, D + D + "==ab"); else if (kind == 1) { s = c.payload(c.size(0, 80)); for (char &ch : s) if (!ch) ch = d; else if ((unsigned char)ch > 230) ch = '='; }
  else { size_t n = c.size(0, c.thorough ? 200 : 40); for (size_t i = 0; i < n; ++i) { Span sp(c); if (i) s += D; std::string k = c.str(0, 3, "abc"), v; if (c.draw(200) == 200) { size_t l = c.size(100, 3000); k += std::string(l, 'k') + c.str(0, 2, "ab"); } v = c.draw(40) == 40 ? std::string(c.size(100, 3000), 'v') : c.str(0, 6, "xy= ;,"); for (char &ch : v) if (ch == d) ch = '.'; switch (c.weighted({10, 1, 1, 1, 1})) { case 0: s += k + "=" + v; break; case 1: s += k; break; case 2: s += "=" + v; break; case 3: break; default: s += k + "="; } } if (c.draw(3) == 3) s += D; }
  c.note("create_str(%s, %s)", delim ? quote(delim, strlen(delim)).c_str() : "NULL", quote(s, 400).c_str()); Map m = reference(s, d, odd); char *e = strdup(s.c_str());
  str_params_ptr p = str_params_create_str(delim, e); PBT_CHECK(p, "create_str failed"); PBT_CHECK(s == e, "create_str changed its argument"); memset(e, '#', s.size()); free(e);
  compare(p, m, {"", "a", "b", "c", "ab", "ac", "abc", "ca", "x", "xy", D, "="}, "parsed"); dump_and_reparse(p, m, delim, d, c);
  // the parsed store is a normal store
  if (c.boolean()) { Map m2 = m; size_t n = c.size(1, 10); for (size_t i = 0; i < n; ++i) { std::string k = c.str(1, 3, "abc"); if (c.boolean()) { std::string v = c.str(0, 4, "pq"); PBT_EQ(str_params_add_str(p, k.c_str(), v.c_str()), 0, "add_str"); m2[k] = v; } else { str_params_del(p, k.c_str()); m2.erase(k); } } compare(p, m2, {"a", "b", "c"}, "after changes"); dump_and_reparse(p, m2, delim, d, c); }
  str_params_destroy(p); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (odd) c.label("repeated or key-less"); if (m.empty()) c.label("no pairs"); if (odd && m.size() >= 2) c.nontrivial();
}
static void store(Case &c) {
  mem::start(); xlog_set_min_level(LOG_LEVEL_OFF); const char *delim = c.oneof<const char *>({nullptr, ";", ",", "&", "\t"}); char d = delim ? delim[0] : ';'; str_params_ptr p = str_params_create(delim); PBT_CHECK(p, "create failed"); Map m; size_t n = c.size(0, c.thorough ? 400 : 60); bool over = false;
  for (size_t i = 0; i < n; ++i) { Span sp(c); std::string k = c.boolean() ? c.str(1, 2, "abcd") : c.payload(c.size(1, 30)), v = c.payload(c.draw(60) == 60 ? c.size(0, 5000) : c.size(0, 30)); for (char &ch : k) if (!ch || ch == d || ch == '=') ch = 'k'; for (char &ch : v) if (!ch || ch == d) ch = 'v'; if (m.count(k)) over = true; if (c.draw(9) == 9) { str_params_del(p, k.c_str()); m.erase(k); } else { PBT_EQ(str_params_add_str(p, k.c_str(), v.c_str()), 0, "add_str"); m[k] = v; } }
  c.note("%zu pairs", m.size()); dump_and_reparse(p, m, delim, d, c); compare(p, m, {}, "after to_str"); str_params_destroy(p); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (m.size() > 20) c.label("many pairs"); if (over && m.size() >= 2) c.nontrivial();
}
// keys and values of up to 200000 characters, or tens of thousands of pairs
static void large(Case &c) {
  mem::start(); xlog_set_min_level(LOG_LEVEL_OFF); const char *delim = c.oneof<const char *>({nullptr, ",", "&"}); char d = delim ? delim[0] : ';'; bool many = c.chance(1, 8); Map m; std::string s; bool parsed = c.boolean();
  size_t n = many ? (c.draw(3) == 3 ? c.range(32700, 34000) : c.range(500, 3000)) : c.size(1, 5);
  auto len = [&] { return c.draw(2) ? c.size(0, 40) : c.boolean() ? (size_t(1) << c.range(12, 17)) - 4 + c.draw(8) : c.size(0, 200000); };
  for (size_t i = 0; i < n; ++i) { std::string k = many ? std::to_string(i * 7919 % 100003) : std::string(len(), 'k') + char('a' + c.draw(3)), v = many ? std::to_string(i) : std::string(len(), 'v') + char('a' + c.draw(9)); if (i) s += d; s += k + "=" + v; m[k] = v; }
  c.note("%zu pairs, %zu characters", m.size(), s.size()); str_params_ptr p = parsed ? str_params_create_str(delim, s.c_str()) : str_params_create(delim); PBT_CHECK(p, "create failed"); if (!parsed) for (auto &kv : m) PBT_EQ(str_params_add_str(p, kv.first.c_str(), kv.second.c_str()), 0, "add_str");
  compare(p, m, {"", "k", "x"}, "large"); if (m.size() < 3100) dump_and_reparse(p, m, delim, d, c); if (many) { size_t i = 0; Map left; for (auto &kv : m) if (++i % 3) str_params_del(p, kv.first.c_str()); else left.insert(kv); compare(p, left, {m.begin()->first}, "after deleting"); }
  str_params_destroy(p); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); if (s.size() > 65535) c.nontrivial();
}
std::vector<Suite> suites = {{"large", large, 500, 8000}, {"parse", parse, 450000, 4000000}, {"store", store, 180000, 1500000}};
