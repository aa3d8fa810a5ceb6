// The reference model of an ini_parser store.
#pragma once
#include <strings.h>
#include <cstring>
#include <string>
#include <vector>
#include "pbt.h"
struct IniSection { std::string name; std::vector<std::pair<std::string, std::string>> kv; };
struct IniModel {
  std::vector<IniSection> s;
  // names are significant, and kept, in their first 63 characters; values are kept in their first 255
  static bool eq(const std::string &a, const std::string &b) { return strncasecmp(a.c_str(), b.c_str(), 63) == 0; }
  int find(const std::string &n) const { for (size_t i = 0; i < s.size(); ++i) if (eq(s[i].name, n)) return (int)i; return -1; }
  const std::string *get(const std::string &n, const std::string &k) const { int i = find(n); if (i >= 0) for (auto &p : s[i].kv) if (eq(p.first, k)) return &p.second; return nullptr; }
  bool put(const std::string &n, const std::string &k, const std::string &v) {   // true: an existing value was replaced
    int i = find(n); if (i < 0) { s.push_back({n.substr(0, 63), {}}); i = (int)s.size() - 1; }
    for (auto &p : s[i].kv) if (eq(p.first, k)) { p.second = v.substr(0, 255); return true; }
    s[i].kv.push_back({k.substr(0, 63), v.substr(0, 255)}); return false;
  }
  bool erase(const std::string &n, const std::string &k) { int i = find(n); if (i < 0) return false; auto &kv = s[i].kv; for (size_t j = 0; j < kv.size(); ++j) if (eq(kv[j].first, k)) { kv.erase(kv.begin() + j); return true; } return false; }
  bool erase(const std::string &n) { int i = find(n); if (i < 0) return false; s.erase(s.begin() + i); return true; }
  size_t pairs() const { size_t n = 0; for (auto &x : s) n += x.kv.size(); return n; }
};
struct IniSeen { std::vector<std::vector<std::string>> v; size_t stop_after = (size_t)-1; int stop_code = 1; bool stopped = false; };
static inline int ini_seen_cb(const char *section, const char *name, const char *value, const void *user) {
  IniSeen *x = (IniSeen *)user; if (x->stopped) pbt::fail("ini_parser_foreach called its handler again after it asked to stop");
  if (!section || !name || !value) pbt::fail("ini_parser_foreach passed a NULL");
  x->v.push_back({section, name, value}); if (x->v.size() >= x->stop_after) { x->stopped = true; return x->stop_code; } return 0;
}
static inline void ini_compare(ini_parser_handle p, const IniModel &m, const char *what) {
  IniSeen seen; int r = ini_parser_foreach(p, ini_seen_cb, &seen); if (r) pbt::fail("%s: ini_parser_foreach returned %d", what, r); size_t i = 0;
  for (auto &s : m.s) for (auto &kv : s.kv) {
    if (i >= seen.v.size()) pbt::fail("%s: foreach ended after %zu of %zu pairs", what, i, m.pairs());
    auto &g = seen.v[i]; if (g[0] != s.name || g[1] != kv.first || g[2] != kv.second) pbt::fail("%s: pair %zu is [%s] %s = %s, expected [%s] %s = %s", what, i, pbt::quote(g[0]).c_str(), pbt::quote(g[1]).c_str(), pbt::quote(g[2], 300).c_str(), pbt::quote(s.name).c_str(), pbt::quote(kv.first).c_str(), pbt::quote(kv.second, 300).c_str());
    ++i;
  }
  if (i != seen.v.size()) pbt::fail("%s: foreach visited %zu pairs, expected %zu", what, seen.v.size(), i);
}
