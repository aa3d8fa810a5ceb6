// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <cerrno>
#include <climits>
#include <cmath>
#include <map>
#undef strdup
extern "C" {
#include "mem/str_params.h"
#include "log/xlog.h"
}
using namespace pbt;

Property property = {
  "C21",
  "histories of add (string, long, int, double, float), delete, has-key and get (string with output sizes around the needed one, long, int, double, float) over small and large key sets (colliding, empty, long keys, long common prefixes), numbers incl. "
  "the limits of their types and text values that look almost like numbers; compared with a map of strings; non-trivial: a key was overwritten, a key was deleted, and a typed get both succeeded and failed",
  "exploration", {"numbers out of the range of the requested type are not judged", "a successful str_params_get_str may return 0 or the length (header and code disagree)", "the reading of text as a number is that of strtol(base 0)/strtod"}};

static void history(Case &c) {
  mem::start(); xlog_set_min_level(LOG_LEVEL_OFF);
  const char *delim = c.oneof<const char *>({nullptr, ";", ",", "&;"}); str_params_ptr p = str_params_create(delim); PBT_CHECK(p, "str_params_create failed");
  size_t nk = c.size(1, c.thorough ? 200 : 40); std::string stem(c.draw(7) ? 0 : c.oneof<size_t>({14, 30, 62, 126, 254, 510, 1022, 4094}), 'k'); std::vector<std::string> keys; for (size_t i = 0; i < nk; ++i) { if (c.draw(7) == 7) keys.push_back(c.payload(c.size(0, 40))); else keys.push_back((c.boolean() ? stem : "") + c.str(0, 6, "abAB_.0 ")); for (char &ch : keys.back()) if (ch == 0) ch = 'x'; }
  std::map<std::string, std::string> model; bool over = false, del = false, ok = false, bad = false; size_t ops = c.size(1, c.thorough ? 300 : 80);
  for (size_t i = 0; i < ops; ++i) {
    Span sp(c); const std::string &k = c.pick(keys); auto it = model.find(k); bool have = it != model.end(); unsigned op = c.weighted({30, 8, 8, 8, 4, 10, 8, 20, 10, 10, 10, 4}); int saved = (int)c.draw(3) * 11; errno = saved;
    if (op <= 4) {
      int r; std::string v;
      if (op == 0) {
        static const std::vector<std::string> odd = {"", " ", "1x", "0x1f", "-0x7", "010", "  42", "42 ", "+5", "--5", "1e3", "1.5", ".5", "5.", "nan", "inf", "-inf", "0x", "0x1p3", "1,5", "e5", "08", "true"};
        v = c.draw(2) ? c.pick(odd) : c.payload(c.draw(30) == 30 ? c.size(0, 2000) : c.size(0, 20)); for (char &ch : v) if (ch == 0) ch = 'y';
        char *ek = strdup(k.c_str()), *ev = strdup(v.c_str()); r = str_params_add_str(p, ek, ev); c.note("add_str(%s, %s) -> %d", quote(k).c_str(), quote(v).c_str(), r); memset(ek, '#', k.size()); memset(ev, '#', v.size()); free(ek); free(ev);
      } else if (op == 1) { long n = c.oneof<long>({0, 1, -1, LONG_MAX, LONG_MIN, INT_MAX, INT_MIN, (long)c.next64()}); r = str_params_add_long(p, k.c_str(), n); v = std::to_string(n); c.note("add_long(%s, %ld) -> %d", quote(k).c_str(), n, r); }
      else if (op == 2) { int n = c.boolean() ? (int)c.next64() : c.oneof<int>({0, 1, -1, INT_MAX, INT_MIN}); r = str_params_add_int(p, k.c_str(), n); v = std::to_string(n); c.note("add_int(%s, %d) -> %d", quote(k).c_str(), n, r); }
      else {
        double d; switch (c.draw(4)) { case 0: d = (double)c.irange(-100000, 100000) / 16; break; case 1: d = (double)(int64_t)c.next64(); break; case 2: d = c.oneof<double>({0.0, -0.0, 1e300, -1.7976931348623157e308, 1e-9, 3.4e38, 0.1}); break; case 3: d = std::ldexp((double)c.draw(1u << 20), (int)c.irange(-60, 900)); break; default: d = 1.0 / (double)c.range(1, 1000); }
        float f = (float)d; if (op == 4 && !std::isfinite(f)) f = 1.5f; if (op == 4) d = f; char b[400]; snprintf(b, sizeof b, "%.10f", d); v = b; r = op == 3 ? str_params_add_double(p, k.c_str(), d) : str_params_add_float(p, k.c_str(), f); c.note("add_%s(%s, %g) -> %d", op == 3 ? "double" : "float", quote(k).c_str(), d, r);
        // the stored text may have more digits than promised here, but not fewer
        char got[512]; int g = str_params_get_str(p, k.c_str(), got, sizeof got); PBT_CHECK(g >= 0, "get_str after add_double gave %d", g); char *e; double back = strtod(got, &e); PBT_CHECK(*got && !*e, "add_double stored %s", quote(got, strlen(got)).c_str()); PBT_CHECK(std::fabs(back - d) <= 0.5000001e-10 + std::fabs(d) * 1e-15, "%.17g was stored as %s", d, got); v = got;
      }
      PBT_EQ(r, 0, "adding"); if (have) over = true; model[k] = v;
    } else if (op == 5) { str_params_del(p, k.c_str()); c.note("del(%s)", quote(k).c_str()); if (have) { del = true; model.erase(it); } }
    else if (op == 6) { bool h = str_params_has_key(p, k.c_str()); c.note("has_key(%s) -> %d", quote(k).c_str(), h); PBT_EQ(h, have, "has_key"); }
    else if (op == 7) {
      size_t need = have ? it->second.size() + 1 : 8, n = c.oneof<size_t>({need, need - 1, need + 1, 0, 1, need + 50, need / 2}); char *o = (char *)malloc(n ? n : 1); memset(o, 0x5a, n ? n : 1);
      int r = str_params_get_str(p, k.c_str(), n ? o : nullptr, n); c.note("get_str(%s, size %zu) -> %d", quote(k).c_str(), n, r);
      if (have && n >= need) { PBT_CHECK(r == 0 || (size_t)r == need - 1, "get_str of a value of %zu characters returned %d", need - 1, r); PBT_CHECK(it->second == o, "get_str(%s) gave %s, expected %s", quote(k).c_str(), quote(o, strlen(o)).c_str(), quote(it->second).c_str()); }
      else { PBT_EQ(r, have ? -ENOMEM : -ENOENT, "get_str"); for (size_t j = 0; j < n; ++j) PBT_CHECK(o[j] == 0x5a, "get_str failed but changed the output"); }
      free(o);
    } else if (op == 8 || op == 9) {
      char *e = nullptr; errno = 0; long want = 0; int wr = -ENOENT; bool range = false; if (have) { want = strtol(it->second.c_str(), &e, 0); range = errno == ERANGE; wr = it->second.empty() || *e ? -EINVAL : 0; } errno = saved;
      if (op == 8) { long g = 0x5a5a5a5a5aL; int r = str_params_get_long(p, k.c_str(), &g); c.note("get_long(%s) -> %d, %ld", quote(k).c_str(), r, g); if (!range) { PBT_EQ(r, wr, "get_long"); PBT_CHECK(g == (wr ? 0x5a5a5a5a5aL : want), "get_long gave %ld, expected %ld", g, want); } }
      else { int g = 0x5a5a5a; int r = str_params_get_int(p, k.c_str(), &g); c.note("get_int(%s) -> %d, %d", quote(k).c_str(), r, g); if (!range && want == (int)want) { PBT_EQ(r, wr, "get_int"); PBT_CHECK(g == (wr ? 0x5a5a5a : (int)want), "get_int gave %d, expected %ld", g, want); } }
      (wr ? bad : ok) = true;
    } else if (op == 10) {
      char *e = nullptr; double want = 0; int wr = -ENOENT; bool range = false; if (have) { errno = 0; want = strtod(it->second.c_str(), &e); range = errno == ERANGE; wr = it->second.empty() || *e ? -EINVAL : 0; }
      if (range) continue; auto same = [](double a, double b) { return a == b || (a != a && b != b); };
      if (c.boolean()) { double g = 777; int r = str_params_get_double(p, k.c_str(), &g); c.note("get_double(%s) -> %d, %g", quote(k).c_str(), r, g); PBT_EQ(r, wr, "get_double"); PBT_CHECK(same(g, wr ? 777 : want), "get_double gave %.17g, expected %.17g", g, want); }
      else { float g = 777; int r = str_params_get_float(p, k.c_str(), &g); c.note("get_float(%s) -> %d, %g", quote(k).c_str(), r, g); PBT_EQ(r, wr, "get_float"); if (wr || std::fabs(want) < 3e38 || want != want) PBT_CHECK(wr ? g == 777 : same(g, (float)want) || std::fabs(g - want) <= std::fabs(want) * 1.2e-7, "get_float gave %.9g, expected %.17g", g, want); }
      (wr ? bad : ok) = true;
    } else for (auto &kk : keys) PBT_EQ(str_params_has_key(p, kk.c_str()), model.count(kk), "has_key");
  }
  for (auto &kv : model) { std::string o(kv.second.size() + 1, 'z'); int r = str_params_get_str(p, kv.first.c_str(), &o[0], o.size()); PBT_CHECK(r >= 0 && kv.second == o.c_str(), "at the end get_str(%s) gave %d, %s, expected %s", quote(kv.first).c_str(), r, quote(o.c_str(), strlen(o.c_str())).c_str(), quote(kv.second).c_str()); }
  for (auto &kk : keys) PBT_EQ(str_params_has_key(p, kk.c_str()), model.count(kk), "has_key at the end");
  size_t most = model.size(); str_params_destroy(p); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
  if (over) c.label("overwritten"); if (del) c.label("deleted"); if (most > 21) c.label("grew"); if (ok) c.label("typed get succeeded"); if (bad) c.label("typed get refused"); if (over && del && ok && bad) c.nontrivial();
}
std::vector<Suite> suites = {{"history", history, 900000, 5000000}};
