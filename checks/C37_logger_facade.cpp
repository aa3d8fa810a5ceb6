// variant: asan
// extra: tu/facade.c -DNAME=xlog -DBACKEND=0 -DTAG='"mod"'
// extra: tu/facade.c -DNAME=xlog_affixes -DBACKEND=0 -DTAG='"pre-mod-suf"' -DLOG_TAG_PREFIX='"pre-"' -DLOG_TAG_SUFFIX='"-suf"'
// extra: tu/facade.c -DNAME=xlog_selected -DBACKEND=0 -DTAG='"mod"' -DLCU_LOGGER_SELECTOR=0 -D_LCU_LOGGER_DISABLE=0 -D_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT=1
// extra: tu/facade.c -DNAME=xlog_disabled -DBACKEND=2 -DTAG='"mod"' -D_LCU_LOGGER_DISABLE=1
// extra: tu/facade.c -DNAME=slog -DBACKEND=1 -DTAG='"mod"' -DLCU_LOGGER_SELECTOR=1
// extra: tu/facade.c -DNAME=slog_affixes -DBACKEND=1 -DTAG='"pre-mod"' -DLCU_LOGGER_SELECTOR=1 -DLOG_TAG_PREFIX='"pre-"' -D_LCU_LOGGER_DISABLE=0 -D_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT=1
// extra: tu/facade.c -DNAME=slog_disabled -DBACKEND=2 -DTAG='"mod"' -DLCU_LOGGER_SELECTOR=1 -D_LCU_LOGGER_DISABLE=1
// extra: tu/facade.c -DNAME=only_xlog -DBACKEND=0 -DTAG='"mod"' -DONLY_XLOG
// extra: tu/facade.c -DNAME=only_xlog_untagged -DBACKEND=0 -DTAG=NULL -DONLY_XLOG -DNO_TAG
// extra: tu/facade.c -DNAME=only_xlog_off -DBACKEND=2 -DTAG='"mod"' -DONLY_XLOG -DLCU_XLOG_OFF=1
// extra: tu/facade.c -DNAME=only_xlog_on -DBACKEND=0 -DTAG='"mod"' -DONLY_XLOG -DLCU_XLOG_OFF=0 -D_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT=1
// extra: tu/facade.c -DNAME=only_slog -DBACKEND=1 -DTAG='"mod"' -DONLY_SLOG
// extra: tu/facade.c -DNAME=only_slog_untagged -DBACKEND=1 -DTAG='"SLOG"' -DONLY_SLOG -DNO_TAG -D_LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT=1
#include "pbt.h"
#include "intercept.h"
#include "capture.h"
#include <fcntl.h>
extern "C" {
#include "log/xlog.h"
#include "log/slog.h"
}
#include "tu/facade.h"
using namespace pbt;
extern "C" { extern const facade_t facade_xlog, facade_xlog_affixes, facade_xlog_selected, facade_xlog_disabled, facade_slog, facade_slog_affixes, facade_slog_disabled, facade_only_xlog, facade_only_xlog_untagged, facade_only_xlog_off, facade_only_xlog_on, facade_only_slog, facade_only_slog_untagged; }
static const facade_t *const all[] = {&facade_xlog, &facade_slog, &facade_xlog_disabled, &facade_xlog_affixes, &facade_xlog_selected, &facade_slog_affixes, &facade_slog_disabled, &facade_only_xlog, &facade_only_xlog_untagged, &facade_only_xlog_off, &facade_only_xlog_on, &facade_only_slog, &facade_only_slog_untagged};

Property property = {
  "C37",
  "interleaved histories of log calls through 13 C modules that include the logger with different selectors, tags, affixes and switches, each log macro used as the body of an if with an else, with the levels of both loggers set through the "
  "facade and directly; console output, argument evaluations and reported levels compared with a model; non-trivial: modules over both loggers and a switched-off one were used, and a message was filtered",
  "exploration", {"xlog evaluates the arguments of a filtered message, slog does not: both are accepted", "messages shorter than the loggers' buffers (longer ones are C29's)"}};

static std::string plain(Case &c, size_t max) { std::string s = c.payload(c.size(0, max)); for (char &ch : s) ch = "abcXYZ %d01_\t-"[(unsigned char)ch % 14]; return s; }
struct Quiet { int saved; Quiet() { fflush(stderr); saved = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { fflush(stderr); dup2(saved, 2); close(saved); } };
static void history(Case &c) {
  static const char L[] = "0VDIWE"; Quiet q; int xmin = 1, smin = 1; char def[] = "XLog"; xlog_set_target(LOG_TARGET_CONSOLE); xlog_set_default_tag(def); xlog_auto_level_up(LOG_LEVEL_OFF); xlog_set_format(LOG_FORMAT_WITH_TAG_LEVEL); xlog_set_min_level(LOG_LEVEL_VERBOSE); slog_set_min_level(LOG_LEVEL_VERBOSE);
  unsigned used = 0; bool filtered = false; int inits = 0; size_t n = c.size(1, 40); std::string err; Capture cap;
  for (size_t i = 0; i < n && err.empty(); ++i) {
    Span sp(c); const facade_t &f = *all[c.weighted({4, 4, 2, 3, 2, 3, 2, 2, 2, 2, 1, 2, 2})]; used |= 1u << f.backend; unsigned op = c.weighted({20, 4, 2, 2});
    if (op == 0) {
      int level = 1 + (int)c.draw(4), how = (int)c.draw(HOWS - 1), a = (int)c.irange(-9, 9), b = (int)c.irange(-9, 9), evals = 0, line = 0; const char *func = nullptr; std::string tag = c.str(1, 12, "tT-_9"), m = plain(c, 60);
      bool on = f.backend == 0 ? xmin && level >= xmin : f.backend == 1 ? smin && level >= smin : false; f.log(level, how, tag.c_str(), m.data(), m.size(), a, b, &evals, &line, &func);
      bool own = how == 1 || how == 3 || how == 5 || how >= 7, trace = how == 2 || how == 3 || how == 8; std::string t = own ? tag : f.tag ? f.tag : "XLog", text;
      if (how <= 3) text = m.c_str(); else if (how <= 5) { char h[5]; for (unsigned char ch : m) { snprintf(h, sizeof h, " %02x", ch); text += h; } } else if (how == 6) text = "plain 100%"; else text = std::to_string(how == 7 ? a - b : a & b ? 7 : 8) + "|" + m.c_str() + "|x";
      if (trace) { std::string w = std::string("(") + (func ? func : "?") + ":" + std::to_string(line) + ") "; text = w + text; }
      std::string want; if (on && f.backend == 0) { if (t.size() > 22) t.resize(22); while (t.size() < 8) t += ' '; want = std::string(" ") + L[level] + "/" + t + ": " + text + "\n"; } else if (on) want = std::string("[") + L[level] + "/" + t + "]" + (trace ? "" : " ") + text + "\n";
      std::string got = cap.take(); c.note("%s: level %d, macro %d, tag %s, message %s -> %s", f.name, level, how, quote(tag).c_str(), quote(m).c_str(), quote(got).c_str()); if (!on) filtered = true;
      if (got != want) err = "printed " + quote(got) + ", expected " + quote(want); else if (line == -1) err = "the else branch of the program was taken by the macro"; else if (how != 6 && (evals > 1 || (on && !evals) || (f.backend == 2 && evals))) err = "the argument was evaluated " + std::to_string(evals) + " times";
    } else if (op == 1) {
      int l = (int)c.irange(-1, 7); if (f.full) { f.set_min(l); if (l >= 0 && l <= 5) { if (f.backend == 0) xmin = l; else if (f.backend == 1) smin = l; } } else { l = (int)c.draw(5); if (f.backend == 0) xlog_set_min_level((LogLevel)(xmin = l)); else slog_set_min_level((LogLevel)(smin = l)); } c.note("%s: level := %d", f.name, l);
      if ((int)xlog_get_min_level() != xmin || (int)slog_get_min_level() != smin) err = "the levels are " + std::to_string(xlog_get_min_level()) + " and " + std::to_string(slog_get_min_level()) + ", expected " + std::to_string(xmin) + " and " + std::to_string(smin);
    } else if (op == 2) { if (f.full) { int g = f.get_min(), w = f.backend == 0 ? xmin : f.backend == 1 ? smin : 0; if (g != w) err = std::string(f.name) + " reports level " + std::to_string(g) + ", expected " + std::to_string(w); } }
    else { if (inits && c.boolean()) { facade_xlog.cleanup(); --inits; } else if (f.full) { f.init(); if (f.backend == 0) ++inits; } }
    if (err.empty()) { std::string g = cap.take(); if (!g.empty()) err = "a configuration call printed " + quote(g); }
  }
  while (inits--) facade_xlog.cleanup();
  xlog_set_min_level(LOG_LEVEL_VERBOSE); slog_set_min_level(LOG_LEVEL_VERBOSE); if (!err.empty()) fail("%s", err.c_str()); if (used == 7 && filtered) c.nontrivial();
}
// redirection through the facade, each case in its own process
static void redirect(Case &c) {
  Quiet q; const facade_t &f = *all[c.draw(12)]; std::string p = scratch() + "/facade.log", want; unlink(p.c_str()); bool works = f.backend != 2 && f.name != facade_xlog_selected.name && f.name != facade_slog_affixes.name && f.name != facade_only_xlog_on.name && f.name != facade_only_slog_untagged.name;
  xlog_set_format(LOG_FORMAT_RAW); f.to_file(nullptr); if (works) f.to_file(&p[0]); else { f.to_file(&p[0]); PBT_CHECK(access(p.c_str(), F_OK) != 0, "%s created the file although it cannot redirect", f.name); }
  if (works) { size_t n = c.size(1, 8); for (size_t i = 0; i < n; ++i) { std::string m = plain(c, 40); int e = 0, l = 0; const char *fn; f.log(3, 1, "t", m.c_str(), m.size(), 0, 0, &e, &l, &fn); want += (f.backend ? "[I/t] " : "") + std::string(m.c_str()) + "\n"; } fflush(stdout); std::string g = read_file(p); PBT_CHECK(g == want, "the file has %s, expected %s", quote(g).c_str(), quote(want).c_str()); c.nontrivial(); }
  c.note("%s: %zu bytes redirected", f.name, want.size());
}
std::vector<Suite> suites = {{"history", history, 60000, 1500000}, {"redirect", redirect, 300, 5000, 30000, true}};
