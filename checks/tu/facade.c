/* One use of the logging macros; compiled once per way to configure them (-DNAME=..). */
#if !defined(NO_TAG)
#define LOG_TAG "mod"
#endif
#if defined(ONLY_XLOG)
#include "log/xlog.h"
#elif defined(ONLY_SLOG)
#include "log/slog.h"
#define LOG_STD2FILE SLOG_STD2FILE
#define LOG_BACK2STD SLOG_BACK2STD
#else
#include "log/logger.h"
#endif
#include "tu/facade.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)
#define EV(x) (++*evals, (x))
/* every macro as the whole body of an if, followed by an else */
#define ONE(L) \
static void log_##L(int how, const char *tag, const char *m, size_t n, int a, int b, int *evals, int *line, const char **func) { \
  *func = __func__; *line = __LINE__; (void)tag; (void)m; (void)n; (void)a; (void)b; \
  switch (how) { \
  case 0: if (evals) LOG##L("%s", EV(m)); else *line = -1; break; \
  case 1: if (evals) TLOG##L(tag, "%s", EV(m)); else *line = -1; break; \
  case 2: if (evals) LOG##L##_TRACE("%s", EV(m)); else *line = -1; break; \
  case 3: if (evals) TLOG##L##_TRACE(tag, "%s", EV(m)); else *line = -1; break; \
  case 4: if (evals) LOG##L##_HEX(EV(m), n); else *line = -1; break; \
  case 5: if (evals) TLOG##L##_HEX(tag, EV(m), n); else *line = -1; break; \
  case 6: if (evals) LOG##L("plain 100%%"); else *line = -1; break; \
  case 7: if (evals) TLOG##L(tag, "%d|%s|%c", EV(a - b), m, 'x'); else *line = -1; break; \
  default: if (evals) TLOG##L##_TRACE(tag, "%d|%s|%c", EV(a & b ? 7 : 8), m, 'x'); else *line = -1; break; } }
ONE(V) ONE(D) ONE(I) ONE(W) ONE(E)
static void log_any(int level, int how, const char *tag, const char *m, size_t n, int a, int b, int *evals, int *line, const char **func) {
  switch (level) { case 1: log_V(how, tag, m, n, a, b, evals, line, func); break; case 2: log_D(how, tag, m, n, a, b, evals, line, func); break; case 3: log_I(how, tag, m, n, a, b, evals, line, func); break;
    case 4: log_W(how, tag, m, n, a, b, evals, line, func); break; default: log_E(how, tag, m, n, a, b, evals, line, func); break; } }
static void to_file(char *p) { (void)p; if (p) LOG_STD2FILE(p); else p = NULL; }
static void back(void) { int x = 0; if (!x) LOG_BACK2STD(); else x = 1; }
#if defined(ONLY_XLOG) || defined(ONLY_SLOG)
#define FULL 0
static void init(void) {} static void cleanup(void) {} static void set_min(int l) { (void)l; } static int get_min(void) { return -1; }
#else
#define FULL 1
static void init(void) { if (FULL) LOG_GLOBAL_INIT(NULL); else back(); }
static void cleanup(void) { if (FULL) LOG_GLOBAL_CLEANUP(NULL); else back(); }
static void set_min(int l) { (void)l; if (FULL) LOG_SET_MIN_LEVEL(l); else back(); }
static int get_min(void) { return LOG_GET_MIN_LEVEL(); }
#endif
const facade_t CAT(facade_, NAME) = {STR(NAME), BACKEND, TAG, FULL, log_any, init, cleanup, set_min, get_min, to_file, back};
