#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { HOWS = 9 };
typedef struct {
  const char *name; int backend;          // 0 xlog, 1 slog, 2 switched off
  const char *tag;                        // the tag of the LOGx macros, NULL: the default one
  int full;                               // has the LOG_SET_MIN_LEVEL.. part
  void (*log)(int level, int how, const char *tag, const char *m, size_t n, int a, int b, int *evals, int *line, const char **func);
  void (*init)(void); void (*cleanup)(void); void (*set_min)(int); int (*get_min)(void); void (*to_file)(char *); void (*back)(void);
} facade_t;
#ifdef __cplusplus
}
#endif
