#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  const char *name; int debug;
  uintptr_t (*uint_trip)(uintptr_t a, uintptr_t b); intptr_t (*int_trip)(intptr_t a, intptr_t b); long long (*long_trip)(long long a, long long b);
  long long (*max_)(long long a, long long b), (*min_)(long long a, long long b), (*abs_)(long long a, long long b); double (*maxd)(double a, double b), (*mind)(double a, double b), (*absd)(double a);
  unsigned (*maxmask)(unsigned a, unsigned b, unsigned c), (*minmask)(unsigned a, unsigned b, unsigned c);
  void (*seed)(unsigned s); int (*rnd)(int a, int b); int (*rnd_shifted)(int a, int b, int d);
  size_t (*len)(int which); size_t (*sum)(int which);
  void *(*release)(void **slots, size_t i, int *else_taken); FILE *(*close_)(FILE *f, int *else_taken);
  const char *(*nullable)(const char *s); const char *(*str)(int which); int (*cat)(int which);
  size_t enum_count; const char *const *enum_strs; const int *enum_values;
  int (*abort_unless)(int *evals, int a, int b); int (*assert_)(int *evals, int a, int b); void (*emergency)(int a, const char *s);
  uintptr_t (*uint_or)(uintptr_t a, uintptr_t b); intptr_t (*int_or)(intptr_t a, intptr_t b); int (*rnd_or)(int a, int b); int (*abort_wide)(int kind, long long v, double d, const void *p);
} macros_t;
extern size_t macros_freed; extern void *macros_last_freed; void macros_free(void *p); int macros_rand(void);
#ifdef __cplusplus
}
#endif
