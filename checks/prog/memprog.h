// A user's program with several source files, each of which includes mem_debug.h first.
#pragma once
struct loc { const char *file, *func; int line; };
enum { MALLOC, CALLOC, REALLOC, STRDUP, STRNDUP, LONG_NAME, NC, NEW = NC, NEW_ARRAY, NEW_CHARS, NCXX };
#ifdef __cplusplus
extern "C" {
#endif
typedef struct unit {
  const char *file;
  void *(*alloc)(int how, size_t a, size_t b, const char *src, struct loc *l);
  void *(*re)(void *p, size_t n, struct loc *l);
  void (*release)(int how, void *p);
  int (*refused)(int how); // requests that can't be met and constructors that throw: 0 if all went well
  int cxx;
} unit;
extern const unit unit_c1, unit_c2, unit_x1, unit_x2;
extern long mp_objects; // objects of class Obj alive
extern int mp_evals;    // arguments evaluated
int mp_module(unsigned which, unsigned seed);   // uses a module of the library; 0 if it did what it should
int mp_nmodules(void);
#define OBJ 24
#ifdef __cplusplus
}
#endif
