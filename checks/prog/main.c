// Reads operations from stdin, keeps a model of what the program has allocated, and compares it with the tracker's account.
#include "mem/mem_debug.h"
#include "memprog.h"
#include <stdarg.h>
#include <stdint.h>
#include <unistd.h>

long mp_objects = 0; int mp_evals = 0;
#define NS 24
static const unit *const units[4] = {&unit_c1, &unit_c2, &unit_x1, &unit_x2};
static struct slot { char *p; size_t n; int how; unsigned pat; int grown; struct loc l; size_t objs; } S[NS];
static int step = 0;
#ifdef _LCU_MEM_CHECK_FEATURE_ENABLE
#define ON 1
#else
#define ON 0
#endif

static void die(const char *f, ...) { va_list a; va_start(a, f); printf("FAIL at operation %d: ", step); vprintf(f, a); va_end(a); printf("\n"); fflush(stdout); _exit(1); }
static void fill(struct slot *s) { for (size_t i = 0; i < s->n; ++i) s->p[i] = (char)(s->pat + i * 7); }
static void look(struct slot *s, size_t n) { for (size_t i = 0; i < n; ++i) if (s->p[i] != (char)(s->pat + i * 7)) die("byte %zu of a block of %zu bytes changed", i, s->n); }
static size_t total; static int nseen, seen[NS];
#if ON
static void on_leak(void *p, size_t size, char *file, char *func, int line, void *u) {
  if (u != (void *)&total) die("other user data"); total += size; ++nseen;
  for (int i = 0; i < NS; ++i) {
    struct slot *s = &S[i]; if (!s->p || (char *)p > s->p || (char *)p + 16 < s->p) continue;
    if (p != s->p && s->how != NEW_ARRAY) continue; size_t head = (size_t)(s->p - (char *)p);
    if (seen[i]++) die("a block was reported twice"); if (s->grown ? size < s->n : size != s->n + head) die("a block of %zu bytes was reported with %zu", s->n, size);
    char ef[128], en[32]; snprintf(ef, sizeof ef, "%s", s->l.file); snprintf(en, sizeof en, "%s", s->l.func);
    if (strcmp(file, ef) || strcmp(func, en) || line != s->l.line) die("a block allocated at %s (%s:%d) was reported at %s (%s:%d)", en, ef, s->l.line, func, file, line);
    return;
  }
  die("a block of %zu bytes allocated at %s (%s:%d) is no block of the program", size, func, file, line);
}
#endif
static void account(void) {
  total = 0; nseen = 0; memset(seen, 0, sizeof seen); long objs = 0;
#if ON
  size_t t = allocation_tracker_expect_no_allocations(on_leak, (void *)&total); if (t != total) die("%zu bytes reported in all, %zu one by one", t, total);
#endif
  for (int i = 0; i < NS; ++i) { struct slot *s = &S[i]; if (!s->p) continue; if (ON && !seen[i]) die("a block of %zu bytes allocated at %s:%d is missing from the account", s->n, s->l.file, s->l.line); look(s, s->n); objs += (long)s->objs; }
  if (objs != mp_objects) die("%ld objects are alive, expected %ld", mp_objects, objs);
}
static void evals(int want) { if (mp_evals != want) die("%d arguments were evaluated, expected %d", mp_evals, want); mp_evals = 0; }

int main(void) {
  setvbuf(stdout, NULL, _IOLBF, 256);
  MEM_CHECK_INIT();
  unsigned op, ui, si, x; size_t a, b;
  while (scanf("%u %u %u %zu %zu %u", &op, &ui, &si, &a, &b, &x) == 6) {
    ++step; const unit *u = units[ui % 4]; struct slot *s = &S[si % NS];
    switch (op) {
      case 0: { // allocate
        if (s->p) break; int how = (int)(x % (unsigned)(u->cxx ? NCXX : NC)); char *src = NULL; size_t n = a; mp_evals = 0; int ev = 1;
        s->pat = x; s->how = how; s->grown = 0; s->objs = 0;
        if (how == CALLOC) { n = a * b; ev = 2; } if (how == REALLOC) { if (!a) a = n = 1; ev = 2; s->grown = 1; }
        if (how == STRDUP || how == STRNDUP) { src = (char *)(malloc)(a + 1); if (!src) break; memset(src, 'a' + (int)(x % 26), a); src[a] = 0; n = (how == STRDUP || b > a ? a : b) + 1; if (how == STRNDUP) ev = 2; }
        if (how == NEW) { n = OBJ; ev = 0; s->objs = 1; } if (how == NEW_ARRAY) { a = a % 50 + 1; n = a * OBJ; s->objs = a; }
        s->p = (char *)u->alloc(how, a, b, src, &s->l); s->n = n; if (!s->p) die("no memory for %zu bytes", n); evals(ev); if (((uintptr_t)s->p - (how == NEW_ARRAY ? sizeof(size_t) : 0)) % _Alignof(max_align_t)) die("a block of %zu bytes is not aligned for every type", n);
        if (how == CALLOC) for (size_t i = 0; i < n; ++i) if (s->p[i]) die("byte %zu of a calloc is %d", i, s->p[i]);
        if (src) { if (memcmp(s->p, src, n - 1) || s->p[n - 1]) die("a copied string differs"); (free)(src); }
        fill(s); break;
      }
      case 1: { // realloc
        if (!s->p || s->how >= NC || s->how == STRDUP || !a) break; mp_evals = 0; size_t keep = a < s->n ? a : s->n; struct loc l; char *old = s->p, *p = (char *)u->re(s->p, a, &l); if (!p) die("no memory for %zu bytes", a); evals(2);
        if (ON && a <= s->n && p != old) die("a shrinking realloc moved the block"); s->p = p; if (p != old || !ON) s->l = l; s->grown = 1; look(s, keep); s->n = a; fill(s); break;
      }
      case 2: if (!s->p) break; look(s, s->n); if (s->how >= NC && !u->cxx) u = units[2 + ui % 2]; mp_evals = 0; if (s->how >= NC && !((s->how == NEW_CHARS) || (u == &unit_x1) == (s->l.file == unit_x1.file))) u = s->l.file == unit_x1.file ? &unit_x1 : &unit_x2; u->release(s->how, s->p); s->p = NULL; evals(s->how < NC); break;
      case 3: mp_evals = 0; u->release(MALLOC, NULL); evals(1); if (u->cxx) { u->release(NEW, NULL); u->release(NEW_ARRAY, NULL); } mp_evals = 0; break;
      case 4: if (u->refused((int)(x % 4))) die("a request that can't be met, or a throwing constructor, kind %u", x % 4); break;
      case 5: { int r = mp_module(x % (unsigned)mp_nmodules(), (unsigned)a); if (r) die("module %u: line %d", x % (unsigned)mp_nmodules(), r); break; }
#if ON
      case 9: { // a mistake of the program: it must be stopped by the library
        printf("MISTAKE %u\n", x % 4); fflush(stdout); struct slot *t = s; for (int i = 0; i < NS && !t->p; ++i) t = &S[i]; if (!t->p) { printf("NONE\n"); break; } const unit *d = t->how < NC ? u : t->l.file == unit_x1.file ? &unit_x1 : &unit_x2; size_t n = t->n + (t->grown ? 0 : 0);
        if (x % 4 == 0) { if (t->grown) { printf("NONE\n"); break; } t->p[n + a % 8] ^= 0x55; d->release(t->how, t->p); }
        else if (x % 4 == 1) { size_t head = t->how == NEW_ARRAY ? 8 : 0; t->p[-1 - (long)(a % 8) - (long)head] ^= 0x55; d->release(t->how, t->p); }
        else if (x % 4 == 2) { if (t->how == NEW_ARRAY) { printf("NONE\n"); break; } d->release(t->how, t->p); d->release(t->how, t->p); }
        else { static char foreign[64]; if (u->cxx && a % 2) u->release(NEW_CHARS, foreign + 16); else u->release(MALLOC, foreign + 16); }
        printf("NOT STOPPED\n"); fflush(stdout); _exit(2);
      }
#endif
    }
    account();
  }
  step = 99999; for (int i = 0; i < NS; ++i) if (S[i].p) { const unit *u = S[i].how < NC ? units[i % 4] : S[i].l.file == unit_x1.file ? &unit_x1 : &unit_x2; u->release(S[i].how, S[i].p); S[i].p = NULL; }
  account();
#if ON
  if (allocation_tracker_expect_no_allocations(NULL, NULL)) die("bytes reported after everything was freed");
#endif
  MEM_CHECK_DEINIT();
  printf("FINE\n"); return 0;
}
