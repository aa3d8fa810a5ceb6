/* Uses of common_macro.h; compiled once as a debug and once as a release build. */
#include "common_macro.h"
#include "tu/macros.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define XSTR_(a) #a
#define XSTR(a) XSTR_(a)
#define free(p) macros_free(p)   /* what FREE releases is recorded */
#define rand() macros_rand()     /* the extremes of the generator are reachable */
static uintptr_t uint_trip(uintptr_t a, uintptr_t b) { void *p = UINT_TO_PTR(a + b); return PTR_TO_UINT(p) * 1; }
static uintptr_t uint_or(uintptr_t a, uintptr_t b) { void *p = UINT_TO_PTR(a | b); return PTR_TO_UINT(p + 1) - 1; }
static intptr_t int_or(intptr_t a, intptr_t b) { return PTR_TO_INT(a < b ? INT_TO_PTR(a ^ b) : INT_TO_PTR(a & b)); }
static intptr_t int_trip(intptr_t a, intptr_t b) { void *p = INT_TO_PTR(a - b); return PTR_TO_INT(p) * 1; }
static long long long_trip(long long a, long long b) { void *p = LONG64_TO_PTR(a ^ b); return PTR_TO_LONG64(p) * 1; }
static long long max_(long long a, long long b) { return __max(a, b) * 1; }
static long long min_(long long a, long long b) { return __min(a, b) * 1; }
static long long abs_(long long a, long long b) { return 1 * __abs(a - b); }
static double maxd(double a, double b) { return __max(a, b); }
static double mind(double a, double b) { return __min(a, b); }
static double absd(double a) { return __abs(a); }
static unsigned maxmask(unsigned a, unsigned b, unsigned c) { return __max(a & b, c | 1) + 0; }
static unsigned minmask(unsigned a, unsigned b, unsigned c) { return __min(a & b, c | 1) + 0; }
static void seed(unsigned s) { RANDOM_INIT(s); }
static int rnd(int a, int b) { return RANDOM(a, b); }
static int rnd_or(int a, int b) { return RANDOM(a | 1, b | 65536); }
static int rnd_shifted(int a, int b, int d) { return 1 * RANDOM(a - d, b - d); }
typedef struct { char c[7]; } seven_t;
static int i1[1], i13[13]; static char c255[255]; static double d2x5[2][5]; static seven_t s9[9]; static const char *strs[] = {"a", "b", "c"}; static int (*row)[13] = &i13; static double (*rows)[5] = d2x5; static struct { int a; char b[17]; } in;
static size_t len(int w) { switch (w) { case 0: return ARRAY_LEN(i1); case 1: return ARRAY_LEN(i13); case 2: return ARRAY_LEN(c255); case 3: return ARRAY_LEN(d2x5); case 4: return ARRAY_LEN(d2x5[1]); case 5: return ARRAY_LEN(s9); case 6: return ARRAY_LEN(strs); case 8: return ARRAY_LEN(*row); case 9: return ARRAY_LEN(*(rows + 1)); case 10: return ARRAY_LEN(in.b); case 11: return ARRAY_LEN((&in)->b); default: return ARRAY_LEN("hello"); } }
static size_t sum(int w) { return len(w) + 100 / ARRAY_LEN(i13); }
static void *release_(void **slots, size_t i, int *e) { if (e) FREE(slots[i]); else *e = 1; return slots[i]; }
static FILE *close_(FILE *f, int *e) { if (e) fclose(f); else *e = 1; return f; }
static const char *nullable(const char *s) { return NULLABLE_STRING(s ? s : (const char *)0); }
static const char *str(int w) { return w == 0 ? STRINGIFY(a + b) : w == 1 ? STRINGIFY(x) : STRINGIFY("q"); }
static int cat(int w) { int ab = 5, abc = 6; return w ? CONCAT(a, b) : CONCAT(ab, c); }
#define FOREACH_ITEM(G) G(IT_ZERO) G(IT_ONE) G(IT_TWO) G(IT_THREE) G(IT_FOUR)
#define FOREACH_OTHER(G) G(OT_A) G(OT_B)
DEF_ENUM(others, FOREACH_OTHER);
#ifdef _DEBUG
DEF_ENUM(items_debug, FOREACH_ITEM);
DECLARE_ENUM_STRS(items_debug);
DEF_ENUM_STRS(items_debug, FOREACH_ITEM);
#define STRS items_debug_STRS
static const items_debug typed = IT_THREE;
#else
DEF_ENUM(items_release, FOREACH_ITEM);
DECLARE_ENUM_STRS(items_release);
DEF_ENUM_STRS(items_release, FOREACH_ITEM);
#define STRS items_release_STRS
static const items_release typed = IT_THREE;
#endif
static const int values[] = {IT_ZERO, IT_ONE, IT_TWO, IT_THREE, IT_FOUR};
STATIC_ASSERT(IT_FOUR == 4); STATIC_ASSERT_WITH_MSG(IT_ZERO == 0, first_is_zero);
STATIC_ASSERT(sizeof(int) >= 2);
STATIC_ASSERT(OT_A == 0 && OT_B == 1);
static int abort_wide(int kind, long long v, double d, const void *p) { if (kind == 0) ASSERT_ABORT(v); else if (kind == 1) ASSERT_ABORT(d != 0); else if (kind == 2) ASSERT_ABORT(p); else ASSERT_ABORT(v & 255 || !p); return 1; }
static int abort_unless(int *n, int a, int b) { STATIC_ASSERT(1); if (n) ASSERT_ABORT(++*n && a == b); else return -1; return 1; }
static int assert_(int *n, int a, int b) { if (n) ASSERT(++*n && a == b); else return -1; return 1; }
static void emergency(int a, const char *s) { if (a != 12345) EMERGENCY_LOG("%d %s", a, s); else a = 0; }
const macros_t CAT(macros_, NAME) = {
  XSTR(NAME),
#ifdef _DEBUG
  1,
#else
  0,
#endif
  uint_trip, int_trip, long_trip, max_, min_, abs_, maxd, mind, absd, maxmask, minmask, seed, rnd, rnd_shifted, len, sum, release_, close_, nullable, str, cat, sizeof(STRS) / sizeof(STRS[0]) + (typed != IT_THREE), STRS, values, abort_unless, assert_, emergency, uint_or, int_or, rnd_or, abort_wide};
