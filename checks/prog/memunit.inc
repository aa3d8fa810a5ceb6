#line 1 UNIT_FILE
#define HERE(l) ((l)->file = UNIT_FILE, (l)->func = __func__, (l)->line = __LINE__)
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define ARG(x) (++mp_evals, (x))

static void *CAT(UNIT, _a_function_whose_name_is_longer_than_the_tracker_keeps)(size_t a, struct loc *l) {
  HERE(l); void *p = malloc(ARG(a)); return p;
}
static void *const none = NULL;
static void *take(int how, size_t a, size_t b, const char *src, struct loc *l) {
  void *p = NULL; struct { void *(*f)(size_t, struct loc *); } s = {CAT(UNIT, _a_function_whose_name_is_longer_than_the_tracker_keeps)};
  switch (how) {
    case MALLOC: HERE(l); p = malloc(ARG(a)); break;
    case CALLOC: HERE(l); p = calloc(ARG(a), ARG(b)); break;
    case REALLOC: HERE(l); p = realloc(ARG(none), ARG(a)); break;
    case STRDUP: HERE(l); p = strdup(ARG(src)); break;
    case STRNDUP: HERE(l); p = strndup(ARG(src), ARG(b)); break;
    case LONG_NAME: p = s.f(a, l); break;
#ifdef __cplusplus
    case NEW: HERE(l); p = new Obj; break;
    case NEW_ARRAY: HERE(l); p = new Obj[ARG(a)]; break;
    case NEW_CHARS: HERE(l); p = new char[ARG(a)]; break;
#endif
  }
  return p;
}
static void *again(void *p, size_t n, struct loc *l) { HERE(l); p = realloc(ARG(p), ARG(n)); return p; }
static void drop(int how, void *p) {
#ifdef __cplusplus
  if (how == NEW) { delete (Obj *)p; return; }
  if (how == NEW_ARRAY) { delete[] (Obj *)p; return; }
  if (how == NEW_CHARS) { delete[] (char *)p; return; }
#endif
  if (p == NULL) free(ARG(none)); else
    free(ARG(p));
}
static int refuse(int how) {
  volatile size_t huge = (size_t)1 << 62;
  if (how == 0) return malloc(huge) != NULL || calloc(huge, 8) != NULL || realloc(NULL, huge) != NULL;
#ifdef __cplusplus
  if (how == 1) { try { delete new Thrower(7); return 1; } catch (int i) { return i != 7; } }
  if (how == 2) { try { delete[] new Thrower[3]; return 1; } catch (int i) { return i != 8; } }
#ifdef _LCU_MEM_CHECK_FEATURE_ENABLE
  if (how == 3) { try { char *p = new char[huge]; p[0] = 1; return 1; } catch (...) { return 0; } }
#endif
#endif
  return 0;
}
#ifdef __cplusplus
extern "C" const unit UNIT = {UNIT_FILE, take, again, drop, refuse, 1};
#else
const unit UNIT = {UNIT_FILE, take, again, drop, refuse, 0};
#endif
