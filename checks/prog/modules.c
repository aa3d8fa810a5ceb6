// Uses every module of the library, the way a program does that has mem_debug.h in front.
#include "mem/mem_debug.h"
#include "memprog.h"
#include <stdarg.h>
#include <stdint.h>
#include <sys/stat.h>
#include <unistd.h>
#include "lcu.h"
#include "mem/strings.h"
#include "mem/str_params.h"
#include "mem/stringbuilder.h"
#include "mem/mplite.h"
#include "file/ini_parser.h"
#include "file/file_util.h"
#include "file/file_iterator.h"
#include "data/list.h"
#include "data/hashmap.h"
#include "data/hash_functions.h"
#include "data/array.h"
#include "data/base64.h"
#include "net/url_encoder_decoder.h"
#include "ring/autocover_buffer.h"
#include "ring/ring_buf.h"
#include "ring/ringbuffer.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
#include "ring/msg_queue_handler.h"
#include "ring/fixed_msg_queue_handler.h"
#include "thread/thpool.h"
#include "log/xlog.h"
#include "log/file_logger.h"
#undef fclose

static unsigned rs;
static unsigned rnd(unsigned n) { rs = rs * 1664525u + 1013904223u; return (rs >> 8) % n; }
#define WANT(x) do { if (!(x)) return __LINE__; } while (0)
static char *word(char *b, unsigned max) { unsigned n = 1 + rnd(max), i; for (i = 0; i < n; ++i) b[i] = (char)('a' + rnd(20)); b[i] = 0; return b; }
static void let_go(void *p) { free(p); }

static int m_replace(void) {
  char a[600], b[20], c[40]; word(a, 500); word(b, 3); word(c, 30); char *r = strreplace(a, b, c); WANT(r); free(r); r = strreplace(a, "", c); WANT(r && !strcmp(r, a)); free(r); return 0;
}
static int m_params(void) {
  str_params_ptr p = rnd(2) ? str_params_create(";") : str_params_create_str(";", "k1=v1;flag;k2=2;=x;k1=again"); WANT(p); char k[8], v[80]; int n = (int)rnd(12);
  for (int i = 0; i < n; ++i) { word(k, 2); switch (rnd(6)) { case 0: WANT(!str_params_add_int(p, k, (int)rnd(1000000))); break; case 1: WANT(!str_params_add_float(p, k, 1.5f)); break; case 2: str_params_del(p, k); break; default: WANT(!str_params_add_str(p, k, word(v, 70))); } }
  char *s = str_params_to_str(p); WANT(s); free(s); str_params_add_str(p, "the", "end"); s = str_params_to_str(p); WANT(s && strstr(s, "the=end")); str_params_ptr q = str_params_create_str(";", s); WANT(q); free(s); WANT(!str_params_get_str(q, "the", v, sizeof v)); WANT(!strcmp(v, "end")); str_params_destroy(q); str_params_destroy(p); return 0;
}
static int on_ini(const char *s, const char *k, const char *v, const void *u) { ++*(int *)u; return rnd(9) == 0; (void)s; (void)k; (void)v; }
static int m_ini(void) {
  ini_parser_handle h = rnd(2) ? ini_parser_create() : ini_parser_parse_str("[a]\nk=v\nl=2\n[b]\nk=true\n; c\n[a]\nm=3\n"); WANT(h); char s[8], k[8], v[300]; int n = (int)rnd(20), seen = 0;
  for (int i = 0; i < n; ++i) { word(s, 1); word(k, 2); switch (rnd(8)) { case 0: ini_parser_delete_by_section_key(h, s, k); break; case 1: ini_parser_delete_section(h, s); break; case 2: ini_parser_get_string(h, s, k, v, sizeof v); break; case 3: ini_parser_foreach(h, on_ini, &seen); break; default: WANT(!ini_parser_put_string(h, s, k, word(v, 200))); } }
  WANT(!ini_parser_put_string(h, "s", "k", "v")); char *d = ini_parser_dump(h); WANT(d && strlen(d)); ini_parser_handle g = ini_parser_parse_str(d); WANT(g); free(d); WANT(!ini_parser_get_string(g, "s", "k", v, sizeof v) && !strcmp(v, "v")); WANT(!ini_parser_destroy(&g));
  WANT(!ini_parser_save(h, "saved.ini")); g = ini_parser_parse_file("saved.ini"); WANT(g); WANT(!ini_parser_destroy(&g)); WANT(!ini_parser_destroy(&h) && !h); h = ini_parser_parse_str("[unclosed\n"); if (h) ini_parser_destroy(&h); WANT(!ini_parser_parse_file("no such file.ini")); return 0;
}
static int m_read_all(void) {
  static char b[9000]; size_t n = 1 + rnd(8999); memset(b, 'x', n); FILE *f = fopen("data", "wb"); WANT(f && fwrite(b, 1, n, f) == n && !fclose(f)); char *d = NULL; int len = 0; WANT(!file_util_read_all("data", &d, &len) && (size_t)len == n && !memcmp(b, d, n) && !d[n]); free(d); WANT(file_util_read_all("missing", &d, &len) && !d); free(d); return 0;
}
static int m_builder(void) {
  stringbuilder_t *s = stringbuilder_create(rnd(40)); WANT(s); size_t len = 0; char b[400]; for (int i = 0, n = (int)rnd(30); i < n; ++i) { switch (rnd(3)) { case 0: WANT(!stringbuilder_appendchar(s, 'c')); ++len; break; case 1: WANT(!stringbuilder_appendstr(s, word(b, 300))); len += strlen(b); break; default: word(b, 100); WANT(!stringbuilder_appendf(s, "<%s %d>", b, 77)); len += strlen(b) + 5; } } WANT(stringbuilder_len(s) == len && strlen(stringbuilder_to_string(s)) == len); stringbuilder_destroy(&s); WANT(!s); return 0;
}
static int m_list(void) {
  list_t *l = list_new(let_go); WANT(l); size_t n = rnd(20); for (size_t i = 0; i < n; ++i) { char *p = strdup("element"); WANT(rnd(2) ? list_append(l, p) : list_prepend(l, p)); } if (n) { WANT(list_remove(l, list_front(l))); --n; } WANT(list_length(l) == n); if (rnd(2)) list_clear(l); list_free(l); return 0;
}
static bool same(const void *a, const void *b) { return !strcmp((const char *)a, (const char *)b); }
static int m_map(void) {
  hashmap_t *m = hashmap_create(rnd(64), hash_function_string, let_go, let_go, same, NULL); WANT(m); char k[8]; for (int i = 0, n = (int)rnd(60); i < n; ++i) { word(k, 2); switch (rnd(4)) { case 0: hashmap_remove(m, k); break; case 1: hashmap_get(m, k); break; default: if (!hashmap_get(m, k)) hashmap_put(m, strdup(k), malloc(rnd(50))); } } hashmap_free(m); return 0;
}
static int m_array(void) { size_t es = 1 + rnd(4); array_t *a = rnd(2) ? array_new(es) : array_new_with_init_capacity(es, 1 + rnd(30)); WANT(a); size_t n = rnd(200); for (size_t i = 0; i < n; ++i) WANT(array_append_value(a, (uint32_t)i)); WANT(array_length(a) == n); array_free(a); return 0; }
static int handled;
static int on_msg(queue_msg_t *m, void *u) { char *p; memcpy(&p, m->obj, sizeof p); free(p); __atomic_add_fetch(&handled, 1, __ATOMIC_SEQ_CST); return 0; (void)u; }
static int on_fixed(fixed_msg_t *m, void *u) { char *p; memcpy(&p, m->obj.data, sizeof p); free(p); __atomic_add_fetch(&handled, 1, __ATOMIC_SEQ_CST); return 0; (void)u; }
static void on_status(msg_q_handler_status_e s, void *u) { (void)s; (void)u; }
static int m_handler(void) {
  msg_queue_handler_init_param_t ip = {NULL, on_msg, on_status}; msg_queue_handler h = msg_queue_handler_create(4096, &ip); WANT(h); int n = 1 + (int)rnd(20); __atomic_store_n(&handled, 0, __ATOMIC_SEQ_CST);
  char raw[sizeof(queue_msg_t) + 16]; queue_msg_t *m = (queue_msg_t *)raw; m->what = m->arg1 = m->arg2 = 0; m->obj_len = sizeof(char *); for (int i = 0; i < n; ++i) { char *p = (char *)malloc(10 + rnd(100)); WANT(p); memcpy(m->obj, &p, sizeof p); WANT(msg_queue_handler_push(h, m) == MSG_Q_CODE_SUCCESS); }
  for (int i = 0; i < 50000 && __atomic_load_n(&handled, __ATOMIC_SEQ_CST) < n; ++i) usleep(100); WANT(__atomic_load_n(&handled, __ATOMIC_SEQ_CST) == n); msg_queue_handler_destroy(&h); WANT(!h); return 0;
}
static int m_fixed_handler(void) {
  fixed_msg_queue_handler_init_param_t ip = {NULL, on_fixed, on_status}; fixed_msg_queue_handler h = fixed_msg_queue_handler_create(32, &ip); WANT(h); int n = 1 + (int)rnd(20); __atomic_store_n(&handled, 0, __ATOMIC_SEQ_CST);
  for (int i = 0; i < n; ++i) { fixed_msg_t m; memset(&m, 0, sizeof m); char *p = (char *)malloc(10 + rnd(100)); WANT(p); memcpy(m.obj.data, &p, sizeof p); m.obj.data_len = sizeof p; WANT(fixed_msg_queue_handler_push(h, &m) == MSG_Q_CODE_SUCCESS); }
  for (int i = 0; i < 50000 && __atomic_load_n(&handled, __ATOMIC_SEQ_CST) < n; ++i) usleep(100); WANT(__atomic_load_n(&handled, __ATOMIC_SEQ_CST) == n); fixed_msg_queue_handler_destroy(&h); WANT(!h); return 0;
}
static void job(void *p) { char *q = strdup((char *)p); free(p); free(q); __atomic_add_fetch(&handled, 1, __ATOMIC_SEQ_CST); }
static int m_pool(void) { threadpool t = thpool_init(1 + (int)rnd(4)); WANT(t); int n = (int)rnd(30); __atomic_store_n(&handled, 0, __ATOMIC_SEQ_CST); for (int i = 0; i < n; ++i) WANT(!thpool_add_work(t, job, strdup("a job's argument"))); thpool_wait(t); WANT(__atomic_load_n(&handled, __ATOMIC_SEQ_CST) == n); thpool_destroy(t); return 0; }
static void on_log(LogLevel l, void *m, size_t n, void *u) { char *c = (char *)malloc(n + 1); memcpy(c, m, n); c[n] = 0; if (strstr(c, "a message")) ++*(int *)u; free(c); (void)l; }
static int m_log(void) {
  lcu_global_init(); int got = 0, n = (int)rnd(8); static char big[9000]; memset(big, 'b', sizeof big - 1); int t = xlog_get_target(); xlog_set_target(LOG_TARGET_USER_CALLBACK); xlog_set_user_callback(on_log, &got); xlog_set_min_level(LOG_LEVEL_VERBOSE);
  for (int i = 0; i < n; ++i) { size_t k = rnd(3) ? rnd(300) : rnd(8000); __xlog_internal_print(LOG_LEVEL_INFO, "tag", __func__, __LINE__, "a message %d %.*s", i, (int)k, big); if (rnd(3) == 0) __xlog_internal_hex_print(LOG_LEVEL_INFO, "tag", big, rnd(600)); }
  xlog_set_user_callback(NULL, NULL); xlog_set_target(t); xlog_set_min_level(LOG_LEVEL_OFF); lcu_global_cleanup(); WANT(got == n); return 0;
}
static int m_file_log(void) {
  file_logger_cfg c; memset(&c, 0, sizeof c); mkdir("logs", 0700); strcpy(c.log_folder_path, "logs"); strcpy(c.log_file_name_prefix, "p"); c.one_piece_file_max_len = 20000 + rnd(40000); c.log_queue_size = 2 + rnd(64); c.is_try_my_best_to_keep_log = rnd(2);
  lcu_global_init(); file_logger_handle h = file_logger_init(&c); WANT(h); char b[300]; for (int i = 0, n = (int)rnd(30); i < n; ++i) { word(b, 250); file_logger_log(h, b, strlen(b)); } WANT(!file_logger_deinit(&h) && !h); lcu_global_cleanup(); return 0;
}
static int m_autocover(void) {
  auto_cover_buf_handle h = auto_cover_buf_create(16 + rnd(200), NULL); WANT(h); char b[64] = {1}, o[64]; uint32_t n = 1 + rnd(16); WANT(auto_cover_buf_write(h, b, n) == (int)n); WANT(auto_cover_buf_read(h, 0, o, n) == (int)n && !memcmp(b, o, n)); auto_cover_buf_destroy(&h); WANT(!h); return 0;
}
static int m_rings(void) {
  ring_handle r = ring_buf_create(64); WANT(r); char b[32] = "0123456789", o[32]; WANT(ring_buf_write(r, b, 10) == 10 && ring_buf_read(r, o, 10) == 10 && !memcmp(b, o, 10)); ring_buf_destroy(&r); WANT(!r);
  ring_buffer_handle q = RingBuffer_create(64); WANT(q); WANT(RingBuffer_write(q, b, 10) == 10 && RingBuffer_read(q, o, 10) == 10); RingBuffer_destroy(&q); WANT(!q); char *m = (char *)malloc(4096); q = RingBuffer_create_with_mem(m, 4096); WANT(q); WANT(RingBuffer_write(q, b, 10) == 10); RingBuffer_destroy(&q); r = ring_buf_create_with_mem(m, 4096); WANT(r); ring_buf_destroy(&r); free(m);
  msg_queue a = msg_queue_create(256); WANT(a); uint32_t n = sizeof o; WANT(!msg_queue_push(a, b, 10) && !msg_queue_pop(a, o, &n) && n == 10); msg_queue_destroy(&a); fixed_msg_queue f = fixed_msg_queue_create(10, 4); WANT(f); WANT(fixed_msg_queue_push(f, b) && fixed_msg_queue_pop(f, o)); fixed_msg_queue_destroy(&f); return 0;
}
static int on_entry(file_info_t *i, void *u) { (void)i; ++*(int *)u; return 0; }
static int m_iterate(void) { mkdir("dir", 0700); mkdir("dir/sub", 0700); FILE *f = fopen("dir/file", "wb"); WANT(f && !fclose(f)); char d[] = "dir"; int n = 0; WANT(!file_iterator_foreach(d, on_entry, &n) && n >= 2); return 0; }
static int m_codecs(void) {
  char a[200], b[700], c[700]; word(a, 190); size_t n = strlen(a); WANT(lcu_base64_encode(b, a, n) > 0); WANT(lcu_base64_decode(c, b) >= (int)n && !memcmp(a, c, n)); memset(b, 0, sizeof b); memset(c, 0, sizeof c); WANT(lcu_url_encode(b, sizeof b, a, n) >= 0); WANT(lcu_url_decode(c, sizeof c, b, strlen(b), NULL) >= 0 && !strcmp(a, c)); return 0;
}
typedef int (*module)(void);
static const module modules[] = {m_replace, m_params, m_ini, m_read_all, m_builder, m_list, m_map, m_array, m_handler, m_fixed_handler, m_pool, m_log, m_file_log, m_autocover, m_rings, m_iterate, m_codecs};
int mp_nmodules(void) { return (int)(sizeof modules / sizeof *modules); }
int mp_module(unsigned which, unsigned seed) { rs = seed; xlog_set_min_level(LOG_LEVEL_OFF); return modules[which](); }
