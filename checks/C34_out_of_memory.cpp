// variant: sched
#include "pbt.h"
#include "intercept.h"
#include <algorithm>
#include <cerrno>
#include <map>
#include <dirent.h>
#include <sys/stat.h>
extern "C" {
#include "data/array.h"
#include "data/hashmap.h"
#include "data/list.h"
#include "file/file_util.h"
#include "file/ini_parser.h"
#include "file/ini_reader.h"
#include "log/file_logger.h"
#include "log/xlog.h"
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
#include "mem/str_params.h"
#include "mem/stringbuilder.h"
#include "mem/strings.h"
#include "ring/autocover_buffer.h"
#include "ring/fixed_msg_queue.h"
#include "ring/fixed_msg_queue_handler.h"
#include "ring/msg_queue.h"
#include "ring/msg_queue_handler.h"
#include "ring/ring_buf.h"
#include "ring/ringbuffer.h"
#include "thread/portable_thread.h"
#include "thread/thpool.h"
extern LogLevel _g_slog_min_level;
}
#include "ini_model.h"
#undef strdup
#undef fclose
using namespace pbt;

Property property = {
  "C34",
  "histories on list, hashmap, array, stringbuilder, str_params, the tracked allocator and ini_parser (also parsing, dumping and saving), and creation, use and destruction of rings, queues, handlers, pools, locks, threads, readers and the file logger, in which one chosen allocation "
  "(or every one from it on) or one thread creation fails inside a chosen call: the call reports it, the object equals its model from before, the same call succeeds afterwards, and nothing is left allocated at the end; "
  "non-trivial: an injected failure was delivered",
  "fault_enumeration", {"an ini section created by a put that ran out of memory may remain, empty", "a hashmap that cannot grow stays correct with its old bucket count", "a handler whose worker runs out of memory stops and refuses later messages",
                        "memory fails through malloc, calloc, realloc, strdup, strndup and vasprintf"}};

// Runs op, in some cases with an allocation failing inside it.
static bool hit;
template <class F> static void faulty(Case &c, F op, int max_k = 5) {
  unsigned how = c.weighted({4, 4, 2});
  int k = how ? (int)c.range(1, (uint64_t)max_k) : 0;
  if (how == 1) mem::fail_at(k); else if (how == 2) mem::fail_from(k);
  op();
  hit = how && mem::failed();
  mem::fail_at(0);
  if (hit) { c.label("delivered"); c.nontrivial(); c.note("  (allocation %d%s of this call failed)", k, how == 2 ? " and later ones" : ""); }
}
static void no_leak(const char *what) { PBT_CHECK(!mem::live_blocks(), "%s: left allocated: %s", what, mem::describe().c_str()); }
static void quiet() { _g_slog_min_level = LOG_LEVEL_OFF; xlog_set_min_level(LOG_LEVEL_OFF); }

// ---- containers -----------------------------------------------------------
static int pool[64];
static std::vector<int> freed;
static void on_free(void *p) { freed.push_back((int)((int *)p - pool)); }
static void check_list(list_t *l, const std::vector<int> &m) {
  PBT_EQ(list_length(l), m.size(), "list_length");
  size_t i = 0;
  for (const list_node_t *n = list_begin(l); n != list_end(l); n = list_next(n), ++i) PBT_CHECK(i < m.size() && list_node(n) == &pool[m[i]], "element %zu of the list is wrong", i);
  PBT_EQ(i, m.size(), "elements walked");
  PBT_CHECK(list_back(l) == (m.empty() ? nullptr : &pool[m.back()]) && list_front(l) == (m.empty() ? nullptr : &pool[m.front()]), "front or back of the list is wrong");
}
static void lists(Case &c) {
  quiet(); mem::start(); freed.clear();
  list_t *l = nullptr; std::vector<int> m; size_t gone = 0; bool owns = c.boolean();
  faulty(c, [&] { l = list_new(owns ? on_free : nullptr); }, 1);
  PBT_CHECK(hit == !l, "list_new");
  if (hit) { no_leak("list_new"); l = list_new(owns ? on_free : nullptr); PBT_CHECK(l, "list_new with memory"); }
  for (size_t i = 0, n = c.size(1, 30); i < n; ++i) {
    Span sp(c);
    int v = (int)c.draw(63); unsigned op = c.draw(3); bool r = false; size_t at = m.empty() ? 0 : c.draw(m.size() - 1);
    auto go = [&] {
      if (op == 0 || (op == 2 && m.empty())) r = list_append(l, &pool[v]);
      else if (op == 1) r = list_prepend(l, &pool[v]);
      else if (op == 2) { list_node_t *x = list_begin(l); for (size_t j = 0; j < at; ++j) x = list_next(x); r = list_insert_after(l, x, &pool[v]); }
      else r = list_remove(l, &pool[v]);
    };
    auto apply = [&] {
      if (op == 0 || (op == 2 && m.empty())) m.push_back(v);
      else if (op == 1) m.insert(m.begin(), v);
      else if (op == 2) m.insert(m.begin() + (ptrdiff_t)at + 1, v);
    };
    faulty(c, go, 2);
    c.note("op %u of %d -> %d", op, v, r);
    if (op == 3) { auto f = std::find(m.begin(), m.end(), v); PBT_EQ(r, f != m.end(), "list_remove"); if (r) { m.erase(f); ++gone; } check_list(l, m); continue; }
    PBT_CHECK(r == !hit, "adding to the list returned %d although the allocation %s", r, hit ? "failed" : "succeeded");
    if (r) apply();
    check_list(l, m);
    if (!r && c.boolean()) { go(); PBT_CHECK(r, "adding to the list with memory again"); apply(); check_list(l, m); }
  }
  PBT_EQ(freed.size(), owns ? gone : 0, "elements given to the free function so far");
  list_free(l);
  PBT_EQ(freed.size(), owns ? gone + m.size() : 0, "elements given to the free function");
  no_leak("list_free"); mem::stop();
}

static int kind;
static int h_int(const void *k) { int v = *(const int *)k; return kind == 0 ? v : kind == 1 ? 7 : v * 2654435; }
static bool eq_int(const void *a, const void *b) { return *(const int *)a == *(const int *)b; }
static int depth;
static int acq(void *) { PBT_CHECK(!depth++, "the lock is taken twice"); return 0; }
static int rel(void *) { PBT_CHECK(depth-- == 1, "the lock is released while not held"); return 0; }
static bool count_cb(void *k, void *v, void *ctx) { (*(std::map<int, int> *)ctx)[*(int *)k] = *(int *)v; return true; }
static void maps(Case &c) {
  quiet(); mem::start(); kind = (int)c.draw(2); depth = 0;
  hashmap_lock_t lk; memset(&lk, 0, sizeof lk); lk.acquire = acq; lk.release = rel; bool lock = c.boolean();
  static int val[64]; for (int i = 0; i < 64; ++i) pool[i] = val[i] = i;
  hashmap_t *h = nullptr; size_t cap = c.draw(8); std::map<int, int> m;
  auto make = [&] { h = hashmap_create(cap, h_int, nullptr, nullptr, eq_int, lock ? &lk : nullptr); };
  faulty(c, make, 2);
  PBT_CHECK(hit == !h, "hashmap_create");
  if (hit) { no_leak("hashmap_create"); make(); PBT_CHECK(h, "hashmap_create with memory"); }
  for (size_t i = 0, n = c.size(1, 60); i < n; ++i) {
    Span sp(c);
    int k = (int)c.draw(63), v = (int)c.draw(63); void *r = nullptr; int err = 0;
    if (c.draw(4) == 4) {
      faulty(c, [&] { r = hashmap_remove(h, &pool[k]); }, 1); c.note("remove %d", k);
      PBT_EQ(r != nullptr, m.count(k), "hashmap_remove"); m.erase(k);
    } else {
      auto go = [&] { errno = 0; r = hashmap_put(h, &pool[k], &val[v]); err = errno; };
      faulty(c, go, 2); c.note("put %d=%d", k, v);
      bool had = m.count(k);
      if (had) { PBT_CHECK(!hit && r == &val[m[k]] && err != ENOMEM, "hashmap_put on an existing key"); m[k] = v; }
      else {
        PBT_CHECK(!r, "hashmap_put of a new key returned a value");
        if (err == ENOMEM) PBT_CHECK(hit, "hashmap_put reported ENOMEM although memory was there");
        else m[k] = v;       // a map that could not grow is fine
        PBT_EQ(hashmap_size(h), m.size(), "hashmap_size after a put");
        if (hit && err == ENOMEM && c.boolean()) { go(); PBT_CHECK(!r && err != ENOMEM, "hashmap_put with memory again"); m[k] = v; }
      }
    }
    PBT_EQ(depth, 0, "lock depth");
    PBT_EQ(hashmap_size(h), m.size(), "hashmap_size");
    for (auto &e : m) PBT_CHECK(hashmap_get(h, &pool[e.first]) == &val[e.second], "key %d is lost or has the wrong value", e.first);
  }
  std::map<int, int> seen; hashmap_foreach(h, count_cb, &seen); PBT_CHECK(seen == m, "foreach does not visit the map's entries");
  hashmap_free(h); no_leak("hashmap_free"); mem::stop();
}

static void arrays(Case &c) {
  quiet(); mem::start();
  size_t es = c.range(1, 24), cap = c.draw(6); array_t *a = nullptr; std::vector<std::string> m;
  auto make = [&] { a = cap ? array_new_with_init_capacity(es, cap) : array_new(es); };
  faulty(c, make, 1); PBT_CHECK(hit == !a, "array_new");
  if (hit) { no_leak("array_new"); make(); PBT_CHECK(a, "array_new with memory"); }
  for (size_t i = 0, n = c.size(1, 60); i < n; ++i) {
    Span sp(c);
    std::string v = c.payload(es); bool r = false; auto go = [&] { r = array_append_ptr(a, (void *)v.data()); };
    faulty(c, go, 1); PBT_CHECK(r == !hit, "array_append_ptr returned %d although the allocation %s", r, hit ? "failed" : "succeeded");
    if (!r && c.boolean()) { go(); PBT_CHECK(r, "array_append_ptr with memory again"); }
    if (r) m.push_back(v);
    PBT_EQ(array_length(a), m.size(), "array_length");
    for (size_t j = 0; j < m.size(); ++j) PBT_CHECK(!memcmp(array_at(a, j), m[j].data(), es), "element %zu of the array changed", j);
  }
  array_free(a); no_leak("array_free"); mem::stop();
}

static void builders(Case &c) {
  quiet(); mem::start();
  size_t init = c.oneof<size_t>({2, 0, 3, 10, 100}); stringbuilder_t *b = nullptr; std::string m; auto make = [&] { b = stringbuilder_create(init); };
  faulty(c, make, 2); PBT_CHECK(hit == !b, "stringbuilder_create");
  if (hit) { no_leak("stringbuilder_create"); make(); PBT_CHECK(b, "stringbuilder_create with memory"); }
  for (size_t i = 0, n = c.size(1, 20); i < n; ++i) {
    Span sp(c);
    unsigned op = c.draw(4); std::string s = c.payload(c.size(1, 300)); for (char &ch : s) ch = (char)('a' + (unsigned char)ch % 26); int r = 0; std::string add = s;
    auto go = [&] {
      if (op == 0) r = stringbuilder_appendstr(b, s.c_str());
      else if (op == 1) { add = s.substr(0, 1); r = stringbuilder_appendchar(b, s[0]); }
      else if (op == 2) { size_t k = 1 + s.size() / 2; add = s.substr(0, k); r = stringbuilder_appendnstr(b, s.c_str(), k); }
      else if (op == 3) { add = s + "|" + std::to_string(i); r = stringbuilder_appendf(b, "%s|%zu", s.c_str(), i); }
      else { r = stringbuilder_clear(b); }
    };
    faulty(c, go, 1); c.note("op %u with %zu characters -> %d", op, s.size(), r);
    PBT_CHECK(hit == (r != 0), "the stringbuilder returned %d although the allocation %s", r, hit ? "failed" : "succeeded");
    if (r && c.boolean()) { go(); PBT_EQ(r, 0, "the stringbuilder with memory again"); }
    if (!r) { if (op == 4) m.clear(); else m += add; }
    PBT_EQ(stringbuilder_len(b), m.size(), "stringbuilder_len");
    PBT_CHECK(m == stringbuilder_to_string(b), "the text of the stringbuilder is %s, expected %s", quote(stringbuilder_to_string(b), strlen(stringbuilder_to_string(b))).c_str(), quote(m).c_str());
  }
  stringbuilder_destroy(&b); no_leak("stringbuilder_destroy"); mem::stop();
}

// ---- stores -----------------------------------------------------------------
typedef std::map<std::string, std::string> Pairs;
static void check_params(str_params_ptr p, const Pairs &m, const std::vector<std::string> &keys) {
  for (auto &k : keys) {
    auto f = m.find(k); PBT_EQ(str_params_has_key(p, k.c_str()), f != m.end(), "str_params_has_key"); if (f == m.end()) continue;
    char out[512]; PBT_EQ(str_params_get_str(p, k.c_str(), out, sizeof out), 0, "str_params_get_str"); PBT_CHECK(f->second == out, "value of %s is %s, expected %s", k.c_str(), quote(out, strlen(out)).c_str(), quote(f->second).c_str());
  }
}
static Pairs parse_pairs(const std::string &t) { Pairs r; size_t i = 0; while (i <= t.size()) { size_t e = t.find(';', i); if (e == t.npos) e = t.size(); std::string kv = t.substr(i, e - i); i = e + 1; if (kv.empty()) continue; size_t q = kv.find('='); if (q == 0) continue; r[kv.substr(0, q)] = q == kv.npos ? "" : kv.substr(q + 1); } return r; }
static void params(Case &c) {
  quiet(); mem::start(); std::vector<std::string> keys; for (int i = 0; i < 26; ++i) keys.push_back(std::string(1, (char)('a' + i)));
  str_params_ptr p = nullptr; Pairs m; std::string text; bool parse = c.boolean();
  if (parse) for (size_t i = 0, n = c.size(0, 24); i < n; ++i) { Span sp(c); text += c.pick(keys); if (c.draw(3)) text += "=" + c.str(0, 4, "vw=1"); text += ";"; }
  auto make = [&] { p = parse ? str_params_create_str(";", text.c_str()) : str_params_create(";"); };
  faulty(c, make, 12); c.note("create(%s)", quote(text).c_str());
  if (!hit) PBT_CHECK(p, "str_params_create failed with memory");
  if (!p) { no_leak("str_params_create"); make(); PBT_CHECK(p, "str_params_create with memory again"); }
  m = parse_pairs(text); check_params(p, m, keys);
  for (size_t i = 0, n = c.size(1, 40); i < n; ++i) {
    Span sp(c);
    unsigned op = c.weighted({8, 2, 2, 1}); std::string k = c.pick(keys), v; int r = 0; char *s = nullptr;
    if (op == 0) {
      unsigned type = c.draw(2); v = type == 0 ? c.str(0, 6, "xyz") : type == 1 ? std::to_string(c.irange(-999, 999)) : "2.5000000000"; int num = type == 1 ? atoi(v.c_str()) : 0;
      auto go = [&] { r = type == 0 ? str_params_add_str(p, k.c_str(), v.c_str()) : type == 1 ? str_params_add_int(p, k.c_str(), num) : str_params_add_double(p, k.c_str(), 2.5); };
      faulty(c, go, 4); c.note("add %s=%s -> %d", k.c_str(), v.c_str(), r);
      if (!hit) PBT_EQ(r, 0, "str_params_add");
      if (r) { PBT_EQ(r, -ENOMEM, "str_params_add without memory"); check_params(p, m, keys); if (c.boolean()) { go(); PBT_EQ(r, 0, "str_params_add with memory again"); } }
      if (!r) m[k] = v;
    } else if (op == 1) { faulty(c, [&] { str_params_del(p, k.c_str()); }, 1); c.note("del %s", k.c_str()); m.erase(k); }
    else if (op == 2) {
      faulty(c, [&] { s = str_params_to_str(p); }, 8); if (!hit) PBT_CHECK(s, "str_params_to_str failed with memory");
      if (s) { PBT_CHECK(parse_pairs(s) == m, "str_params_to_str gave %s although memory ran out in it: %d", quote(s, strlen(s), 300).c_str(), hit); mem::release(s); }
    }
    if (op || c.draw(3) == 0) check_params(p, m, keys);
  }
  check_params(p, m, keys); str_params_destroy(p); no_leak("str_params_destroy"); mem::stop();
}

// The sections that hold something, in order (an empty one may be left by a put that failed).
static std::string text_of(const IniModel &m) { std::string t; for (auto &s : m.s) if (!s.kv.empty()) { t += "[" + s.name + "]\r\n"; for (auto &p : s.kv) t += p.first + " = " + p.second + "\r\n"; t += "\r\n"; } return t; }
static void check_text(const char *s, const IniModel &m, const char *what) {   // s parses back to the same pairs
  ini_parser_handle q = ini_parser_parse_str(s); PBT_CHECK(q, "%s does not parse: %s", what, quote(s, strlen(s), 400).c_str()); ini_compare(q, m, what); ini_parser_destroy(&q);
}
static void inis(Case &c) {
  quiet(); scratch_clear(); mem::start(); std::string path = scratch() + "/f.ini";
  std::vector<std::string> secs, keys; for (int i = 0; i < 5; ++i) secs.push_back(std::string("s") + (char)('0' + i)); for (int i = 0; i < 8; ++i) keys.push_back(std::string("k") + (char)('0' + i));
  ini_parser_handle p = nullptr; IniModel m; unsigned from = c.draw(2);
  if (from) for (size_t i = 0, n = c.size(1, 12); i < n; ++i) { Span sp(c); m.put(c.pick(secs), c.pick(keys), c.str(1, 5, "vw")); }
  std::string text = text_of(m); if (from == 2) write_file(path, text);
  auto make = [&] { p = from == 0 ? ini_parser_create() : from == 1 ? ini_parser_parse_str(text.c_str()) : ini_parser_parse_file(path.c_str()); };
  int64_t files = io::open_files;
  faulty(c, make, 24); c.note("parse (%u) %s", from, quote(text).c_str());
  PBT_CHECK(hit == !p, "parsing returned %s although an allocation %s", p ? "a store" : "NULL", hit ? "failed" : "succeeded"); PBT_EQ(io::open_files, files, "files left open by parsing");
  if (!p) { no_leak("parsing"); make(); PBT_CHECK(p, "parsing with memory again"); }
  ini_compare(p, m, "the parsed store");
  std::string on_disk = from == 2 ? text : "";
  for (size_t i = 0, n = c.size(1, 30); i < n; ++i) {
    Span sp(c);
    unsigned op = c.weighted({10, 2, 1, 2, 2}); std::string s = c.pick(secs), k = c.pick(keys), v = c.str(0, 5, "xyz"); int r = 0;
    if (op == 0) {
      auto go = [&] { r = ini_parser_put_string(p, s.c_str(), k.c_str(), v.c_str()); };
      faulty(c, go, 4); c.note("put [%s] %s = %s -> %d", s.c_str(), k.c_str(), v.c_str(), r);
      PBT_CHECK(hit == (r != INI_PARSER_CODE_SUCCEED), "ini_parser_put_string returned %d although the allocation %s", r, hit ? "failed" : "succeeded");
      if (r) {   // the section may exist now
        PBT_CHECK(r == INI_PARSER_CODE_NO_ENOUGH_MEMORY || r == INI_PARSER_CODE_FAILED, "ini_parser_put_string without memory returned %d", r);
        if (m.find(s) < 0 && ini_parser_has_section(p, s.c_str()) == INI_PARSER_CODE_SUCCEED) m.s.push_back({s, {}});
        ini_compare(p, m, "after a put that failed"); if (c.boolean()) { go(); PBT_EQ(r, INI_PARSER_CODE_SUCCEED, "ini_parser_put_string with memory again"); }
      }
      if (!r) m.put(s, k, v);
    } else if (op == 1) { faulty(c, [&] { r = ini_parser_delete_by_section_key(p, s.c_str(), k.c_str()); }, 1); PBT_EQ(r, m.erase(s, k) ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "delete key"); }
    else if (op == 2) { faulty(c, [&] { r = ini_parser_delete_section(p, s.c_str()); }, 1); PBT_EQ(r, m.erase(s) ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "delete section"); }
    else if (op == 3) {
      char *t = nullptr; std::vector<char> buf; bool to_mem = c.boolean(); size_t sz = 1 << 14;
      if (to_mem) { buf.resize(sz); faulty(c, [&] { r = ini_parser_dump_to_mem(p, buf.data(), &sz); }, 6); if (r == INI_PARSER_CODE_SUCCEED) t = buf.data(); }
      else faulty(c, [&] { t = ini_parser_dump(p); }, 6);
      c.note("dump%s -> %s", to_mem ? " to memory" : "", t ? "text" : "failure");
      if (!hit && (m.pairs() || !to_mem)) PBT_CHECK(t, "dumping failed with memory");
      if (t && *t) check_text(t, m, "the dump"); else if (t) PBT_CHECK(!m.pairs(), "dumping gave no text");
      if (t && !to_mem) mem::release(t);
    } else {
      faulty(c, [&] { r = ini_parser_save(p, path.c_str()); }, 6); c.note("save -> %d", r); PBT_EQ(io::open_files, files, "files left open by ini_parser_save");
      std::string now = read_file(path);
      if (r == INI_PARSER_CODE_SUCCEED) { check_text(now.c_str(), m, "the saved file"); on_disk = now; }
      else if (hit) PBT_CHECK(now == on_disk, "ini_parser_save failed for lack of memory and left %s in the file that held %s", quote(now).c_str(), quote(on_disk).c_str());
      else { PBT_CHECK(m.s.empty(), "ini_parser_save failed with memory"); on_disk = now; }
    }
  }
  ini_compare(p, m, "at the end"); PBT_EQ(ini_parser_destroy(&p), INI_PARSER_CODE_SUCCEED, "ini_parser_destroy"); no_leak("ini_parser_destroy"); mem::stop(); scratch_clear();
}

// ---- single calls --------------------------------------------------------------
static int on_line(int, char *txt, void *u) { ((std::vector<std::string> *)u)->push_back(txt); return 0; }
static int on_pair(void *u, const char *s, const char *n, const char *v) { ((std::vector<std::string> *)u)->push_back(std::string(s ? s : "~") + "|" + (n ? n : "~") + "|" + (v ? v : "~")); return 1; }
static void single(Case &c) {
  quiet(); scratch_clear(); mem::start(); int64_t files = io::open_files; std::string path = scratch() + "/t", body = c.payload(c.size(0, 3000)); for (char &ch : body) if (!ch || ch == '\r') ch = 'z';
  unsigned what = c.draw(9); c.note("call %u", what);
  switch (what) {
    case 0: { std::string o = c.str(0, 30, "ab"), pt = c.str(0, 2, "ab"), rp = c.str(0, 4, "xy"), w; char *r = nullptr; faulty(c, [&] { r = strreplace(o.c_str(), pt.c_str(), rp.c_str()); }, 2); PBT_CHECK(hit == !r, "strreplace"); if (r) { for (size_t i = 0; i < o.size();) if (!pt.empty() && !o.compare(i, pt.size(), pt)) { w += rp; i += pt.size(); } else w += o[i++]; PBT_CHECK(w == r, "strreplace gave %s, expected %s", r, w.c_str()); mem::release(r); } break; }
    case 1: { write_file(path, body); char *d = nullptr; int n = -7, r = 0; faulty(c, [&] { r = file_util_read_all(path.c_str(), &d, &n); }, 2); PBT_CHECK(hit == (r != 0) || body.empty(), "file_util_read_all returned %d although the allocation %s", r, hit ? "failed" : "succeeded"); if (!r && d) { PBT_CHECK(n == (int)body.size() && !memcmp(d, body.data(), body.size()), "file_util_read_all: wrong contents"); mem::release(d); } break; }
    case 2: { write_file(path, body); std::vector<std::string> v, w; int r = 0; file_util_read_txt(path.c_str(), on_line, &w); faulty(c, [&] { r = file_util_read_txt(path.c_str(), on_line, &v); }, 2); if (r == 0) PBT_CHECK(v == w, "file_util_read_txt left out lines and returned 0"); else PBT_CHECK(hit, "file_util_read_txt failed with memory"); break; }
    case 3: { uint32_t n = (uint32_t)c.range(4, 200); ring_handle r = nullptr; faulty(c, [&] { r = ring_buf_create(n); }, 2); PBT_CHECK(hit == !r, "ring_buf_create"); if (r) { PBT_EQ(ring_buf_available_write(r), n - 1, "free space"); ring_buf_destroy(&r); } break; }
    case 4: { uint32_t n = (uint32_t)c.range(4, 200); ring_buffer_handle r = nullptr; faulty(c, [&] { r = RingBuffer_create(n); }, 2); PBT_CHECK(hit == !r, "RingBuffer_create"); RingBuffer_destroy(&r); break; }
    case 5: { uint32_t n = (uint32_t)c.range(4, 200); auto_cover_buf_handle r = nullptr; faulty(c, [&] { r = auto_cover_buf_create(n, nullptr); }, 3); PBT_CHECK(hit == !r, "auto_cover_buf_create"); auto_cover_buf_destroy(&r); break; }
    case 6: { uint32_t n = (uint32_t)c.range(64, 300); msg_queue r = nullptr; faulty(c, [&] { r = msg_queue_create(n); }, 2); PBT_CHECK(hit == !r, "msg_queue_create"); if (r) msg_queue_destroy(&r); break; }
    case 7: { uint32_t n = (uint32_t)c.range(4, 30); fixed_msg_queue r = nullptr; faulty(c, [&] { r = fixed_msg_queue_create(8, n); }, 3); PBT_CHECK(hit == !r, "fixed_msg_queue_create"); if (r) fixed_msg_queue_destroy(&r); break; }
    case 8: {
      std::string t = "[s]\nname = " + body.substr(0, 900); for (char &ch : t) if (ch == ';' || ch == '\x1a') ch = ','; t += "\nb = 2\n"; std::vector<std::string> v, w; int r = 0, r0 = ini_reader_parse_string(t.c_str(), on_pair, &w);
      faulty(c, [&] { r = ini_reader_parse_string(t.c_str(), on_pair, &v); }, 4);
      if (r == r0 && !(hit && r)) PBT_CHECK(v == w, "ini_reader_parse_string left out pairs without reporting it"); else PBT_CHECK(hit, "ini_reader_parse_string failed with memory");
      break;
    }
    case 9: {
      portable_mutex_t mu = nullptr; portable_rwlock_t rw = nullptr; portable_sem_t se = nullptr; int a = 0, b = 0, d = 0;
      faulty(c, [&] { a = portable_mutex_init(&mu, nullptr); b = portable_rwlock_init(&rw, nullptr); d = portable_sem_init(&se, 0, 1); }, 3);
      PBT_CHECK(hit == (a || b || d), "lock creation: %d %d %d although an allocation %s", a, b, d, hit ? "failed" : "succeeded");
      if (!a) { PBT_EQ(portable_mutex_lock(&mu), 0, "lock"); PBT_EQ(portable_mutex_unlock(&mu), 0, "unlock"); portable_mutex_destroy(&mu); } else PBT_CHECK(portable_mutex_lock(&mu), "a mutex that could not be created can be locked");
      if (!b) portable_rwlock_destroy(&rw); if (!d) portable_sem_destroy(&se); break;
    }
  }
  PBT_EQ(io::open_files, files, "files left open"); no_leak("call"); mem::stop(); scratch_clear();
}

// ---- handlers, pools, file logger -------------------------------------------------
static std::vector<std::string> got;
static int on_msg(queue_msg_t *m, void *) { got.push_back(std::string(m->obj, (size_t)m->obj_len)); return 0; }
static int on_fixed(fixed_msg_t *m, void *) { got.push_back(std::to_string(m->what)); return 0; }
static std::string notes;
static void on_status(msg_q_handler_status_e s, void *) { notes += s == MSG_Q_HANDLER_STATUS_READY_TO_GO ? 'R' : s == MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP ? 'S' : '?'; }
static unsigned ran;
static void job(void *) { ++ran; }
static void *thread_fn(void *p) { ++*(int *)p; return p; }
static void threads(Case &c) {
  quiet(); scratch_clear(); mem::start(); got.clear(); ran = 0; sched::Opts o = sched::draw_opts(c); o.preempt_memory = c.boolean(); int64_t files = io::open_files;
  sched::run(c, o, [&] {
    unsigned what = c.draw(4); int th = c.draw(3) == 3 ? (int)c.range(1, 4) : 0; c.note("object %u, thread %d fails", what, th); if (th) sched::fail_create_at(th);
    auto ended = [&] { sched::fail_create_at(0); sched::settle();   // threads of a pool are detached
      PBT_EQ(sched::threads_alive(), 1, "threads still alive"); PBT_EQ(io::open_files, files, "files left open"); no_leak("after the object is gone"); };
    if (what == 0) {
      msg_queue_handler_init_param_t ip; memset(&ip, 0, sizeof ip); ip.fn_handle_msg = on_msg; ip.fn_on_status_changed = on_status; notes.clear(); msg_queue_handler h = nullptr;
      faulty(c, [&] { h = msg_queue_handler_create(16384, &ip); sched::settle(); }, 6);
      if (!h) { PBT_CHECK(hit || th, "msg_queue_handler_create failed with memory"); return ended(); }
      std::vector<std::string> sent; bool lost = hit; PBT_CHECK(notes == (hit ? "RS" : "R"), "notifications '%s' although the worker's memory %s", notes.c_str(), hit ? "could not be had" : "was there");
      for (size_t i = 0, n = c.size(1, 6); i < n; ++i) {
        Span sp(c); bool stopped = notes == "RS"; std::string s = c.payload(c.oneof<size_t>({3, 4090, 5000})); std::vector<char> raw(sizeof(queue_msg_t) + s.size()); queue_msg_t *q = (queue_msg_t *)raw.data(); q->obj_len = (int)s.size(); memcpy(q->obj, s.data(), s.size()); int r = 0;
        faulty(c, [&] { r = msg_queue_handler_push(h, q); sched::settle(); }, 1);
        if (hit) lost = true;      // the worker may have stopped
        PBT_CHECK(!stopped || r != MSG_Q_CODE_SUCCESS, "a handler that stopped for want of memory accepted a message");
        if (r == MSG_Q_CODE_SUCCESS) sent.push_back(s); else PBT_CHECK(lost || r == MSG_Q_CODE_FULL, "push returned %d with memory", r);
      }
      msg_queue_handler_destroy(&h); PBT_CHECK(notes == "RS", "notifications %s", notes.c_str());
      PBT_CHECK(got.size() <= sent.size() && std::equal(got.begin(), got.end(), sent.begin()), "messages were lost in the middle"); if (!lost) PBT_EQ(got.size(), sent.size(), "messages delivered");
    } else if (what == 1) {
      fixed_msg_queue_handler_init_param_t ip; memset(&ip, 0, sizeof ip); ip.fn_handle_msg = on_fixed; fixed_msg_queue_handler h = nullptr;
      faulty(c, [&] { h = fixed_msg_queue_handler_create(8, &ip); sched::settle(); }, 5);
      if (!h) { PBT_CHECK(hit || th, "fixed_msg_queue_handler_create failed with memory"); return ended(); }
      PBT_CHECK(!hit, "fixed_msg_queue_handler_create succeeded although an allocation failed");
      size_t sent = 0; for (size_t i = 0, n = c.size(1, 10); i < n; ++i) { fixed_msg_t m; memset(&m, 0, sizeof m); m.what = (int)i; if (fixed_msg_queue_handler_push(h, &m) == MSG_Q_CODE_SUCCESS) ++sent; sched::settle(); }
      fixed_msg_queue_handler_destroy(&h); PBT_EQ(got.size(), sent, "messages delivered");
    } else if (what == 2) {
      int n = (int)c.range(1, 4); threadpool p = nullptr; faulty(c, [&] { p = thpool_init(n); }, 8);
      if (!p) { PBT_CHECK(hit || (th && th <= n), "thpool_init failed with memory"); sched::settle(); return ended(); }
      PBT_CHECK(!hit && !(th && th <= n), "thpool_init succeeded although it ran out of memory or threads");
      unsigned added = 0; for (size_t i = 0, k = c.size(1, 8); i < k; ++i) { Span sp(c); int r = 0; faulty(c, [&] { r = thpool_add_work(p, job, nullptr); }, 1); PBT_CHECK(hit == (r != 0), "thpool_add_work returned %d although the allocation %s", r, hit ? "failed" : "succeeded"); if (!r) ++added; }
      thpool_wait(p); PBT_EQ(ran, added, "jobs run"); thpool_destroy(p);
    } else if (what == 3) {
      portable_thread_t t = 0; portable_thread_attr_t at; memset(&at, 0, sizeof at); bool attr = c.boolean(); if (attr) strcpy(at.name, "short"); int r = 0, x = 0;
      faulty(c, [&] { r = portable_thread_create(&t, attr ? &at : nullptr, thread_fn, &x); }, 3);
      if (r) { PBT_CHECK(hit || th == 1, "portable_thread_create failed with memory"); PBT_EQ(x, 0, "a thread that could not be created ran"); }
      else { void *ret = nullptr; PBT_EQ(portable_thread_join(t, &ret), 0, "join"); PBT_CHECK(x == 1 && ret == &x, "the thread did not run"); }
    } else {
      file_logger_cfg cfg; memset(&cfg, 0, sizeof cfg); snprintf(cfg.log_folder_path, sizeof cfg.log_folder_path, "%s/l/", scratch().c_str()); strcpy(cfg.log_file_name_prefix, "p"); cfg.log_queue_size = 64; file_logger_handle h = nullptr;
      faulty(c, [&] { h = file_logger_init(&cfg); sched::settle(); }, 9);
      if (!h) { PBT_CHECK(hit || th, "file_logger_init failed with memory"); sched::settle(); return ended(); }
      bool lost = hit; std::vector<std::string> sent;
      for (size_t i = 0, n = c.size(1, 6); i < n; ++i) {
        Span sp(c); std::string s = "<" + std::to_string(i) + std::string(c.oneof<size_t>({5, 2040, 2100, 5000}), 'x') + ">"; int r = 0;
        faulty(c, [&] { r = file_logger_log(h, (void *)s.data(), s.size()); }, 1); bool in_log = hit; sched::settle();
        if (r == 0) { sent.push_back(s); if (in_log) lost = true; } else PBT_CHECK(in_log || lost || r == MSG_Q_CODE_FULL, "file_logger_log returned %d with memory", r);
      }
      PBT_EQ(file_logger_deinit(&h), 0, "file_logger_deinit"); std::string all;
      if (DIR *d = opendir((scratch() + "/l").c_str())) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') all += read_file(scratch() + "/l/" + e->d_name); closedir(d); }
      std::string want; for (auto &s : sent) want += s + "\n";
      if (!lost) PBT_CHECK(all == want, "the log holds %zu bytes, expected %zu", all.size(), want.size()); else PBT_CHECK(want.compare(0, all.size(), all) == 0, "the log is not what was accepted before memory ran out");
    }
    ended();
  });
  mem::stop(); scratch_clear();
}
// the library's allocator, tracked or not: a failed call leaves every block and the account alone
static void tracked(Case &c) {
  quiet(); mem::start(); bool on = c.draw(3) > 0; if (on) { auto init = [&] { allocation_tracker_init(); }; faulty(c, init, 3); if (hit) { allocation_tracker_uninit(); no_leak("allocation_tracker_init and uninit"); init(); } }
  std::map<char *, std::string> live; std::map<char *, size_t> room; c.note("tracker %s", on ? "on" : "off");
  auto account = [&] { size_t want = 0; for (auto &b : live) { PBT_CHECK(!memcmp(b.first, b.second.data(), b.second.size()), "a block changed"); want += room[b.first]; } if (on) PBT_EQ(allocation_tracker_expect_no_allocations([](void *, size_t, char *, char *, int, void *) {}, nullptr), want, "bytes accounted"); };
  for (size_t i = 0, n = c.size(1, 25); i < n; ++i) {
    Span sp(c); char *p = nullptr; std::string v = c.payload(c.size(0, 40)); for (char &ch : v) if (!ch) ch = 'n'; unsigned o = c.weighted({3, 2, 4, 2, 2, 3}); auto it = live.begin(); if (!live.empty()) std::advance(it, c.draw(live.size() - 1)); bool re = o == 2 && !live.empty(); if (o == 5) { if (!live.empty()) { c.note("free"); lcu_free(it->first); room.erase(it->first); live.erase(it); } account(); continue; }
    size_t want = re ? it->second.size() + c.draw(3000) + 1 : v.size() + 1; const char *what = o == 0 ? "malloc" : o == 1 ? "calloc" : o == 2 ? "realloc" : o == 3 ? "strdup" : "strndup";
    auto go = [&] { p = (char *)(o == 0 ? lcu_malloc(want) : o == 1 ? lcu_calloc(1, want) : o == 2 ? lcu_realloc(re ? it->first : nullptr, want) : o == 3 ? lcu_strdup(v.c_str()) : lcu_strndup(v.c_str(), v.size() + c.draw(2))); };
    c.note("%s(%zu)", what, want); faulty(c, go, 1); if (hit) { PBT_CHECK(!p, "%s succeeded without memory", what); account(); if (c.boolean()) continue; go(); } PBT_CHECK(p, "%s with memory failed", what);
    if (o != 2) { memcpy(p, v.c_str(), v.size() + 1); live[p] = v; } else { std::string old = re ? it->second : ""; PBT_CHECK(!memcmp(p, old.data(), old.size()), "realloc lost the contents"); if (re) { room.erase(it->first); live.erase(it); } memcpy(p + old.size(), "~", 1); live[p] = old + "~"; }
    room[p] = on ? allocation_tracker_ptr_size(99, p) : 0; PBT_CHECK(!on || room[p] >= want, "%s(%zu) is accounted with %zu bytes", what, want, room[p]); account();
  }
  for (auto &b : live) lcu_free(b.first); live.clear(); account(); if (on) allocation_tracker_uninit(); no_leak("the allocator"); mem::stop();
}
std::vector<Suite> suites = {{"tracked", tracked, 60000, 800000}, {"lists", lists, 40000, 800000}, {"maps", maps, 30000, 600000}, {"arrays", arrays, 30000, 600000}, {"builders", builders, 30000, 600000},
                             {"params", params, 40000, 800000}, {"inis", inis, 30000, 600000}, {"single", single, 30000, 600000}, {"threads", threads, 30000, 600000}};
