// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <cerrno>
#include <map>
#include <set>
extern "C" {
#include "data/hashmap.h"
#include "data/hash_functions.h"
}
using namespace pbt;

Property property = {
  "C13",
  "histories of put/get/remove/foreach/clear/size over string, integer and pointer keys with good, weak and constant hash functions, initial capacities 0..100, with and without free functions and lock; "
  "compared with std::map; non-trivial: an existing key was overwritten, a key was removed and at least 4 keys were in the map at once (so that it grew or collided)",
  "exploration", {"the key that stays in the map on overwrite is the one put first (the new one is neither stored nor freed), as the code does", "the only call of a foreach callback back into the map is the removal of the entry it was given, on a map without a lock"}};

struct Key { uint32_t id; uint64_t serial; bool freed; };          // equality by id
struct Val { uint64_t serial; bool freed; };
static struct World {
  Case *c; unsigned hash_kind; int depth; int acquired; bool locked, has_lock; uint64_t serial;
  std::set<Key *> keys_out; std::set<Val *> vals_out;                // handed over, not yet freed
  std::vector<Key *> kfreed; std::vector<Val *> vfreed;
} W;
static void in_lock(const char *what) { if (W.has_lock && W.depth != 1) fail("%s ran outside of the lock", what); }
static int hash_key(const void *k) {
  in_lock("the hash function"); const Key *x = (const Key *)k; if (x && x->freed) fail("the hash function got a freed key");
  uint32_t id = x ? x->id : 0;
  switch (W.hash_kind) { case 0: return (int)mix64(id); case 1: return 7; case 2: return (int)(id % 3); case 3: return (int)(id << 20); case 4: return -(int)id; default: { uint32_t t = id; return hashmap_hash(&t, sizeof(t)); } }
}
static bool key_eq(const void *a, const void *b) { in_lock("the key comparison"); const Key *x = (const Key *)a, *y = (const Key *)b; if (!x || !y) return x == y; if (x->freed || y->freed) fail("the key comparison got a freed key"); return x->id == y->id; }
static void key_free(void *k) { in_lock("the key free function"); Key *x = (Key *)k; if (!x) fail("the key free function was called with NULL"); if (x->freed) fail("a key was freed twice"); x->freed = true; W.kfreed.push_back(x); }
static void val_free(void *v) { in_lock("the value free function"); Val *x = (Val *)v; if (!x) fail("the value free function was called with NULL"); if (x->freed) fail("a value was freed twice"); x->freed = true; W.vfreed.push_back(x); }
static int acq(void *arg) { if (arg != &W) fail("lock: wrong argument"); if (W.depth) fail("the lock was taken twice"); W.depth++; W.acquired++; return 0; }
static int rel(void *arg) { if (arg != &W) fail("unlock: wrong argument"); if (W.depth != 1) fail("the lock was released without being held"); W.depth--; return 0; }

struct It { std::vector<std::pair<Key *, Val *>> seen; size_t stop_after; bool stopped; void *ctx; hashmap_t *remove_from = nullptr; uint64_t remove_salt = 0; std::set<uint32_t> removed; };
static bool iter(void *k, void *v, void *ctx) {
  It *it = (It *)ctx; in_lock("the foreach callback"); if (it->stopped) fail("foreach called its callback again after it asked to stop");
  it->seen.push_back({(Key *)k, (Val *)v}); if (it->remove_from && mix64(((Key *)k)->id + it->remove_salt) % 2) { uint32_t id = ((Key *)k)->id; Key probe{id, 0, false}; if (hashmap_remove(it->remove_from, &probe) != v) fail("removing the entry foreach is at did not return its value"); it->removed.insert(id); } if (it->seen.size() >= it->stop_after) { it->stopped = true; return false; } return true;
}

static void history(Case &c) {
  mem::start(); W = World(); W.c = &c; W.hash_kind = c.weighted({6, 3, 3, 2, 2, 2}); W.has_lock = c.boolean();
  bool kf = c.boolean(), vf = c.boolean(); size_t cap = c.size(0, 100); uint32_t universe = (uint32_t)c.size(1, c.thorough ? 400 : 60);
  hashmap_lock_t lock = {&W, acq, rel};
  hashmap_t *m = hashmap_create(cap, hash_key, kf ? key_free : nullptr, vf ? val_free : nullptr, key_eq, W.has_lock ? &lock : nullptr);
  PBT_CHECK(m, "hashmap_create(%zu) failed", cap); memset(&lock, 0xee, sizeof lock);
  c.note("hashmap_create(%zu) hash %u, key_free %d, value_free %d, lock %d", cap, W.hash_kind, kf, vf, W.has_lock);
  std::map<uint32_t, std::pair<Key *, Val *>> model; std::vector<Key *> ownk; std::vector<Val *> ownv; size_t max_n = 0; bool over = false, removed = false, stopped = false;
  auto newk = [&](uint32_t id) { Key *k = new Key{id, ++W.serial, false}; ownk.push_back(k); return k; };
  auto newv = [&] { Val *v = new Val{++W.serial, false}; ownv.push_back(v); return v; };
  auto expect_freed = [&](std::vector<Key *> ks, std::vector<Val *> vs, const char *what) {
    if (!kf) ks.clear(); if (!vf) vs.clear();
    PBT_EQ(W.kfreed.size(), ks.size(), (std::string(what) + ": keys passed to the free function").c_str()); PBT_EQ(W.vfreed.size(), vs.size(), (std::string(what) + ": values passed to the free function").c_str());
    PBT_CHECK(std::set<Key *>(ks.begin(), ks.end()) == std::set<Key *>(W.kfreed.begin(), W.kfreed.end()), "%s freed another key", what);
    PBT_CHECK(std::set<Val *>(vs.begin(), vs.end()) == std::set<Val *>(W.vfreed.begin(), W.vfreed.end()), "%s freed another value", what);
    W.kfreed.clear(); W.vfreed.clear();
  };
  size_t n_ops = c.size(1, c.thorough ? 500 : 120);
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c); unsigned op = c.weighted({50, 24, 18, 6, 1, 1}); uint32_t id = (uint32_t)c.draw(universe); int acq0 = W.acquired;
    auto it = model.find(id); bool have = it != model.end();
    if (op == 0) {
      Key *k = newk(id); if (have && c.draw(3) == 3) k = it->second.first;                  // the very key that is in the map
      Val *v = c.draw(15) == 15 ? nullptr : newv(); void *r = hashmap_put(m, k, v); c.note("put(%u, %s) -> %s", id, v ? "value" : "NULL", r ? "old value" : "NULL");
      PBT_CHECK(r == (have ? it->second.second : nullptr), "put(%u) did not return the value there was", id);
      if (have) { Val *o = it->second.second; expect_freed({}, o ? std::vector<Val *>{o} : std::vector<Val *>{}, "put over an existing key"); it->second.second = v; over = true; } else { expect_freed({}, {}, "put"); model[id] = {k, v}; }
    } else if (op == 1) {
      Key probe{id, 0, false}; void *r = hashmap_get(m, &probe); c.note("get(%u) -> %s", id, r ? "value" : "NULL");
      PBT_CHECK(r == (have ? it->second.second : nullptr), "get(%u) returned %s", id, r ? "another value" : "NULL"); expect_freed({}, {}, "get");
    } else if (op == 2) {
      Key probe{id, 0, false}; void *r = hashmap_remove(m, &probe); c.note("remove(%u) -> %s", id, r ? "value" : "NULL");
      PBT_CHECK(r == (have ? it->second.second : nullptr), "remove(%u) did not return the value there was", id);
      if (have) { Val *o = it->second.second; expect_freed({it->second.first}, o ? std::vector<Val *>{o} : std::vector<Val *>{}, "remove"); model.erase(it); removed = true; } else expect_freed({}, {}, "remove of a missing key");
    } else if (op == 3) {
      It f; f.stopped = false; f.stop_after = c.boolean() ? (size_t)-1 : 1 + c.draw(model.size() + 1); if (!W.has_lock && c.draw(3) == 3) { f.remove_from = m; f.remove_salt = c.draw(100); } hashmap_foreach(m, iter, &f); c.note("foreach(stop after %zd) -> %zu calls", (ssize_t)f.stop_after, f.seen.size());
      PBT_EQ(f.seen.size(), std::min(f.stop_after, model.size()), "foreach: calls of the callback"); std::set<uint32_t> ids;
      for (auto &kv : f.seen) { auto x = model.find(kv.first->id); PBT_CHECK(x != model.end() && x->second.first == kv.first && x->second.second == kv.second, "foreach passed an entry that is not in the map"); PBT_CHECK(ids.insert(kv.first->id).second, "foreach visited %u twice", kv.first->id); }
      if (f.stopped && model.size() > f.seen.size()) stopped = true;
      std::vector<Key *> ks; std::vector<Val *> vs; for (uint32_t x : f.removed) { auto y = model.find(x); ks.push_back(y->second.first); if (y->second.second) vs.push_back(y->second.second); model.erase(y); removed = true; }
      expect_freed(ks, vs, "foreach"); if (!f.removed.empty()) c.label("removed by the foreach callback");
    } else if (op == 4) {
      std::vector<Key *> ks; std::vector<Val *> vs; for (auto &kv : model) { ks.push_back(kv.second.first); if (kv.second.second) vs.push_back(kv.second.second); }
      hashmap_clear(m); c.note("clear"); expect_freed(ks, vs, "clear"); model.clear();
    } else { PBT_CHECK(!hashmap_get(nullptr, nullptr) && !hashmap_put(nullptr, nullptr, nullptr) && !hashmap_remove(nullptr, nullptr), "calls on a NULL map"); hashmap_clear(nullptr); hashmap_foreach(nullptr, iter, nullptr); hashmap_free(nullptr); }
    PBT_EQ(hashmap_size(m), model.size(), "size"); PBT_EQ(W.depth, 0, "lock depth after an operation"); if (W.has_lock && op <= 4 && W.acquired == acq0) fail("operation %u did not take the lock", op);
    max_n = std::max(max_n, model.size());
  }
  std::vector<Key *> ks; std::vector<Val *> vs; for (auto &kv : model) { Key probe{kv.first, 0, false}; PBT_CHECK(hashmap_get(m, &probe) == kv.second.second, "final get(%u)", kv.first); ks.push_back(kv.second.first); if (kv.second.second) vs.push_back(kv.second.second); }
  hashmap_free(m); expect_freed(ks, vs, "free"); PBT_EQ(W.depth, 0, "lock depth after free");
  for (Key *k : ownk) delete k; for (Val *v : ownv) delete v;
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
  if (over) c.label("overwritten"); if (removed) c.label("removed"); if (stopped) c.label("foreach stopped early"); if (max_n > cap + cap / 3 + 1) c.label("grew"); if (W.hash_kind == 1) c.label("constant hash");
  if (over && removed && max_n >= 4) c.nontrivial();
}

// hashmap_hash depends on the bytes only, and on all of them.
static void hash_fn(Case &c) {
  std::string a = c.payload(c.size(0, 40)), b = a; c.note("hash of %s", quote(a).c_str()); std::string far(8, 'x'); far += a;
  int h = hashmap_hash((void *)a.data(), a.size()); PBT_EQ(hashmap_hash((void *)b.data(), b.size()), h, "hash of an equal key"); PBT_EQ(hashmap_hash((void *)(far.data() + 8), a.size()), h, "hash of the same bytes elsewhere");
  if (!a.empty()) c.nontrivial();
}
// maps over the library's own hash functions: strings by content, whatever their address and neighbours; integers and pointers by value
static bool same_string(const void *a, const void *b) { return !strcmp((const char *)a, (const char *)b); }
static bool same_pointer(const void *a, const void *b) { return a == b; }
static void free_string(void *k) { mem::release(k); }
struct Walk { std::map<std::string, intptr_t> got; bool strings; };
static std::string pointer_name(const void *k) { return std::to_string((intptr_t)k); }
static bool walk(void *k, void *v, void *ctx) { Walk *w = (Walk *)ctx; std::string n = w->strings ? std::string((const char *)k) : pointer_name(k); if (!w->got.emplace(n, (intptr_t)v).second) fail("foreach visited %s twice", quote(n).c_str()); return true; }
static void library_hashes(Case &c) {
  mem::start(); unsigned kind = c.draw(3); bool strings = kind == 0; int (*h)(const void *) = kind == 0 ? hash_function_string : kind == 1 ? hash_function_integer : kind == 2 ? hash_function_pointer : hash_function_naive;
  hashmap_t *m = hashmap_create(c.size(0, 30), h, strings ? free_string : nullptr, nullptr, strings ? same_string : same_pointer, nullptr); PBT_CHECK(m, "hashmap_create failed");
  std::vector<std::string> names; std::vector<intptr_t> ints; size_t n = c.size(1, 30);
  for (size_t i = 0; i < n; ++i) { if (strings) { std::string s = c.draw(3) ? c.str(0, 4, "ab\x80\xff z") : c.payload(c.size(0, 60)); for (char &ch : s) if (!ch) ch = 'n'; names.push_back(s); } else ints.push_back(c.draw(2) ? (intptr_t)c.irange(-40, 40) : (intptr_t)c.draw(UINT64_MAX)); }
  std::map<std::string, intptr_t> model; size_t ops = c.size(1, 80), most = 0; bool over = false, removed = false;
  for (size_t i = 0; i < ops; ++i) {
    Span sp(c); size_t at = c.draw(n - 1); std::string name = strings ? names[at] : std::to_string(ints[at]); auto key = [&]() -> void * { if (!strings) return (void *)ints[at]; char *k = (char *)mem::take(name.size() + 1); memcpy(k, name.c_str(), name.size() + 1); return k; };
    void *k = key(); auto it = model.find(name); void *want = it == model.end() ? nullptr : (void *)it->second; unsigned op = c.weighted({10, 6, 4}); void *r; bool stored = false;
    if (op == 0) { intptr_t v = (intptr_t)(i + 1); r = hashmap_put(m, k, (void *)v); stored = it == model.end(); if (!stored) over = true; model[name] = v; }
    else if (op == 1) r = hashmap_get(m, k);
    else { r = hashmap_remove(m, k); if (it != model.end()) { removed = true; model.erase(it); } }
    c.note("%s(%s) -> %ld", op == 0 ? "put" : op == 1 ? "get" : "remove", quote(name).c_str(), (long)(intptr_t)r); if (r != want) fail("%s of %s with library hash function %u gave %ld, expected %ld", op == 0 ? "put" : op == 1 ? "get" : "remove", quote(name).c_str(), kind, (long)(intptr_t)r, (long)(intptr_t)want);
    if (strings && !stored) mem::release(k);
    PBT_EQ(hashmap_size(m), model.size(), "size"); most = std::max(most, model.size());
  }
  Walk w; w.strings = strings; hashmap_foreach(m, walk, &w); PBT_CHECK(w.got == model, "foreach visited %zu entries that are not the %zu of the map", w.got.size(), model.size());
  hashmap_free(m); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); c.label(strings ? "string keys" : "integer or pointer keys"); if (over && removed && most >= 4) c.nontrivial();
}
// thousands of entries
static void large(Case &c) {
  mem::start(); size_t n = (size_t)c.range(1000, c.thorough ? 200000 : 20000); uint64_t salt = c.draw(1000); hashmap_t *m = hashmap_create(c.size(0, 3000), hash_function_integer, nullptr, nullptr, same_pointer, nullptr); PBT_CHECK(m, "hashmap_create failed"); std::map<intptr_t, intptr_t> model; c.note("%zu entries", n);
  auto check = [&] { PBT_EQ(hashmap_size(m), model.size(), "size"); for (auto &kv : model) PBT_CHECK(hashmap_get(m, (void *)kv.first) == (void *)kv.second, "get(%ld)", (long)kv.first); Walk w; w.strings = false; hashmap_foreach(m, walk, &w); PBT_EQ(w.got.size(), model.size(), "entries visited by foreach"); };
  for (size_t i = 0; i < n; ++i) { intptr_t k = (intptr_t)(mix64(salt + i) % (n * 2)) + 1; if (mix64(salt * 3 + i) % 5) { intptr_t old = model.count(k) ? model[k] : 0; PBT_CHECK(hashmap_put(m, (void *)k, (void *)(i + 1)) == (void *)old, "put(%ld)", (long)k); model[k] = (intptr_t)i + 1; } else { intptr_t old = model.count(k) ? model[k] : 0; PBT_CHECK(hashmap_remove(m, (void *)k) == (void *)old, "remove(%ld)", (long)k); model.erase(k); } }
  check(); for (size_t i = 0; i < n; i += 2) { intptr_t k = (intptr_t)(mix64(salt + i) % (n * 2)) + 1; hashmap_remove(m, (void *)k); model.erase(k); } check();
  hashmap_clear(m); PBT_EQ(hashmap_size(m), 0, "size after clear"); hashmap_put(m, (void *)1, (void *)2); PBT_CHECK(hashmap_get(m, (void *)1) == (void *)2, "get after clear"); hashmap_free(m); PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop(); c.nontrivial();
}
std::vector<Suite> suites = {{"large", large, 80, 400}, {"history", history, 1000000, 6000000}, {"hash", hash_fn, 10000, 20000}, {"libhash", library_hashes, 200000, 2000000}};
