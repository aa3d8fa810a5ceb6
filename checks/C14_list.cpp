// variant: asan
#include "pbt.h"
#include "intercept.h"
#include <algorithm>
extern "C" {
#include "data/list.h"
}
using namespace pbt;

Property property = {
  "C14",
  "histories of append/prepend/insert_after/remove/clear/foreach/walks with duplicated elements, with and without free function, also foreach callbacks that remove the element they are at or add elements; compared "
  "with std::vector; non-trivial: an element was removed and the first and the last element both changed afterwards",
  "exploration", {"callbacks remove nothing but the element they are called for", "elements added behind the node being visited may or may not be visited (the documentation leaves it open)"}};

static struct World { std::vector<int> freed; bool has_free; } W;
static int pool[64];
static int id_of(void *p) { int *x = (int *)p; if (x < pool || x >= pool + 64) fail("the list handed out a pointer that was never put in"); return (int)(x - pool); }
static void free_cb(void *p) { W.freed.push_back(id_of(p)); }

struct It { list_t *l; std::vector<int> seen; std::vector<int> *m; unsigned mode; size_t stop_after; Case *c; size_t at; bool changed; std::vector<int> at_start; bool done; };
static bool visit(void *d, void *ctx) {
  It *it = (It *)ctx; int id = id_of(d); if (it->done) fail("foreach went on after its callback returned false"); it->seen.push_back(id);
  // the model position of the element being visited
  if (it->mode == 1) {   // remove the element visited, if told to (only elements that are unique, or the first instance)
    if (it->c->boolean()) {
      auto f = std::find(it->m->begin(), it->m->end(), id); if (f == it->m->end()) fail("foreach visited an element that is not in the list");
      if (std::count(it->m->begin(), it->m->end(), id) == 1) { size_t n = W.freed.size(); if (!list_remove(it->l, d)) fail("remove inside foreach"); it->m->erase(f); if (W.has_free && (W.freed.size() != n + 1 || W.freed.back() != id)) fail("remove inside foreach: free function"); it->changed = true; }
    }
  } else if (it->mode == 2) { if (it->c->boolean()) { int n = (int)it->c->draw(63); if (!list_prepend(it->l, &pool[n])) fail("prepend inside foreach"); it->m->insert(it->m->begin(), n); it->changed = true; } }
  else if (it->mode == 3) { if (it->m->size() < 100 && it->c->draw(2) == 2) { int n = (int)it->c->draw(63); if (!list_append(it->l, &pool[n])) fail("append inside foreach"); it->m->push_back(n); it->changed = true; } }
  if (it->seen.size() >= it->stop_after) { it->done = true; return false; }
  return true;
}
static void compare(list_t *l, const std::vector<int> &m) {
  PBT_EQ(list_length(l), m.size(), "length"); PBT_EQ(list_is_empty(l), m.empty(), "is_empty"); size_t i = 0;
  list_node_t *last = nullptr;
  for (list_node_t *n = list_begin(l); n != list_end(l); n = list_next(n), ++i) { PBT_CHECK(i < m.size(), "the list has more than %zu elements", m.size()); PBT_EQ(id_of(list_node(n)), m[i], "element"); last = n; }
  PBT_EQ(i, m.size(), "elements in the traversal");
  if (m.empty()) { PBT_CHECK(!list_front(l) && !list_back(l) && !list_back_node(l), "front/back of an empty list"); }
  else { PBT_EQ(id_of(list_front(l)), m.front(), "front"); PBT_EQ(id_of(list_back(l)), m.back(), "back"); PBT_CHECK(list_back_node(l) == last, "back_node is not the last node"); }
}
static void history(Case &c) {
  mem::start(); W = World(); W.has_free = c.boolean(); list_t *l = list_new(W.has_free ? free_cb : nullptr); PBT_CHECK(l, "list_new failed"); c.note("list_new(%s)", W.has_free ? "free_cb" : "NULL");
  std::vector<int> m; bool removed = false, front_after = false, back_after = false, iter_changed = false; unsigned universe = (unsigned)c.range(2, 63);
  auto freed = [&](std::vector<int> want, const char *what) { if (!W.has_free) want.clear(); PBT_CHECK(W.freed.size() == want.size(), "%s called the free function %zu times instead of %zu", what, W.freed.size(), want.size()); std::vector<int> a = W.freed; std::sort(a.begin(), a.end()); std::sort(want.begin(), want.end()); PBT_CHECK(a == want, "%s freed another element", what); W.freed.clear(); };
  size_t n_ops = c.size(1, c.thorough ? 300 : 80);
  for (size_t i = 0; i < n_ops; ++i) {
    Span sp(c); unsigned op = c.weighted({20, 12, 14, 22, 10, 1, 2, 6}); int id = (int)c.draw(universe);
    switch (op) {
      case 0: PBT_CHECK(list_append(l, &pool[id]), "append failed"); m.push_back(id); c.note("append(%d)", id); if (removed) back_after = true; break;
      case 1: PBT_CHECK(list_prepend(l, &pool[id]), "prepend failed"); m.insert(m.begin(), id); c.note("prepend(%d)", id); if (removed) front_after = true; break;
      case 2: if (!m.empty()) { size_t k = c.draw(m.size() - 1); if (c.draw(3) == 3) k = m.size() - 1; list_node_t *n; if (k == m.size() - 1 && c.boolean()) n = list_back_node(l); else { n = list_begin(l); for (size_t j = 0; j < k; ++j) n = list_next(n); }
          PBT_CHECK(list_insert_after(l, n, &pool[id]), "insert_after failed"); m.insert(m.begin() + (long)k + 1, id); c.note("insert_after(#%zu, %d)", k, id); if (removed && k == m.size() - 2) back_after = true; } break;
      case 3: { if (!m.empty() && c.draw(3) != 3) { unsigned w = (unsigned)c.draw(2); id = w == 0 ? m[c.draw(m.size() - 1)] : w == 1 ? m.front() : m.back(); } auto f = std::find(m.begin(), m.end(), id); bool r = list_remove(l, &pool[id]); c.note("remove(%d) -> %d", id, r);
          PBT_EQ(r, f != m.end(), "remove"); freed(r ? std::vector<int>{id} : std::vector<int>{}, "remove"); if (r) { m.erase(f); removed = true; front_after = back_after = false; } break; }
      case 4: PBT_EQ(list_contains(l, &pool[id]), std::find(m.begin(), m.end(), id) != m.end(), "contains"); break;
      case 5: { list_clear(l); c.note("clear"); freed(m, "clear"); m.clear(); break; }
      case 6: PBT_CHECK(!list_append(l, nullptr) && !list_prepend(l, nullptr) && !list_remove(l, nullptr) && !list_contains(l, nullptr) && !list_insert_after(l, list_begin(l), nullptr) && !list_insert_after(l, nullptr, &pool[id]), "NULL element accepted");
          PBT_CHECK(!list_append(nullptr, &pool[0]) && !list_prepend(nullptr, &pool[0]) && !list_remove(nullptr, &pool[0]) && list_length(nullptr) == 0 && !list_foreach(nullptr, visit, nullptr) && !list_foreach(l, nullptr, nullptr), "NULL list"); list_free(nullptr); list_clear(nullptr); break;
      case 7: {
        It it; it.l = l; it.m = &m; it.mode = (unsigned)c.draw(3); it.c = &c; it.changed = false; it.at_start = m; it.done = false; it.stop_after = c.boolean() ? (size_t)-1 : 1 + c.draw(m.size()); std::vector<int> start = m; size_t base = m.size();
        std::vector<list_node_t *> nodes; for (list_node_t *n = list_begin(l); n; n = list_next(n)) nodes.push_back(n);
        list_node_t *r = list_foreach(l, visit, &it); c.note("foreach(mode %u, stop after %zd) -> %zu calls", it.mode, (ssize_t)it.stop_after, it.seen.size());
        PBT_CHECK(it.seen.size() >= std::min(base, it.stop_after), "foreach called its callback %zu times on %zu elements", it.seen.size(), base);
        if (it.mode != 3) PBT_EQ(it.seen.size(), std::min(base, it.stop_after), "foreach: calls"); else PBT_CHECK(it.seen.size() <= m.size(), "foreach: too many calls");
        for (size_t j = 0; j < it.seen.size(); ++j) PBT_EQ(it.seen[j], j < base ? start[j] : m[j], "foreach: element visited");
        if (it.done) { if (it.seen.size() <= base) PBT_CHECK(r == nodes[it.seen.size() - 1], "foreach did not return the node where the callback stopped"); else PBT_CHECK(r, "foreach returned NULL although the callback stopped"); } else PBT_CHECK(!r, "foreach returned a node although no callback stopped");
        if (it.changed) iter_changed = true; W.freed.clear(); break;
      }
    }
    if (op != 3 && op != 5 && op != 7) freed({}, "an operation that removes nothing");
    compare(l, m);
  }
  list_free(l); freed(m, "list_free");
  PBT_CHECK(mem::live_blocks() == 0, "leak: %s", mem::describe().c_str()); mem::stop();
  if (removed) c.label("removed"); if (iter_changed) c.label("changed inside foreach"); if (removed && front_after && back_after) c.nontrivial();
}
std::vector<Suite> suites = {{"history", history, 2400000, 10000000}};
