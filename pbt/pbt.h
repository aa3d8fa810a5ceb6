// pbt.h - a small property-based testing engine for C libraries.
//
// Every random decision of a case comes from one recorded choice sequence
// (Case::draw).  A case is a pure function of (code, choice sequence), so the
// sequence is what gets shrunk and what a replay file stores.  Cases run in
// forked worker processes; a failed check, a crash, a sanitizer report and a
// hang are all "the process running the case did not finish it".
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace pbt {

struct Choice { uint64_t v, max; };
struct SpanRec { uint32_t b, e; };

enum { MAX_CHOICES = 1 << 16, MAX_SPANS = 1 << 14, MAX_LABELS = 96, LABEL_LEN = 56, MSG_LEN = 2048 };

struct Label { char name[LABEL_LEN]; uint64_t count; };

// One per worker, in shared memory: survives the death of the worker.
struct Slot {
  volatile int64_t  case_idx;      // case being run, -1: none
  volatile uint64_t case_start_ms; // CLOCK_MONOTONIC
  volatile uint64_t done;          // cases finished
  volatile uint64_t discarded;
  volatile uint32_t n_choices, n_spans;
  uint32_t failed;                 // pbt_fail was called
  uint32_t soft_timeout;
  char msg[MSG_LEN];
  Choice choices[MAX_CHOICES];
  SpanRec spans[MAX_SPANS];
  Label labels[MAX_LABELS];
};

class Case {
 public:
  // ---- raw choices -------------------------------------------------------
  uint64_t draw(uint64_t max);                 // uniform 0..max, shrinks to 0
  // ---- helpers, all on top of draw ---------------------------------------
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
  int64_t  irange(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
  bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
  bool boolean() { return draw(1) == 1; }
  // index chosen with the given weights; index 0 should be the simplest
  unsigned weighted(std::initializer_list<unsigned> w);
  // a size in lo..hi: small often, anything sometimes, the bounds sometimes
  uint64_t size(uint64_t lo, uint64_t hi);
  // an element of a list
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
  template <class T> T oneof(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
  // len bytes expanded from a single choice (cheap, position dependent)
  std::string payload(size_t len);
  // len characters, each its own choice, out of an alphabet
  std::string chars(size_t len, const std::string &alphabet);
  std::string str(size_t minlen, size_t maxlen, const std::string &alphabet) { return chars(size(minlen, maxlen), alphabet); }
  // ---- reporting -----------------------------------------------------------
  void label(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void nontrivial() { nontriv = true; }
  bool verbose = false;
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void discard() { discarded = true; }

  bool nontriv = false, discarded = false;
  bool thorough = false;
  uint64_t idx = 0;
  // internals
  Slot *slot = nullptr;
  bool replay = false;
  const Choice *in = nullptr; size_t n_in = 0;
  uint64_t rng[2] = {0, 0};
  std::string trace;
  uint64_t hash = 1469598103934665603ull;
  uint64_t next64();
};

// A group of choices that belong together: the shrinker tries to delete it.
struct Span {
  Case &c; uint32_t b; int id;
  explicit Span(Case &c_) : c(c_), b(c_.slot->n_choices), id(-1) {
    if (c.slot->n_spans < MAX_SPANS) { id = (int)c.slot->n_spans; c.slot->spans[id] = {b, b}; c.slot->n_spans = c.slot->n_spans + 1; }
  }
  ~Span() { if (id >= 0) c.slot->spans[id].e = c.slot->n_choices; }
};

typedef void (*case_fn)(Case &);

struct Suite {
  const char *name;
  case_fn fn;
  uint64_t quick, thorough;   // number of cases
  unsigned timeout_ms = 30000;   // a case that takes longer than this hangs
  bool fork_each = false;     // a fresh process for every case
  bool racy = false;          // real threads: a failure need not repeat every time
  bool exhaustive = false;    // the cases enumerate a finite space completely
  unsigned workers = 8;
};

struct Property {
  const char *id;
  const char *rule;
  const char *level;
  std::vector<const char *> assumptions;
};

// Ends the case as failed; callable from any thread and from callbacks.
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// The case being run.
extern Case *current;

std::string quote(const void *p, size_t n, size_t limit = 80);
inline std::string quote(const std::string &s, size_t limit = 80) { return quote(s.data(), s.size(), limit); }
uint64_t mix64(uint64_t x);
uint64_t hash_bytes(const void *p, size_t n);
uint64_t now_ms();

// A scratch directory for the running process, emptied on request, removed at exit of the check.
const std::string &scratch();
void scratch_clear();
// True when the path lies in the scratch directory of this check (lexically, after "." and "..").
bool inside_scratch(const char *path);
std::string read_file(const std::string &path);
bool write_file(const std::string &path, const std::string &data);

}  // namespace pbt

// Provided by each check.
extern pbt::Property property;
extern std::vector<pbt::Suite> suites;

#define PBT_CHECK(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)
#define PBT_EQ(a, b, what) do { long long _pa = (long long)(a), _pb = (long long)(b); \
  if (_pa != _pb) pbt::fail("%s: got %lld, expected %lld (%s:%d)", what, _pa, _pb, __FILE__, __LINE__); } while (0)
