// intercept.h - what stands between the library and libc in a check.
//
// run.py renames the library's references to the functions listed there
// (malloc -> lcux_malloc, pthread_mutex_lock -> lcux_pthread_mutex_lock ...);
// the harness itself is linked against the real ones.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include "pbt.h"

extern "C" {
void *lcux_malloc(size_t); void lcux_free(void *); void *lcux_calloc(size_t, size_t); void *lcux_realloc(void *, size_t);
}

namespace mem {
// Accounting of the blocks the library allocated and did not free.
void start();                  // forget everything, start accounting
void stop();
size_t live_blocks();
size_t live_bytes();
bool is_live(const void *p);
size_t block_size(const void *p);   // requested size of a live block (0: not one of ours)
size_t total_allocs();         // allocations since start()
std::string describe();        // sizes of the live blocks
void fail_at(int64_t k);       // the k-th allocation from now fails (k>=1), 0: none
void fail_from(int64_t k);     // every allocation from the k-th on fails
bool failed();                 // the injected failure was delivered
extern size_t sparse;          // copies longer than this only reach half of it at each end; 0: off
extern size_t big;             // blocks of that many bytes and more are mapped lazily and end at a guard page; 0: off
// Releases a block the library returned to its caller.
inline void release(void *p) { lcux_free(p); }
inline void *take(size_t n) { return lcux_malloc(n); }   // a block the library will free
}

namespace vclock {
// Replaces what gettimeofday/time/clock_gettime tell the library.
void set_us(int64_t us_since_epoch);
void advance_us(int64_t us);
int64_t now_us();
void off();
extern uint64_t calls;
extern thread_local int64_t last_us;     // what the calling thread was told last
extern thread_local uint64_t readings;   // and how often it asked
}

namespace io {
// Faults in the stdio calls of the library.
void reset();
void fail_fwrite_at(int64_t k);   // the k-th write-type call from now reports failure and writes nothing
void fail_fopen_at(int64_t k);
bool delivered();
extern int64_t open_files;        // fopen - fclose
extern std::function<ssize_t(int, char *, size_t)> stand_in_rw;   // called in place of read and write
extern std::function<int64_t(size_t)> short_rw;   // how many bytes a read or write call moves at most (-errno: it fails)
extern std::vector<std::string> escapes;   // calls on paths outside the scratch directory, which were refused
extern std::string tty;           // a file that stands in for /dev/tty in freopen
std::vector<std::string> opened(); // paths opened for writing since reset(), in order
}

// A scheduler that owns the interleaving: only one thread runs at a time, and
// every thread switch is a choice of the case.  Covers pthread_*, sem_*, sleeping
// and, in the "sched" build variant, every load and store in the library.
namespace sched {
struct Opts {
  uint32_t max_gap = 40;      // preemption points between two forced preemptions: drawn from 0..max_gap
  bool preempt_memory = true; // loads and stores are preemption points
  bool spurious = false;      // condition variables may wake up spuriously
  uint64_t max_steps = 400000;
  int64_t tick_us = 0;        // virtual time that passes with every reading of the clock (for code that polls it)
};
// Draws a preemption density.
Opts draw_opts(pbt::Case &c);
void run(pbt::Case &c, const Opts &o, const std::function<void()> &body);
int spawn(const std::function<void()> &fn);   // a harness thread
void join(int id);
void yield();              // explicit scheduling point
void sleep_us(int64_t us); // in virtual time
int64_t now_us();
bool active();
int self();                // vthread id
int threads_alive();       // not finished, including the caller
// Blocks until the predicate holds; a deadlock or a bounded wait in virtual time otherwise fails the case.
void wait_until(const std::function<bool()> &pred, const char *what, int64_t max_virtual_us = 120ll * 1000000);
// True when no thread but the caller can run now.
bool quiescent();
extern std::function<void(void *, unsigned)> on_store;   // called before every store of the library (not to its locals): address, size
// Runs the other threads until none of them can run without time passing.
void settle();
extern uint64_t steps, switches;
// fails the n-th pthread_create from now
void fail_create_at(int64_t k);
}
