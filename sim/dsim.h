// dsim: deterministic simulator for multi-threaded C++ (public API used by harnesses).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
enum dsim_stream { DS_WORK = 0, DS_SCHED = 1, DS_MEM = 2, DS_FAULT = 3, DS_NSTREAMS = 4 };

// a decision in [0,n); 0 is always the "simplest" one; shrinking drives decisions to 0
unsigned dsim_choose(unsigned n) noexcept;
// a fault decision: fires with probability permille/1000 (scaled per run); counted by kind
int dsim_fault(const char* kind, unsigned permille) noexcept;
// a parametrised fault: returns 0 (no fault) or 1..n
unsigned dsim_fault_n(const char* kind, unsigned permille, unsigned n) noexcept;
void dsim_fault_note(const char* kind) noexcept;
// report a violation (does not return while a run is active)
[[noreturn]] void dsim_fail(const char* cls, const char* fmt, ...) noexcept;
// scheduling point
void dsim_point() noexcept;
// probe counters ("this rare condition was reached")
void dsim_cover(const char* name) noexcept;
// history/log event: contributes to the run hash and to the replay log
void dsim_event(const char* what, long a, long b) noexcept;
uint64_t dsim_now() noexcept;       // virtual nanoseconds
uint64_t dsim_seq() noexcept;       // global event sequence number
uint64_t dsim_steps() noexcept;
int dsim_tid() noexcept;            // simulated thread number
int dsim_live_threads() noexcept;   // simulated threads not yet finished
void dsim_alloc_faults(int permille) noexcept;  // operator new from the code under test may fail
int dsim_alloc_faults_thread(int on) noexcept; // mask for the calling thread; returns the previous setting
long dsim_live_allocs() noexcept;   // live operator-new blocks of this run
void dsim_time_faults(int permille) noexcept;   // clock jumps / stalled threads at scheduling points
void dsim_spurious(int permille) noexcept;      // spurious cv/atomic wakeups
void dsim_poison(const void* p, size_t n) noexcept;    // mark memory as dead
void dsim_unpoison(const void* p, size_t n) noexcept;
void dsim_hw_threads(unsigned n) noexcept;      // what hardware_concurrency() reports
void dsim_quiet_begin() noexcept;   // no preemption, no stale reads, no faults (oracle code)
void dsim_quiet_end() noexcept;
void dsim_sleep(uint64_t ns) noexcept;
int dsim_faults_on() noexcept;      // false once the run has entered its fault-free tail
void dsim_expect_leak(int on) noexcept;

// --- seam used by the atomic_wait shim
void dsim_await_begin(const volatile void* addr) noexcept;
void dsim_await_abandon() noexcept;
void dsim_await_block(const volatile void* addr) noexcept;
void dsim_notify(const volatile void* addr, int all) noexcept;
// harness latch: store 1 (release) and wake every waiter as one indivisible step
void dsim_latch_set(volatile int* p) noexcept;
void dsim_latch_wait(const volatile int* p) noexcept;
int  dsim_latch_ready(const volatile int* p) noexcept;

typedef void (*dsim_scn_fn)();
void dsim_register(const char* name, dsim_scn_fn fn, int weight) noexcept;
int dsim_main(int argc, char** argv, char* data_lo, char* data_hi, char* text_lo, char* text_hi);
}

#define DSIM_CAT2(a, b) a##b
#define DSIM_CAT(a, b) DSIM_CAT2(a, b)
#define SCENARIO(name, weight)                                                            \
  static void scn_##name();                                                               \
  namespace { struct reg_##name { reg_##name() { dsim_register(#name, &scn_##name, weight); } } reg_##name##_; } \
  static void scn_##name()
#define DSIM_CHECK(cond, cls, ...) do { if (!(cond)) dsim_fail(cls, __VA_ARGS__); } while (0)
