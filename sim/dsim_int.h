// dsim internals shared by the runtime's translation units (never instrumented).
#pragma once
#include "dsim.h"
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>

namespace dsim
{
  typedef uint8_t  u8;
  typedef uint16_t u16;
  typedef uint32_t u32;
  typedef uint64_t u64;

  constexpr int MAXF = 16;  // simulated threads per run

  struct VC
  {
    u32  c[MAXF];
    void clear()
    {
      for (int i = 0; i < MAXF; ++i)
        c[i] = 0;
    }
    void join(VC const & o)
    {
      for (int i = 0; i < MAXF; ++i)
        c[i] = c[i] > o.c[i] ? c[i] : o.c[i];
    }
  };

  enum FState : u8
  {
    F_FREE,
    F_RUN,
    F_BLOCK,
    F_DONE
  };
  enum BKind : u8
  {
    B_NONE,
    B_MUTEX,
    B_COND,
    B_JOIN,
    B_ATOMIC,
    B_FUTEX,
    B_SLEEP,
    B_GUARD,
    B_URING,
    B_RDLOCK,
    B_SEM
  };

  struct TlsDtor
  {
    void (*fn)(void*);
    void* arg;
  };

  struct Fiber
  {
    int   id;
    FState state;
    BKind bkind;
    bool  timed_out;
    bool  notified;
    bool  joined, detached;
    const volatile void* bobj;
    u64   deadline;  // 0 = none
    void* sp;
    char* stk_lo;
    char* stk_hi;
    void* fs;
    void* (*start)(void*);
    void* arg;
    void* ret;
    VC    vc, acq_pending, rel_fence, sc_view;
    u32   prio;
    u32   quantum;
    int   nopreempt;
    bool  latest;       // force newest loads
    bool  alloc_mask;   // allocation faults disabled for this thread
    u32   stale_run;
    const volatile void* stale_addr;
    TlsDtor dtors[32];
    int     ndtors;
    bool  bt_request;
    u64   steps;
    u64   stall_until;  // injected stall: not scheduled before this step unless alone
  };

  extern Fiber  fibers[MAXF];
  extern Fiber* cur;       // current fiber (null: host)
  extern bool   active;    // a run is in progress
  extern int    nfibers;
  extern u64    vnow;
  extern bool   fair_phase;

  void  sched_point(int kind, const volatile void* obj);
  void  yield_point();
  // blocks the current fiber; returns true if woken, false if the deadline passed
  bool  block(BKind k, const volatile void* obj, u64 deadline);
  void  wake(Fiber* f);
  int   wake_obj(BKind k, const volatile void* obj, int n);  // n<0: all
  u32   choose(u32 n, int stream);
  u32   fault_choose(const char* kind, u32 permille, u32 n);
  [[noreturn]] void fail(const char* cls, const char* fmt, ...);
  [[noreturn]] void vfail(const char* cls, const char* fmt, va_list ap);
  void  on_access(const volatile void* p, size_t n, bool write, bool atomic, void* pc);
  void  log_event(u64 a, u64 b, u64 c);
  void  release_to(VC& dst);   // dst := join(dst, vc); tick
  void  acquire_from(VC const & src);
  void  count_cover(const char* name, u64 n);
  void  atomic_store_internal(volatile void* p, int size, u64 v, bool release);
  u64   atomic_load_internal(const volatile void* p, int size, bool acquire);
  bool  in_exe(void* pc);

  // host-side memory that no simulated code can see
  void* host_mmap(size_t n);

  // io_uring / fd simulation (uring.cpp)
  bool uring_syscall(long nr, long a, long b, long c, long d, long e, long f, long* ret);
  void uring_reset();
  u64  uring_next_deadline();
  void uring_poll_time();
}  // namespace dsim
