// dsim: deterministic simulation runtime.
//
// Simulated threads are fibers on one OS thread.  The code under test is compiled with
// -fsanitize=thread, but linked against this runtime instead of the TSan one, so every
// atomic operation, plain memory access, mutex/condvar/thread/clock/allocation call
// arrives here.  A seeded decision stream picks every interleaving, every weak-memory
// load value, every fault and every workload parameter.
#include "dsim_int.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unwind.h>
#include <exception>
#include <new>

#define NOINL __attribute__((noinline))
#define RA() __builtin_return_address(0)

// ---------------------------------------------------------------------------
// raw system calls (our own `syscall` symbol is interposed)
static inline long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8")   = e;
  register long r9 __asm__("r9")   = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

namespace dsim
{
  long raw_sys(long n, long a, long b, long c, long d, long e, long f)
  {
    return raw_syscall(n, a, b, c, d, e, f);
  }

  // -------------------------------------------------------------------------
  // global state
  Fiber  fibers[MAXF];
  Fiber* cur     = nullptr;
  bool   active  = false;
  int    nfibers = 0;
  u64    vnow    = 0;
  bool   fair_phase = false;

  static char *data_lo, *data_hi, *text_lo, *text_hi;
  static char* data_snapshot;
  static void* host_sp;
  static void* host_fs;
  static bool  use_fsgsbase;

  struct Scenario
  {
    const char* name;
    dsim_scn_fn fn;
    int         weight;
  };
  static Scenario scenarios[64];
  static int      nscenarios;

  bool in_exe(void* pc)
  {
    return (char*) pc >= text_lo && (char*) pc < text_hi;
  }

  void* host_mmap(size_t n)
  {
    void* p = (void*) raw_syscall(SYS_mmap, 0, n, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((long) p < 0 && (long) p > -4096)
    {
      raw_syscall(SYS_write, 2, (long) "dsim: mmap failed\n", 18);
      _exit(3);
    }
    return p;
  }
  static void* fixed_mmap(u64 addr, size_t n)
  {
    void* p = (void*) raw_syscall(SYS_mmap, addr, n, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if ((u64) p != addr)
    {
      raw_syscall(SYS_write, 2, (long) "dsim: fixed mmap failed\n", 24);
      _exit(3);
    }
    return p;
  }

  // -------------------------------------------------------------------------
  // PRNG
  struct Rng
  {
    u64  s[2];
    void seed(u64 x)
    {
      for (int i = 0; i < 2; ++i)
      {
        x += 0x9e3779b97f4a7c15ull;
        u64 z = x;
        z     = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z     = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        s[i]  = z ^ (z >> 31);
      }
    }
    u64 next()
    {
      u64 s1 = s[0], s0 = s[1], r = s0 + s1;
      s[0] = s0;
      s1 ^= s1 << 23;
      s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
      return r;
    }
    u32  below(u32 n) { return (u32) (((next() >> 32) * (u64) n) >> 32); }
    bool permille(u32 p) { return below(1000) < p; }
  };

  // -------------------------------------------------------------------------
  // decision streams
  struct Decision
  {
    u32 index;
    u32 value;
  };
  constexpr u32 MAXDEC = 1 << 16;
  struct Trace
  {
    Decision* d[DS_NSTREAMS];
    u32       n[DS_NSTREAMS];
  };
  static Trace rec, play;
  static u32   dec_index[DS_NSTREAMS], play_pos[DS_NSTREAMS];
  static bool  replaying;
  static Rng   rng_stream[DS_NSTREAMS], rng_cfg;

  struct RunCfg
  {
    int strategy;        // 0 random walk, 1 PCT, 2 mostly-sequential
    u32 preempt_pm;      // preemption probability per scheduling point (random walk)
    u32 stale_pm;        // probability of a stale load when one is allowed
    u32 fault_scale;     // percent applied to fault probabilities
    u32 alloc_pm;
    u32 time_pm;
    u32 spurious_pm;
    u32 stall_pm;
    u32 npct;
    u32 pct_at[8];
  };
  static RunCfg cfg;
  static u32    scn_alloc_pm, scn_time_pm, scn_spurious_pm;
  static bool   faults_ok, any_stall;

  // -------------------------------------------------------------------------
  // run bookkeeping
  static u64 steps, accesses, ev_hash, ev_seq, clock_reads, switches, stale_loads, cas_spurious;
  static u64 MAX_STEPS = 40000, FAIR_STEPS = 160000, MAX_ACCESSES = 12000000;
  static u32 gen;  // run generation for lazily cleared shadow
  static bool verbose;
  static bool expect_leak;
  static u32  pct_low;

  static inline u64 mix(u64 h, u64 v)
  {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
  }
  void log_event(u64 a, u64 b, u64 c)
  {
    ev_hash = mix(mix(mix(ev_hash, a), b), c);
    ++ev_seq;
  }

  // counters by name
  struct Counter
  {
    char name[48];
    u64  n;
  };
  constexpr int NCOUNTERS = 192;
  struct Shared;  // per-worker shared results
  static Counter* counters;   // points into shared memory (worker slot)
  static void     bump(Counter* tab, const char* name, u64 n)
  {
    for (int i = 0; i < NCOUNTERS; ++i)
    {
      if (!tab[i].name[0])
      {
        strncpy(tab[i].name, name, sizeof tab[i].name - 1);
        tab[i].n = n;
        return;
      }
      if (!strncmp(tab[i].name, name, sizeof tab[i].name - 1))
      {
        tab[i].n += n;
        return;
      }
    }
  }
  void count_cover(const char* name, u64 n)
  {
    if (counters)
      bump(counters, name, n);
  }

  static u32 decide(int s, u32 n, u32 v)
  {
    // records v at the current index, or replays
    u32 idx = dec_index[s]++;
    if (replaying)
    {
      v      = 0;
      u32& p = play_pos[s];
      while (p < play.n[s] && play.d[s][p].index < idx)
        ++p;
      if (p < play.n[s] && play.d[s][p].index == idx)
        v = play.d[s][p].value;
      if (n && v >= n)
        v = v % n;
    }
    if (v && rec.n[s] < MAXDEC)
    {
      rec.d[s][rec.n[s]++] = {idx, v};
    }
    return v;
  }

  u32 choose(u32 n, int s)
  {
    if (n <= 1)
      return 0;
    return decide(s, n, replaying ? 0 : rng_stream[s].below(n));
  }

  u32 fault_choose(const char* kind, u32 pm, u32 n)
  {
    if (!faults_ok || fair_phase || (cur && (cur->nopreempt || cur->latest)))
      return 0;
    u32 v = 0;
    if (!replaying)
    {
      u32 p = pm * cfg.fault_scale / 100;
      if (p > 1000)
        p = 1000;
      if (rng_stream[DS_FAULT].permille(p))
        v = 1 + (n > 1 ? rng_stream[DS_FAULT].below(n) : 0);
    }
    v = decide(DS_FAULT, n + 1, v);
    if (v)
    {
      char nm[64];
      snprintf(nm, sizeof nm, "fault:%s", kind);
      count_cover(nm, 1);
      if (verbose)
        fprintf(stderr, "[%6lu] T%d FAULT %s=%u\n", (unsigned long) ev_seq, cur ? cur->id : -1, kind, v);
    }
    return v;
  }

  // -------------------------------------------------------------------------
  // memory regions & shadow
  constexpr u64 ARENA_BASE = 0x10000000000ull, ARENA_SIZE = 48ull << 20;
  constexpr u64 STACK_BASE = 0x20000000000ull, STACK_EACH = 512ull << 10;
  constexpr u64 STACKS_SIZE = STACK_EACH * MAXF;
  constexpr u64 HOST_BASE = 0x30000000000ull, HOST_SIZE = 512ull << 20;
  constexpr u64 URING_BASE = 0x40000000000ull, URING_SIZE = 1ull << 20;
  constexpr u64 SHADOW_ARENA = 0x50000000000ull, SHADOW_STACK = 0x51000000000ull, SHADOW_HOST = 0x52000000000ull,
                SHADOW_DATA = 0x53000000000ull, SHADOW_URING = 0x54000000000ull;

  struct Word
  {
    u64 cell[4];  // clock:32 | mask:8 | tid:8 | flags:8 (1 write, 2 atomic)
    u32 pc[4];
    u32 gen;
    u16 atomic;  // AtomicLoc index + 1
    u8  state;   // heap state
    u8  rr;
    u32 pad[2];
  };
  static_assert(sizeof(Word) == 64);
  enum : u8
  {
    HS_NONE   = 0,
    HS_LIVE   = 1,
    HS_FREED  = 2,
    HS_POISON = 3,
    HS_EXEMPT = 4
  };

  static inline Word* shadow_of(u64 a)
  {
    if (a - ARENA_BASE < ARENA_SIZE)
      return (Word*) (SHADOW_ARENA) + ((a - ARENA_BASE) >> 3);
    if (a - STACK_BASE < STACKS_SIZE)
      return (Word*) (SHADOW_STACK) + ((a - STACK_BASE) >> 3);
    if (a - (u64) data_lo < (u64) (data_hi - data_lo))
      return (Word*) (SHADOW_DATA) + ((a - (u64) data_lo) >> 3);
    if (a - HOST_BASE < HOST_SIZE)
      return (Word*) (SHADOW_HOST) + ((a - HOST_BASE) >> 3);
    if (a - URING_BASE < URING_SIZE)
      return (Word*) (SHADOW_URING) + ((a - URING_BASE) >> 3);
    return nullptr;
  }
  static inline void freshen(Word* w)
  {
    if (w->gen != gen)
    {
      memset(w, 0, sizeof *w);
      w->gen = gen;
    }
  }

  // -------------------------------------------------------------------------
  // atomics with store history
  constexpr int HIST = 8;
  struct Store
  {
    u64 val;
    u32 epoch;
    u8  tid;
    bool sc;
    bool init;
    u32 seen[MAXF];
    VC  rel;
  };
  struct AtomicLoc
  {
    u64   addr;
    u8    size;
    bool  used;
    int   n;      // stores in ring
    int   head;   // index of newest
    Store h[HIST];
  };
  constexpr int MAXLOC = 8192;
  static AtomicLoc* locs;
  static int        nlocs;
  static VC         sc_fence_clock;  // G
  static VC         sc_store_clock;  // epochs of seq_cst stores

  static inline u64 haddr(const volatile void* p)
  {
    return shadow_of((u64) p) ? (u64) p : 1;
  }
  static u64 load_mem(const volatile void* p, int size)
  {
    switch (size)
    {
    case 1: return *(const volatile u8*) p;
    case 2: return *(const volatile u16*) p;
    case 4: return *(const volatile u32*) p;
    default: return *(const volatile u64*) p;
    }
  }
  static void store_mem(volatile void* p, int size, u64 v)
  {
    switch (size)
    {
    case 1: *(volatile u8*) p = (u8) v; break;
    case 2: *(volatile u16*) p = (u16) v; break;
    case 4: *(volatile u32*) p = (u32) v; break;
    default: *(volatile u64*) p = v; break;
    }
  }

  // several atomics may share one 8-byte word (e.g. uint8_t + bool): they are chained by
  // keeping the location table keyed by exact address in a small open hash.
  constexpr int LH = 16384;
  static int*   lochash;  // loc index+1, generation-tagged
  static u32*   lochash_gen;
  static AtomicLoc* find_loc(u64 a, int size, bool create)
  {
    u32 h = (u32) ((a * 0x9e3779b97f4a7c15ull) >> 50) & (LH - 1);
    for (;;)
    {
      if (lochash_gen[h] != gen)
        break;
      int i = lochash[h] - 1;
      if (i >= 0 && locs[i].addr == a && locs[i].used)
        return &locs[i];
      h = (h + 1) & (LH - 1);
    }
    if (!create || nlocs >= MAXLOC)
      return nullptr;
    int        i = nlocs++;
    AtomicLoc* l = &locs[i];
    l->addr      = a;
    l->size      = (u8) size;
    l->used      = true;
    l->n         = 0;
    l->head      = 0;
    lochash[h]     = i + 1;
    lochash_gen[h] = gen;
    Word* w = shadow_of(a & ~7ull);
    if (w)
    {
      freshen(w);
      w->atomic = 1;
    }
    return l;
  }
  static void kill_locs_in_word(u64 a)
  {
    // a plain write covers this word: forget histories of atomics inside it
    for (u64 b = a; b < a + 8; ++b)
    {
      u32 h = (u32) ((b * 0x9e3779b97f4a7c15ull) >> 50) & (LH - 1);
      while (lochash_gen[h] == gen)
      {
        int i = lochash[h] - 1;
        if (i >= 0 && locs[i].addr == b)
          locs[i].n = 0;  // keep the slot, restart its history
        h = (h + 1) & (LH - 1);
      }
    }
  }

  static Store* newest(AtomicLoc* l)
  {
    return &l->h[l->head];
  }
  static Store* nth(AtomicLoc* l, int k)  // k=0 newest
  {
    return &l->h[(l->head - k + HIST * 2) % HIST];
  }
  static Store* push_store(AtomicLoc* l)
  {
    if (l->n == 0)
    {
      l->head = 0;
      l->n    = 1;
    }
    else
    {
      l->head = (l->head + 1) % HIST;
      if (l->n < HIST)
        l->n++;
    }
    Store* s = &l->h[l->head];
    memset(s->seen, 0, sizeof s->seen);
    s->sc = s->init = false;
    return s;
  }
  static u64 size_mask(int size)
  {
    return size >= 8 ? ~0ull : ((1ull << (size * 8)) - 1);
  }

  static AtomicLoc* get_loc(const volatile void* p, int size)
  {
    u64 a = (u64) p;
    if (!shadow_of(a))
      return nullptr;
    AtomicLoc* l = find_loc(a, size, true);
    if (!l)
      return nullptr;
    u64 v = load_mem(p, size);
    if (l->n == 0 || l->size != size || newest(l)->val != v)
    {
      l->size  = (u8) size;
      l->n     = 0;
      Store* s = push_store(l);
      s->val   = v;
      s->epoch = 0;
      s->tid   = 0;
      s->init  = true;
      s->rel.clear();
    }
    return l;
  }

  static inline bool is_acq(int mo)
  {
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
  }
  static inline bool is_rel(int mo)
  {
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  }
  static inline void tick(Fiber* f)
  {
    f->vc.c[f->id]++;
  }

  void release_to(VC& dst)
  {
    dst.join(cur->vc);
    tick(cur);
  }
  void acquire_from(VC const & src)
  {
    cur->vc.join(src);
  }

  static void do_acquire(Store* s, int mo)
  {
    if (is_acq(mo))
      cur->vc.join(s->rel);
    else
      cur->acq_pending.join(s->rel);
  }

  // how many of the newest stores may be read (>=1)
  static int readable(AtomicLoc* l, int mo)
  {
    if (cur->latest || fair_phase)
      return 1;
    int k = 0;
    for (; k < l->n; ++k)
    {
      Store* s = nth(l, k);
      if (s->init)
        return k + 1;
      if (s->epoch <= cur->vc.c[s->tid])
        return k + 1;  // this store happens-before the load
      bool seen = false;
      for (int t = 0; t < MAXF; ++t)
        if (s->seen[t] && s->seen[t] <= cur->vc.c[t])
          seen = true;
      if (seen)
        return k + 1;
      if (mo == __ATOMIC_SEQ_CST && (s->sc || s->epoch <= sc_fence_clock.c[s->tid]))
        return k + 1;
      if (s->sc && s->epoch <= cur->sc_view.c[s->tid])
        return k + 1;
    }
    return l->n;
  }

  static Store* pick_store(AtomicLoc* l, int mo)
  {
    int m = readable(l, mo);
    if (m > 1)
    {
      u32 v = 0;
      if (!replaying)
      {
        if (!(cur->stale_addr == (void*) l->addr && cur->stale_run >= 3)
            && rng_stream[DS_MEM].permille(cfg.stale_pm))
          v = 1 + rng_stream[DS_MEM].below((u32) m - 1);
      }
      v = decide(DS_MEM, (u32) m, v);
      if (v)
      {
        if (cur->stale_addr == (void*) l->addr)
          cur->stale_run++;
        else
        {
          cur->stale_addr = (void*) l->addr;
          cur->stale_run  = 1;
        }
        ++stale_loads;
        if (verbose)
          fprintf(stderr, "[%6lu] T%d stale load of %#lx (%u behind)\n", (unsigned long) ev_seq, cur->id,
                  (unsigned long) l->addr, v);
        return nth(l, (int) v);
      }
    }
    if (cur->stale_addr == (void*) l->addr)
      cur->stale_run = 0;
    return newest(l);
  }

  static void mark_seen(Store* s)
  {
    if (!s->seen[cur->id])
      s->seen[cur->id] = cur->vc.c[cur->id];
  }

  static void fill_store(Store* s, u64 v, int mo, VC const * prev_rel)
  {
    s->val   = v;
    s->tid   = (u8) cur->id;
    s->epoch = cur->vc.c[cur->id];
    s->sc    = mo == __ATOMIC_SEQ_CST;
    s->seen[cur->id] = s->epoch;
    if (is_rel(mo))
      s->rel = cur->vc;
    else
      s->rel = cur->rel_fence;
    if (prev_rel)
      s->rel.join(*prev_rel);
    if (s->sc)
    {
      if (sc_store_clock.c[cur->id] < s->epoch)
        sc_store_clock.c[cur->id] = s->epoch;
    }
    tick(cur);
  }

  static void do_fence(int mo)
  {
    if (is_acq(mo))
      cur->vc.join(cur->acq_pending);
    if (mo == __ATOMIC_SEQ_CST)
    {
      cur->vc.join(sc_fence_clock);
      sc_fence_clock.join(cur->vc);
      cur->sc_view.join(sc_store_clock);
    }
    if (is_rel(mo))
    {
      cur->rel_fence = cur->vc;
    }
    tick(cur);
  }

  enum
  {
    OP_LOAD = 1,
    OP_STORE,
    OP_RMW,
    OP_CAS,
    OP_FENCE,
    OP_LOCK,
    OP_UNLOCK,
    OP_COND,
    OP_THREAD,
    OP_CLOCK,
    OP_USER,
    OP_NOTIFY,
    OP_SYS,
    OP_YIELD
  };

  static u64 a_load(const volatile void* p, int size, int mo, void* pc)
  {
    if (!active || !cur)
      return load_mem(p, size);
    sched_point(OP_LOAD, p);
    on_access(p, (size_t) size, false, true, pc);
    AtomicLoc* l = get_loc(p, size);
    if (!l)
      return load_mem(p, size);
    Store* s = pick_store(l, mo);
    mark_seen(s);
    do_acquire(s, mo);
    if (verbose)
      fprintf(stderr, "[%6lu] T%d load%d %#lx -> %#lx mo%d pc=%p\n", (unsigned long) ev_seq, cur->id, size, (u64) p,
              s->val, mo, pc);
    log_event(OP_LOAD | (u64) cur->id << 8, haddr(p), s->tid);
    return s->val;
  }
  static void a_store(volatile void* p, int size, u64 v, int mo, void* pc)
  {
    v &= size_mask(size);
    if (!active || !cur)
    {
      store_mem(p, size, v);
      return;
    }
    sched_point(OP_STORE, p);
    on_access(p, (size_t) size, true, true, pc);
    AtomicLoc* l = get_loc(p, size);
    store_mem(p, size, v);
    if (l)
      fill_store(push_store(l), v, mo, nullptr);
    if (verbose)
      fprintf(stderr, "[%6lu] T%d store%d %#lx <- %#lx mo%d pc=%p\n", (unsigned long) ev_seq, cur->id, size, (u64) p, v,
              mo, pc);
    log_event(OP_STORE | (u64) cur->id << 8, haddr(p), 0);
  }
  enum RmwOp
  {
    R_XCHG,
    R_ADD,
    R_SUB,
    R_AND,
    R_OR,
    R_XOR,
    R_NAND
  };
  static u64 apply(RmwOp op, u64 o, u64 v)
  {
    switch (op)
    {
    case R_XCHG: return v;
    case R_ADD: return o + v;
    case R_SUB: return o - v;
    case R_AND: return o & v;
    case R_OR: return o | v;
    case R_XOR: return o ^ v;
    case R_NAND: return ~(o & v);
    }
    return 0;
  }
  static u64 a_rmw(volatile void* p, int size, RmwOp op, u64 v, int mo, void* pc)
  {
    if (!active || !cur)
    {
      u64 o = load_mem(p, size);
      store_mem(p, size, apply(op, o, v) & size_mask(size));
      return o;
    }
    sched_point(OP_RMW, p);
    on_access(p, (size_t) size, true, true, pc);
    u64        o = load_mem(p, size);
    AtomicLoc* l = get_loc(p, size);
    u64        nv = apply(op, o, v) & size_mask(size);
    store_mem(p, size, nv);
    if (l)
    {
      Store* s = newest(l);
      mark_seen(s);
      do_acquire(s, mo);
      VC rel = s->rel;
      fill_store(push_store(l), nv, mo, &rel);
    }
    if (verbose)
      fprintf(stderr, "[%6lu] T%d rmw%d op%d %#lx %#lx -> %#lx mo%d pc=%p\n", (unsigned long) ev_seq, cur->id, size,
              (int) op, (u64) p, o, nv, mo, pc);
    log_event(OP_RMW | (u64) cur->id << 8, haddr(p), o);
    return o;
  }
  // weak: may fail spuriously (clang lowers both to the same call, so spurious failure is
  // only injected through dsim_weak hints; see a_cas below)
  static bool a_cas(volatile void* p, int size, u64* expected, u64 v, int mo, int fmo, void* pc)
  {
    u64 exp = *expected & size_mask(size);
    v &= size_mask(size);
    if (!active || !cur)
    {
      u64 o = load_mem(p, size);
      if (o == exp)
      {
        store_mem(p, size, v);
        return true;
      }
      *expected = o;
      return false;
    }
    sched_point(OP_CAS, p);
    on_access(p, (size_t) size, true, true, pc);
    AtomicLoc* l = get_loc(p, size);
    u64        o = load_mem(p, size);
    if (o == exp)
    {
      // a failing compare-exchange is a load: it may observe an older value that differs
      if (l)
      {
        int m = readable(l, fmo);
        if (m > 1 && nth(l, 1)->val != exp)
        {
          u32 f = 0;
          if (!replaying && !(cur->stale_addr == p && cur->stale_run >= 3))
            f = rng_stream[DS_MEM].permille(cfg.stale_pm / 2) ? 1 : 0;
          f = decide(DS_MEM, 2, f);
          if (f)
          {
            cur->stale_run  = cur->stale_addr == p ? cur->stale_run + 1 : 1;
            cur->stale_addr = p;
            Store* s        = nth(l, 1);
            mark_seen(s);
            do_acquire(s, fmo);
            *expected = s->val;
            ++stale_loads;
            log_event(OP_CAS | (u64) cur->id << 8, haddr(p), 3);
            return false;
          }
        }
        Store* s = newest(l);
        mark_seen(s);
        do_acquire(s, mo);
        VC rel = s->rel;
        store_mem(p, size, v);
        fill_store(push_store(l), v, mo, &rel);
      }
      else
        store_mem(p, size, v);
      if (verbose)
        fprintf(stderr, "[%6lu] T%d cas%d %#lx %#lx -> %#lx ok mo%d pc=%p\n", (unsigned long) ev_seq, cur->id, size,
                (u64) p, o, v, mo, pc);
      log_event(OP_CAS | (u64) cur->id << 8, haddr(p), 1);
      return true;
    }
    if (l)
    {
      Store* s = nullptr;
      int    m = readable(l, fmo);
      if (m > 1)
      {
        s = pick_store(l, fmo);
        if (s->val == exp)
          s = newest(l);
      }
      else
        s = newest(l);
      mark_seen(s);
      do_acquire(s, fmo);
      o = s->val;
    }
    *expected = o;
    if (verbose)
      fprintf(stderr, "[%6lu] T%d cas%d %#lx fail saw %#lx (exp %#lx) pc=%p\n", (unsigned long) ev_seq, cur->id, size,
              (u64) p, o, exp, pc);
    log_event(OP_CAS | (u64) cur->id << 8, haddr(p), 2);
    return false;
  }

  void atomic_store_internal(volatile void* p, int size, u64 v, bool release)
  {
    a_store(p, size, v, release ? __ATOMIC_RELEASE : __ATOMIC_RELAXED, nullptr);
  }
  u64 atomic_load_internal(const volatile void* p, int size, bool acquire)
  {
    return a_load(p, size, acquire ? __ATOMIC_ACQUIRE : __ATOMIC_RELAXED, nullptr);
  }

  // -------------------------------------------------------------------------
  // plain accesses: liveness of memory + happens-before race detection
  static void* race_pc_prev;

  static void NOINL report_race(Word* w, int i, u64 a, size_t n, bool write, bool atomic, void* pc)
  {
    u64 c  = w->cell[i];
    int t  = (int) ((c >> 40) & 0xff);
    u8  fl = (u8) (c >> 48);
    fail("data-race",
         "%s%s of %zu bytes at %#lx by T%d (pc %p) is unordered with earlier %s%s by T%d (pc 0x%x)",
         atomic ? "atomic " : "", write ? "write" : "read", n, a, cur->id, pc, (fl & 2) ? "atomic " : "",
         (fl & 1) ? "write" : "read", t, w->pc[i]);
  }

  static inline void access_word(Word* w, u64 a, u8 mask, bool write, bool atomic, void* pc)
  {
    freshen(w);
    if (w->state == HS_EXEMPT)
      return;
    u32 myc   = cur->vc.c[cur->id];
    int slot  = -1;
    int empty = -1, repl = -1;
    u8  fl    = (u8) ((write ? 1 : 0) | (atomic ? 2 : 0));
    for (int i = 0; i < 4; ++i)
    {
      u64 c = w->cell[i];
      if (!c)
      {
        if (empty < 0)
          empty = i;
        continue;
      }
      u32 clk = (u32) c;
      u8  m   = (u8) (c >> 32);
      int t   = (int) ((c >> 40) & 0xff);
      u8  f   = (u8) (c >> 48);
      if (t == cur->id)
      {
        if (m == mask && f == fl)
          slot = i;
        else if ((m & ~mask) == 0 && (write || !(f & 1)) && (!atomic || (f & 2)))
          repl = i;
        continue;
      }
      bool ordered = clk <= cur->vc.c[t];
      if (!ordered && (m & mask) && ((f & 1) || write) && !((f & 2) && atomic))
        report_race(w, i, a, (size_t) __builtin_popcount(mask), write, atomic, pc);
      if (ordered && (m & ~mask) == 0 && (write || !(f & 1)))
        repl = i;
    }
    if (slot < 0)
      slot = repl >= 0 ? repl : empty;
    if (slot < 0)
    {
      slot  = w->rr & 3;
      w->rr = (u8) (w->rr + 1);
    }
    w->cell[slot] = (u64) myc | (u64) mask << 32 | (u64) cur->id << 40 | (u64) fl << 48;
    w->pc[slot]   = (u32) (u64) pc;
  }

  static void NOINL bad_memory(u64 a, size_t n, bool write, int st, void* pc)
  {
    const char* what = st == HS_FREED ? "freed" : st == HS_POISON ? "destroyed" : "unallocated";
    fail("use-after-free", "%s of %zu bytes at %#lx in %s memory by T%d (pc %p)", write ? "write" : "read", n, a, what,
         cur->id, pc);
  }

  void on_access(const volatile void* p, size_t n, bool write, bool atomic, void* pc)
  {
    if (!active || !cur || n == 0)
      return;
    if (++accesses > MAX_ACCESSES)
      fail("runaway", "more than %lu memory accesses in one run", MAX_ACCESSES);
    u64 a = (u64) p, e = a + n;
    // dead stack memory
    if (a - STACK_BASE < STACKS_SIZE)
    {
      int    k = (int) ((a - STACK_BASE) / STACK_EACH);
      Fiber* f = &fibers[k];
      if (f != cur)
      {
        if (f->state == F_FREE || f->state == F_DONE || a < (u64) f->sp)
          fail("use-after-free", "%s of %zu bytes at %#lx on the dead part of T%d's stack by T%d (pc %p)",
               write ? "write" : "read", n, a, k, cur->id, pc);
      }
      else if (a < (u64) __builtin_frame_address(0))
        fail("use-after-free", "%s of %zu bytes at %#lx below the live stack of T%d (pc %p)", write ? "write" : "read",
             n, a, cur->id, pc);
    }
    bool arena = a - ARENA_BASE < ARENA_SIZE;
    for (u64 wa = a & ~7ull; wa < e; wa += 8)
    {
      Word* w = shadow_of(wa);
      if (!w)
        continue;
      u64 lo   = a > wa ? a - wa : 0;
      u64 hi   = e < wa + 8 ? e - wa : 8;
      u8  mask = (u8) (((1u << hi) - 1) & ~((1u << lo) - 1));
      freshen(w);
      if (arena && w->state != HS_LIVE && w->state != HS_EXEMPT)
        bad_memory(a, n, write, w->state, pc);
      if (w->state == HS_POISON)
        bad_memory(a, n, write, w->state, pc);
      access_word(w, wa, mask, write, atomic, pc);
      if (write && !atomic && w->atomic)
        kill_locs_in_word(wa);
    }
  }

  static void clear_shadow(u64 a, u64 n, u8 state)
  {
    for (u64 wa = a & ~7ull; wa < a + n; wa += 8)
    {
      Word* w = shadow_of(wa);
      if (!w)
        return;
      if (w->gen == gen && w->atomic)
        kill_locs_in_word(wa);
      memset(w, 0, sizeof *w);
      w->gen   = gen;
      w->state = state;
    }
  }

  // -------------------------------------------------------------------------
  // per-run heap: bump allocated, never reused within a run
  static u64 arena_top;
  struct Block
  {
    u64  addr;
    u64  size;
    void* pc;
    bool live;
    bool counted;
  };
  constexpr int MAXBLK = 1 << 16;
  static Block* blks;
  static int    nblks;
  static long   live_blks;
  struct BHdr  // stored in the red zone in front of the block
  {
    u64 magic;
    u64 idx;
  };

  static void* arena_alloc(u64 n, u64 align, void* pc)
  {
    if (align < 16)
      align = 16;
    u64 p = (arena_top + 32 + align - 1) & ~(align - 1);
    u64 e = (p + (n ? n : 1) + 15) & ~15ull;
    if (e + 64 > ARENA_BASE + ARENA_SIZE || nblks >= MAXBLK)
      return nullptr;
    arena_top = e;
    BHdr* h   = (BHdr*) (p - 16);
    h->magic  = 0xd51d51d51d51ull;
    h->idx    = (u64) nblks;
    blks[nblks++] = {p, n, pc, true, true};
    ++live_blks;
    clear_shadow(p, n ? n : 1, HS_LIVE);
    memset((void*) p, 0xCB, n < 4096 ? n : 4096);
    return (void*) p;
  }
  static void arena_free(void* q, void* pc)
  {
    u64   p = (u64) q;
    BHdr* h = (BHdr*) (p - 16);
    if (h->magic != 0xd51d51d51d51ull || h->idx >= (u64) nblks || blks[h->idx].addr != p)
      fail("bad-free", "free of %#lx which is not the start of a block (pc %p)", p, pc);
    Block& b = blks[h->idx];
    if (!b.live)
      fail("double-free", "block %#lx (%lu bytes, allocated at pc %p) freed twice (pc %p)", p, b.size, b.pc, pc);
    b.live = false;
    if (b.counted)
      --live_blks;
    // freeing is a write to the whole block: unordered earlier accesses are races
    if (active && cur)
    {
      for (u64 wa = p; wa < p + b.size; wa += 8)
      {
        Word* w = shadow_of(wa);
        freshen(w);
        if (w->state == HS_LIVE)
          for (int i = 0; i < 4; ++i)
          {
            u64 c = w->cell[i];
            if (!c)
              continue;
            int t = (int) ((c >> 40) & 0xff);
            if (t != cur->id && (u32) c > cur->vc.c[t])
              fail("data-race",
                   "free of block %#lx (%lu bytes) by T%d (pc %p) is unordered with earlier %s%s at offset %lu by T%d "
                   "(pc 0x%x)",
                   p, b.size, cur->id, pc, ((c >> 48) & 2) ? "atomic " : "", ((c >> 48) & 1) ? "write" : "read", wa - p,
                   t, w->pc[i]);
          }
        if (w->atomic)
          kill_locs_in_word(wa);
        w->state = HS_FREED;
      }
    }
    memset(q, 0xDD, b.size < 4096 ? b.size : 4096);
  }

  // host heap (runtime, libraries, registration)
  static u64  host_top = 0;
  static void* host_fl[48];
  static bool host_ready;
  static void host_init()
  {
    if (host_ready)
      return;
    host_ready = true;
    fixed_mmap(HOST_BASE, HOST_SIZE);
    fixed_mmap(SHADOW_HOST, HOST_SIZE / 8 * sizeof(Word));
    host_top = HOST_BASE + 4096;
  }
  static int size_class(u64 n)  // power of two classes from 16
  {
    int c = 4;
    while ((1ull << c) < n)
      ++c;
    return c;
  }
  struct HHdr
  {
    u64 cls;
    u64 size;
  };
  static int host_lock;
  static void* host_alloc(u64 n, u64 align)
  {
    while (__atomic_exchange_n(&host_lock, 1, __ATOMIC_ACQUIRE))
      ;
    host_init();
    void* r;
    if (align <= 16)
    {
      int c = size_class(n ? n : 1);
      if (host_fl[c])
      {
        r          = host_fl[c];
        host_fl[c] = *(void**) r;
      }
      else
      {
        u64 p    = host_top + 16;
        host_top = p + (1ull << c);
        r        = (void*) p;
        ((HHdr*) (p - 16))->cls = (u64) c;
      }
    }
    else
    {
      u64 p    = (host_top + 16 + align - 1) & ~(align - 1);
      host_top = (p + n + 15) & ~15ull;
      r        = (void*) p;
      ((HHdr*) (p - 16))->cls = 0;
    }
    if (host_top > HOST_BASE + HOST_SIZE)
    {
      raw_syscall(SYS_write, 2, (long) "dsim: host heap exhausted\n", 26);
      raw_syscall(SYS_exit_group, 3);
    }
    ((HHdr*) ((u64) r - 16))->size = n;
    __atomic_store_n(&host_lock, 0, __ATOMIC_RELEASE);
    if (active && cur)
      clear_shadow((u64) r, n, HS_EXEMPT);
    return r;
  }
  static void host_free(void* p)
  {
    HHdr* h = (HHdr*) ((u64) p - 16);
    if (!h->cls)
      return;
    while (__atomic_exchange_n(&host_lock, 1, __ATOMIC_ACQUIRE))
      ;
    *(void**) p      = host_fl[h->cls];
    host_fl[h->cls]  = p;
    __atomic_store_n(&host_lock, 0, __ATOMIC_RELEASE);
  }
  static u64 usable(void* p)
  {
    u64 a = (u64) p;
    if (a - ARENA_BASE < ARENA_SIZE)
      return blks[((BHdr*) (a - 16))->idx].size;
    return ((HHdr*) (a - 16))->size;
  }
  static void any_free(void* p, void* pc)
  {
    if (!p)
      return;
    u64 a = (u64) p;
    if (a - ARENA_BASE < ARENA_SIZE)
    {
      if (active)
        arena_free(p, pc);
      return;
    }
    if (a - HOST_BASE < HOST_SIZE)
    {
      host_free(p);
      return;
    }
    // allocated by the dynamic loader before interposition: leak it
  }
  static void* any_alloc(u64 n, u64 align, void* pc)
  {
    if (active && cur && in_exe(pc))
      return arena_alloc(n, align, pc);
    return host_alloc(n, align);
  }

  // -------------------------------------------------------------------------
  // failure reporting
  struct Violation
  {
    bool hit;
    char cls[64];
    char msg[1024];
    char sig[512];
    u64  seed;
    int  scn;
    u64  hash;
    u64  step;
    int  nbt;
    void* bt[48];
  };
  static Violation viol;
  static bool      print_bt;

  struct BtArg
  {
    void** out;
    int    n, max;
  };
  static _Unwind_Reason_Code bt_cb(_Unwind_Context* c, void* a)
  {
    BtArg* b  = (BtArg*) a;
    void*  ip = (void*) _Unwind_GetIP(c);
    if (in_exe(ip) && b->n < b->max)
      b->out[b->n++] = ip;
    return b->n >= b->max ? _URC_END_OF_STACK : _URC_NO_REASON;
  }
  static int backtrace_here(void** out, int max)
  {
    BtArg b{out, 0, max};
    _Unwind_Backtrace(&bt_cb, &b);
    return b.n;
  }

  static void switch_to(Fiber* f);
  static void switch_host();

  static bool in_fail;
  void        vfail(const char* cls, const char* fmt, va_list ap)
  {
    if (!active || !cur || in_fail)
    {
      char buf[1100];
      int  n = snprintf(buf, sizeof buf, "dsim: failure outside a run: %s: ", cls);
      n += vsnprintf(buf + n, sizeof buf - (size_t) n, fmt, ap);
      raw_syscall(SYS_write, 2, (long) buf, n);
      raw_syscall(SYS_write, 2, (long) "\n", 1);
      raw_syscall(SYS_exit_group, 3);
    }
    in_fail   = true;
    cur->nopreempt++;
    viol.hit  = true;
    viol.hash = ev_hash;
    viol.step = steps;
    strncpy(viol.cls, cls, sizeof viol.cls - 1);
    vsnprintf(viol.msg, sizeof viol.msg, fmt, ap);
    viol.nbt = backtrace_here(viol.bt, 48);
    if (print_bt)
    {
      fprintf(stderr, "VIOLATION %s: %s\n  T%d:", viol.cls, viol.msg, cur->id);
      for (int i = 0; i < viol.nbt; ++i)
        fprintf(stderr, " %p", viol.bt[i]);
      fprintf(stderr, "\n");
      for (int k = 0; k < nfibers; ++k)
      {
        Fiber* f = &fibers[k];
        if (f == cur || f->state == F_DONE || f->state == F_FREE)
          continue;
        f->bt_request = true;
        f->ret        = cur;
        switch_to(f);
      }
    }
    switch_host();
    __builtin_unreachable();
  }
  void fail(const char* cls, const char* fmt, ...)
  {
    va_list ap;
    va_start(ap, fmt);
    vfail(cls, fmt, ap);
  }

  // -------------------------------------------------------------------------
  // context switching
  extern "C" void dsim_swap(void** save, void* to);
  __asm__(".text\n.globl dsim_swap\n.type dsim_swap,@function\n"
          "dsim_swap:\n"
          ".cfi_startproc\n"
          "push %rbp\n.cfi_adjust_cfa_offset 8\n.cfi_rel_offset %rbp,0\n"
          "push %rbx\n.cfi_adjust_cfa_offset 8\n.cfi_rel_offset %rbx,0\n"
          "push %r12\n.cfi_adjust_cfa_offset 8\n.cfi_rel_offset %r12,0\n"
          "push %r13\n.cfi_adjust_cfa_offset 8\n.cfi_rel_offset %r13,0\n"
          "push %r14\n.cfi_adjust_cfa_offset 8\n.cfi_rel_offset %r14,0\n"
          "push %r15\n.cfi_adjust_cfa_offset 8\n.cfi_rel_offset %r15,0\n"
          "sub $8,%rsp\n.cfi_adjust_cfa_offset 8\n"
          "stmxcsr (%rsp)\n"
          "fnstcw 4(%rsp)\n"
          "mov %rsp,(%rdi)\n"
          "mov %rsi,%rsp\n"
          "ldmxcsr (%rsp)\n"
          "fldcw 4(%rsp)\n"
          "add $8,%rsp\n.cfi_adjust_cfa_offset -8\n"
          "pop %r15\n.cfi_adjust_cfa_offset -8\n"
          "pop %r14\n.cfi_adjust_cfa_offset -8\n"
          "pop %r13\n.cfi_adjust_cfa_offset -8\n"
          "pop %r12\n.cfi_adjust_cfa_offset -8\n"
          "pop %rbx\n.cfi_adjust_cfa_offset -8\n"
          "pop %rbp\n.cfi_adjust_cfa_offset -8\n"
          "ret\n"
          ".cfi_endproc\n.size dsim_swap,.-dsim_swap\n");

  static inline void set_fs(void* fs)
  {
    if (use_fsgsbase)
      __asm__ volatile("wrfsbase %0" ::"r"(fs));
    else
      raw_syscall(SYS_arch_prctl, 0x1002, (long) fs);
  }

  static void resumed()
  {
    while (cur->bt_request)
    {
      cur->bt_request = false;
      void* bt[48];
      int   n = backtrace_here(bt, 48);
      fprintf(stderr, "  T%d (%s %d on %p):", cur->id, cur->state == F_BLOCK ? "blocked" : "runnable", (int) cur->bkind,
              (void*) cur->bobj);
      for (int i = 0; i < n; ++i)
        fprintf(stderr, " %p", bt[i]);
      fprintf(stderr, "\n");
      switch_to((Fiber*) cur->ret);
    }
  }
  static void switch_to(Fiber* f)
  {
    Fiber* from = cur;
    if (from == f)
      return;
    cur = f;
    set_fs(f->fs);
    dsim_swap(&from->sp, f->sp);
    resumed();
  }
  static void switch_host()
  {
    Fiber* from = cur;
    cur         = nullptr;
    set_fs(host_fs);
    void* dummy;
    dsim_swap(from ? &from->sp : &dummy, host_sp);
  }

  // -------------------------------------------------------------------------
  // TLS of parked OS threads, adopted by fibers
  struct TlsSeg
  {
    void* addr;
    u64   size;
    void* snap;
  };
  struct Park
  {
    void*  fs;
    TlsSeg seg[12];
    int    nseg;
    int    ready;
    int    tid;
  };
  static Park parks[MAXF];
  static int phdr_cb(dl_phdr_info* i, size_t, void* a)
  {
    Park* p = (Park*) a;
    if (!i->dlpi_tls_data)
      return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_TLS && p->nseg < 12)
        p->seg[p->nseg++] = {i->dlpi_tls_data, i->dlpi_phdr[k].p_memsz, nullptr};
    return 0;
  }
  static void* park_main(void* a)
  {
    Park* p = (Park*) a;
    p->fs   = __builtin_thread_pointer();
    dl_iterate_phdr(&phdr_cb, p);
    for (int i = 0; i < p->nseg; ++i)
    {
      p->seg[i].snap = host_mmap((p->seg[i].size + 4095) & ~4095ull);
      memcpy(p->seg[i].snap, p->seg[i].addr, p->seg[i].size);
    }
    sigset_t all;
    sigfillset(&all);
    raw_syscall(SYS_rt_sigprocmask, SIG_BLOCK, (long) &all, 0, 8);
    __atomic_store_n(&p->ready, 1, __ATOMIC_RELEASE);
    raw_syscall(SYS_futex, (long) &p->ready, 1, 1, 0);
    int never = 0;
    for (;;)
      raw_syscall(SYS_futex, (long) &never, 0, 0, 0);
  }
  typedef int (*pthread_create_t)(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*);
  static void make_parks()
  {
    auto real = (pthread_create_t) dlsym(RTLD_NEXT, "pthread_create");
    for (int i = 0; i < MAXF; ++i)
    {
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstacksize(&at, 64 << 10);
      pthread_t t;
      if (real(&t, &at, &park_main, &parks[i]))
      {
        fprintf(stderr, "dsim: cannot create parked threads\n");
        _exit(3);
      }
      while (!__atomic_load_n(&parks[i].ready, __ATOMIC_ACQUIRE))
        raw_syscall(SYS_futex, (long) &parks[i].ready, 0, 0, 0);
    }
  }

  // -------------------------------------------------------------------------
  // fibers
  static void fiber_finish();
  static void fiber_entry()
  {
    resumed();
    Fiber* f = cur;
    f->ret   = f->start(f->arg);
    fiber_finish();
  }
  static void run_tls_dtors()
  {
    while (cur->ndtors)
    {
      TlsDtor d = cur->dtors[--cur->ndtors];
      d.fn(d.arg);
    }
  }
  static Fiber* make_fiber(void* (*fn)(void*), void* arg)
  {
    if (nfibers >= MAXF)
      return nullptr;
    Fiber* f = &fibers[nfibers];
    int    id = nfibers++;
    memset(f, 0, sizeof *f);
    f->id    = id;
    f->state = F_RUN;
    f->start = fn;
    f->arg   = arg;
    f->fs    = parks[id].fs;
    for (int i = 0; i < parks[id].nseg; ++i)
      memcpy(parks[id].seg[i].addr, parks[id].seg[i].snap, parks[id].seg[i].size);
    f->stk_lo = (char*) (STACK_BASE + STACK_EACH * (u64) id + 4096);
    f->stk_hi = (char*) (STACK_BASE + STACK_EACH * (u64) (id + 1));
    u64* sp   = (u64*) (f->stk_hi - 64);
    *--sp     = 0;                    // fake return address of entry
    *--sp     = (u64) &fiber_entry;   // ret target
    for (int i = 0; i < 6; ++i)
      *--sp = 0;
    --sp;
    ((u32*) sp)[0] = 0x1f80;
    ((u32*) sp)[1] = 0x037f;
    f->sp          = sp;
    f->vc.c[id]    = 1;
    f->prio        = replaying ? 0 : 1000 + rng_cfg.below(1000000);
    return f;
  }

  static int runnable_list(Fiber** out, Fiber* first)
  {
    int n    = 0;
    int base = first ? first->id : 0;
    for (int k = 0; k < nfibers; ++k)
    {
      Fiber* f = &fibers[(base + k) % nfibers];
      if (f->state == F_RUN)
        out[n++] = f;
      else if (f->state == F_BLOCK && f->deadline && f->deadline <= vnow)
        out[n++] = f;
    }
    return n;
  }

  static u64 next_deadline()
  {
    u64 d = 0;
    for (int k = 0; k < nfibers; ++k)
    {
      Fiber* f = &fibers[k];
      if (f->state == F_BLOCK && f->deadline && (!d || f->deadline < d))
        d = f->deadline;
    }
    u64 u = uring_next_deadline();
    if (u && (!d || u < d))
      d = u;
    return d;
  }

  static const char* bname(BKind k)
  {
    switch (k)
    {
    case B_MUTEX: return "mutex";
    case B_COND: return "condition variable";
    case B_JOIN: return "thread join";
    case B_ATOMIC: return "atomic wait";
    case B_FUTEX: return "futex";
    case B_SLEEP: return "sleep";
    case B_GUARD: return "static-init guard";
    case B_URING: return "io_uring";
    case B_SEM: return "semaphore";
    default: return "?";
    }
  }

  static void take(Fiber* f)
  {
    // f was chosen to run
    if (f->state == F_BLOCK)
    {
      f->timed_out = true;
      f->state     = F_RUN;
      f->deadline  = 0;
    }
  }

  // chooses who runs next. yielding: prefer others. must_switch: cur cannot continue
  static Fiber* pick(Fiber* me, bool yielding, bool me_ok)
  {
    Fiber* list[MAXF];
    int    n;
    for (;;)
    {
      uring_poll_time();
      Fiber* first = me_ok && !yielding ? me : &fibers[((me ? me->id : 0) + 1) % nfibers];
      n            = runnable_list(list, first);
      if (n)
        break;
      u64 d = next_deadline();
      if (!d)
        return nullptr;
      vnow = d > vnow ? d : vnow;
    }
    if (n > 1 && any_stall && !fair_phase)
    {
      // stalled threads do not run while any other thread can
      int m = 0;
      for (int i = 0; i < n; ++i)
        if (list[i]->stall_until <= steps)
          list[m++] = list[i];
      if (m)
      {
        n = m;
        if (me && me->stall_until > steps)
          me_ok = false;
      }
    }
    if (n == 1)
      return list[0];
    u32 v = 0;
    if (fair_phase)
    {
      // deterministic round robin with a small quantum
      bool expired = me && me_ok && me->quantum >= 16;
      if (me_ok && !yielding && !expired)
        v = 0;
      else
        v = (list[0] == me) ? 1 : 0;
      return list[v];
    }
    bool expired = me && me_ok && me->quantum >= 200;
    if (expired && !yielding)
    {
      // default (choice 0) must be fair: rotate
      Fiber* t = list[0];
      for (int i = 0; i + 1 < n; ++i)
        list[i] = list[i + 1];
      list[n - 1] = t;
    }
    if (!replaying)
    {
      Rng& r = rng_stream[DS_SCHED];
      switch (cfg.strategy)
      {
      case 1:  // PCT
      {
        for (u32 i = 0; i < cfg.npct; ++i)
          if (me && steps == cfg.pct_at[i])
            me->prio = --pct_low;
        if (me && (yielding || expired))
          me->prio = --pct_low;
        u32 best = 0;
        for (int i = 1; i < n; ++i)
          if (list[i]->prio > list[best]->prio)
            best = (u32) i;
        v = best;
        break;
      }
      default:
        if (me_ok && !yielding && !expired)
        {
          if (r.permille(cfg.preempt_pm))
            v = 1 + r.below((u32) n - 1);
        }
        else
          v = r.below((u32) n);
        break;
      }
    }
    v = decide(DS_SCHED, (u32) n, v);
    return list[v];
  }

  static void NOINL deadlock()
  {
    char   buf[900];
    size_t o = 0;
    buf[0]   = 0;
    for (int k = 0; k < nfibers; ++k)
      if (fibers[k].state == F_BLOCK)
        o += (size_t) snprintf(buf + o, sizeof buf - o, " T%d(%s)", k, bname(fibers[k].bkind));
    fail("deadlock", "no simulated thread can ever run again; blocked:%s", buf);
  }

  static void schedule_away(bool yielding, bool me_ok)
  {
    Fiber* me = cur;
    Fiber* f  = pick(me, yielding, me_ok);
    if (!f)
      deadlock();
    take(f);
    if (f != me)
    {
      me->quantum = 0;
      f->quantum  = 0;
      ++switches;
      log_event(0x5357, (u64) f->id, 0);
      if (verbose)
        fprintf(stderr, "[%6lu] switch T%d -> T%d\n", (unsigned long) ev_seq, me->id, f->id);
      switch_to(f);
    }
  }

  static void step_limits()
  {
    ++steps;
    cur->steps++;
    vnow += 20;
    if (steps > MAX_STEPS && !fair_phase)
    {
      fair_phase = true;
      count_cover("tail:fair_phase_entered", 1);
    }
    if (steps > MAX_STEPS + FAIR_STEPS)
      fail("no-progress", "run did not finish within %lu fault-free fairly scheduled steps", FAIR_STEPS);
  }

  void sched_point(int kind, const volatile void* obj)
  {
    (void) kind;
    (void) obj;
    if (!active || !cur)
      return;
    if (cur->nopreempt)
      return;
    step_limits();
    cur->quantum++;
    if (cfg.time_pm && scn_time_pm && !fair_phase)
    {
      u32 v = 0;
      if (!replaying && rng_stream[DS_FAULT].permille(cfg.time_pm * scn_time_pm / 1000))
        v = 1 + rng_stream[DS_FAULT].below(4);
      v = decide(DS_FAULT, 5, v);
      if (v)
      {
        u64 d = next_deadline();
        u64 j = v == 1 ? 1000 : v == 2 ? 1000000 : v == 3 ? 50000000 : 0;
        if (v == 4)
          j = d > vnow ? d - vnow : 3000000000ull;
        vnow += j;
        count_cover("fault:clock-jump", 1);
        if (verbose)
          fprintf(stderr, "[%6lu] clock jumps by %lu ns\n", (unsigned long) ev_seq, j);
      }
    }
    if (cfg.stall_pm)
    {
      static const u32 how_long[] = {0, 20, 100, 400};
      if (u32 v = fault_choose("thread-stall", cfg.stall_pm, 3))
      {
        cur->stall_until = steps + how_long[v];
        any_stall        = true;
        if (verbose)
          fprintf(stderr, "[%6lu] T%d is stalled for %u steps\n", (unsigned long) ev_seq, cur->id, how_long[v]);
      }
    }
    schedule_away(false, true);
  }
  void yield_point()
  {
    if (!active || !cur || cur->nopreempt)
      return;
    step_limits();
    schedule_away(true, true);
  }
  bool block(BKind k, const volatile void* obj, u64 deadline)
  {
    Fiber* me     = cur;
    me->state     = F_BLOCK;
    me->bkind     = k;
    me->bobj      = obj;
    me->deadline  = deadline;
    me->timed_out = false;
    step_limits();
    schedule_away(false, false);
    me->bkind = B_NONE;
    bool t    = me->timed_out;
    me->timed_out = false;
    return !t;
  }
  void wake(Fiber* f)
  {
    f->state     = F_RUN;
    f->deadline  = 0;
    f->timed_out = false;
  }
  int wake_obj(BKind k, const volatile void* obj, int n)
  {
    Fiber* w[MAXF];
    int    c = 0, woken = 0;
    for (int i = 0; i < nfibers; ++i)
      if (fibers[i].state == F_BLOCK && fibers[i].bkind == k && fibers[i].bobj == obj)
        w[c++] = &fibers[i];
    while (c && n != 0)
    {
      u32 i = n < 0 ? 0 : choose((u32) c, DS_SCHED);
      wake(w[i]);
      for (int j = (int) i; j + 1 < c; ++j)
        w[j] = w[j + 1];
      --c;
      if (n > 0)
        --n;
      ++woken;
    }
    return woken;
  }

  static void fiber_finish()
  {
    run_tls_dtors();
    Fiber* me = cur;
    sched_point(OP_THREAD, me);
    me->state = F_DONE;
    for (int i = 0; i < nfibers; ++i)
      if (fibers[i].state == F_BLOCK && fibers[i].bkind == B_JOIN && fibers[i].bobj == me)
        wake(&fibers[i]);
    bool all = true;
    for (int i = 0; i < nfibers; ++i)
      if (fibers[i].state != F_DONE)
        all = false;
    log_event(0x444f4e45, (u64) me->id, 0);
    if (all)
    {
      switch_host();
      __builtin_unreachable();
    }
    Fiber* f = pick(me, true, false);
    if (!f)
      deadlock();
    take(f);
    f->quantum = 0;
    switch_to(f);
    __builtin_unreachable();
  }

  // -------------------------------------------------------------------------
  // emulated process exit
  struct ExitFn
  {
    void (*fn)(void*);
    void* arg;
  };
  static ExitFn exitfns[128];
  static int    nexitfns;

  static int    cur_scn;
  static void*  scn_main(void*)
  {
    scenarios[cur_scn].fn();
    while (nexitfns)
    {
      ExitFn e = exitfns[--nexitfns];
      e.fn(e.arg);
    }
    return nullptr;
  }

  // mutex records (state lives in the pthread_mutex_t itself so it resets with the object)
  struct MutexRep
  {
    u32 owner;  // fid+1
    u32 vcidx;  // index+1 into mvc, tagged by gen
    u32 gen;
    u32 count;
    u32 kind;
  };
  static VC* mvc;
  static int nmvc;
  constexpr int MAXMVC = 4096;
  static VC  dummy_vc;

  struct RunResult
  {
    u64 hash;
    u64 steps, vtime, switches, accesses, stale;
    int fibers;
  };

  static void setup_cfg(u64 seed)
  {
    rng_cfg.seed(seed * 0x2545F4914F6CDD1Dull + 77);
    for (int s = 0; s < DS_NSTREAMS; ++s)
      rng_stream[s].seed(seed * 0x9E3779B97F4A7C15ull + (u64) s * 0x1234567ull + 1);
    memset(&cfg, 0, sizeof cfg);
    static const u32 pp[] = {30, 80, 150, 300, 500};
    static const u32 st[] = {0, 0, 100, 300, 500};
    static const u32 fs[] = {0, 50, 100, 100, 200};
    static const u32 tm[] = {0, 0, 200, 1000, 3000};
    u32              k    = rng_cfg.below(10);
    cfg.strategy          = k < 6 ? 0 : 1;
    cfg.preempt_pm        = pp[rng_cfg.below(5)];
    cfg.stale_pm          = st[rng_cfg.below(5)];
    cfg.fault_scale       = fs[rng_cfg.below(5)];
    cfg.time_pm           = tm[rng_cfg.below(5)];
    static const u32 al[] = {0, 0, 20, 100, 300};
    cfg.alloc_pm          = al[rng_cfg.below(5)];
    cfg.spurious_pm       = rng_cfg.below(3) == 0 ? 1000 : 0;
    static const u32 len[] = {40, 150, 400, 1500};
    u32              L    = len[rng_cfg.below(4)];
    static const u32 sl[] = {0, 0, 5, 20};
    cfg.stall_pm          = sl[rng_cfg.below(4)];
    cfg.npct              = rng_cfg.below(6);
    for (u32 i = 0; i < cfg.npct && i < 8; ++i)
      cfg.pct_at[i] = 1 + rng_cfg.below(L);
    faults_ok = cfg.fault_scale != 0;
  }

  static RunResult run_once(u64 seed, int scn, bool replay)
  {
    replaying = replay;
    setup_cfg(seed);
    // reset everything
    memcpy(data_lo, data_snapshot, (size_t) (data_hi - data_lo));
    ++gen;
    if (gen == 0)
      gen = 1;
    nfibers = 0;
    vnow    = 1000000;
    steps = accesses = ev_seq = clock_reads = switches = stale_loads = 0;
    ev_hash    = 0x1234;
    arena_top  = ARENA_BASE + 4096;
    nblks      = 0;
    live_blks  = 0;
    nlocs      = 0;
    nmvc       = 0;
    nexitfns   = 0;
    fair_phase = false;
    any_stall  = false;
    expect_leak = false;
    in_fail    = false;
    pct_low    = 900;
    scn_alloc_pm = scn_time_pm = 0;
    scn_spurious_pm = 60;
    sc_fence_clock.clear();
    sc_store_clock.clear();
    memset(&viol, 0, sizeof viol);
    for (int s = 0; s < DS_NSTREAMS; ++s)
      dec_index[s] = play_pos[s] = rec.n[s] = 0;
    uring_reset();
    cur_scn  = scn;
    for (int i = 0; i < MAXF; ++i)
      fibers[i].state = F_FREE;
    Fiber* f = make_fiber(&scn_main, nullptr);
    active   = true;
    host_fs  = __builtin_thread_pointer();
    cur      = f;
    set_fs(f->fs);
    dsim_swap(&host_sp, f->sp);
    // back on the host
    active = false;
    cur    = nullptr;
    if (!viol.hit && live_blks > 0 && !expect_leak)
    {
      viol.hit = true;
      strcpy(viol.cls, "leak");
      int n = 0;
      for (int i = 0; i < nblks; ++i)
        if (blks[i].live)
        {
          if (n == 0)
            snprintf(viol.msg, sizeof viol.msg, "%ld blocks leaked; first: %lu bytes allocated at pc %p", live_blks,
                     blks[i].size, blks[i].pc);
          if (n < 40)
            viol.bt[n++] = blks[i].pc;
        }
      viol.nbt  = n;
      viol.hash = ev_hash;
      viol.step = steps;
      if (print_bt)
        fprintf(stderr, "VIOLATION leak: %s\n", viol.msg);
    }
    if (viol.hit)
    {
      viol.seed = seed;
      viol.scn  = scn;
    }
    RunResult r;
    r.hash     = ev_hash;
    r.steps    = steps;
    r.vtime    = vnow - 1000000;
    r.switches = switches;
    r.accesses = accesses;
    r.stale    = stale_loads;
    r.fibers   = nfibers;
    return r;
  }

  // -------------------------------------------------------------------------
  static void on_signal(int sig, siginfo_t* si, void* uc)
  {
    if (sig == SIGPROF)
    {
      static u64 last_seq, last_gen;
      if (active && last_gen == gen && last_seq == ev_seq + accesses)
      {
        const char m[] = "dsim: run stuck without reaching the simulator (watchdog)\n";
        if (getenv("DSIM_DEBUG"))
        {
          raw_syscall(SYS_write, 2, (long) m, sizeof m - 1);
          fprintf(stderr, "pc %p cur %d sp %p steps %lu\n", (void*) ((ucontext_t*) uc)->uc_mcontext.gregs[REG_RIP],
                  cur ? cur->id : -1, (void*) ((ucontext_t*) uc)->uc_mcontext.gregs[REG_RSP], steps);
        }
        if (!cur)
          raw_syscall(SYS_exit_group, 3);
      }
      else
      {
        last_gen = gen;
        last_seq = ev_seq + accesses;
        return;
      }
    }
    if (active && cur && !in_fail)
    {
      ucontext_t* u  = (ucontext_t*) uc;
      void*       pc = (void*) u->uc_mcontext.gregs[REG_RIP];
      sigset_t    s;
      sigemptyset(&s);
      raw_syscall(SYS_rt_sigprocmask, SIG_SETMASK, (long) &s, 0, 8);
      if (sig == SIGPROF)
        fail("stuck", "endless loop that never reaches a synchronisation or memory hook (pc %p)", pc);
      fail("crash", "signal %d at address %p (pc %p)", sig, si->si_addr, pc);
    }
    const char m[] = "dsim: crash outside a run\n";
    raw_syscall(SYS_write, 2, (long) m, sizeof m - 1);
    raw_syscall(SYS_exit_group, 3);
  }

  static void init_memory()
  {
    fixed_mmap(ARENA_BASE, ARENA_SIZE);
    fixed_mmap(STACK_BASE, STACKS_SIZE);
    for (int i = 0; i < MAXF; ++i)
      mprotect((void*) (STACK_BASE + STACK_EACH * (u64) i), 4096, PROT_NONE);
    fixed_mmap(SHADOW_ARENA, ARENA_SIZE / 8 * sizeof(Word));
    fixed_mmap(SHADOW_STACK, STACKS_SIZE / 8 * sizeof(Word));
    fixed_mmap(SHADOW_URING, URING_SIZE / 8 * sizeof(Word));
    fixed_mmap(URING_BASE, URING_SIZE);
    fixed_mmap(SHADOW_DATA, ((u64) (data_hi - data_lo) / 8 + 2) * sizeof(Word));
    blks        = (Block*) host_mmap(sizeof(Block) * MAXBLK);
    locs        = (AtomicLoc*) host_mmap(sizeof(AtomicLoc) * MAXLOC);
    lochash     = (int*) host_mmap(sizeof(int) * LH);
    lochash_gen = (u32*) host_mmap(sizeof(u32) * LH);
    mvc         = (VC*) host_mmap(sizeof(VC) * MAXMVC);
    for (int s = 0; s < DS_NSTREAMS; ++s)
    {
      rec.d[s]  = (Decision*) host_mmap(sizeof(Decision) * MAXDEC);
      play.d[s] = (Decision*) host_mmap(sizeof(Decision) * MAXDEC);
    }
    data_snapshot = (char*) host_mmap(((size_t) (data_hi - data_lo) + 4096) & ~4095ul);
    memcpy(data_snapshot, data_lo, (size_t) (data_hi - data_lo));
  }
}  // namespace dsim

using namespace dsim;

#include "dsim_hooks.inc"
#include "dsim_driver.inc"
