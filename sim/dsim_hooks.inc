// Interposed entry points: TSan ABI, pthreads, clocks, allocation, C++ runtime.

#define EXPORT extern "C" __attribute__((visibility("default")))

// --- TSan ABI ---------------------------------------------------------------
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
#define RW(N)                                                                                                       \
  EXPORT void __tsan_read##N(void* p) { on_access(p, N, false, false, RA()); }                                      \
  EXPORT void __tsan_write##N(void* p) { on_access(p, N, true, false, RA()); }                                      \
  EXPORT void __tsan_read_write##N(void* p) { on_access(p, N, true, false, RA()); }                                 \
  EXPORT void __tsan_unaligned_read##N(void* p) { on_access(p, N, false, false, RA()); }                            \
  EXPORT void __tsan_unaligned_write##N(void* p) { on_access(p, N, true, false, RA()); }                            \
  EXPORT void __tsan_unaligned_read_write##N(void* p) { on_access(p, N, true, false, RA()); }                       \
  EXPORT void __tsan_volatile_read##N(void* p) { on_access(p, N, false, false, RA()); }                             \
  EXPORT void __tsan_volatile_write##N(void* p) { on_access(p, N, true, false, RA()); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { on_access(p, n, false, false, RA()); }
EXPORT void __tsan_write_range(void* p, size_t n) { on_access(p, n, true, false, RA()); }
EXPORT void __tsan_vptr_update(void** p, void* v)
{
  if (*p != v)
    on_access(p, 8, true, false, RA());
}
EXPORT void __tsan_vptr_read(void** p) { on_access(p, 8, false, false, RA()); }
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n)
{
  on_access(s, n, false, false, RA());
  on_access(d, n, true, false, RA());
  return memcpy(d, s, n);
}
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n)
{
  on_access(s, n, false, false, RA());
  on_access(d, n, true, false, RA());
  return memmove(d, s, n);
}
EXPORT void* __tsan_memset(void* d, int c, size_t n)
{
  on_access(d, n, true, false, RA());
  return memset(d, c, n);
}
#define ATOM(T, N, B)                                                                                               \
  EXPORT T __tsan_atomic##N##_load(const volatile T* p, int mo) { return (T) a_load(p, B, mo, RA()); }              \
  EXPORT void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { a_store(p, B, (u64) v, mo, RA()); }            \
  EXPORT T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return (T) a_rmw(p, B, R_XCHG, (u64) v, mo, RA()); } \
  EXPORT T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return (T) a_rmw(p, B, R_ADD, (u64) v, mo, RA()); } \
  EXPORT T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return (T) a_rmw(p, B, R_SUB, (u64) v, mo, RA()); } \
  EXPORT T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return (T) a_rmw(p, B, R_AND, (u64) v, mo, RA()); } \
  EXPORT T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return (T) a_rmw(p, B, R_OR, (u64) v, mo, RA()); }   \
  EXPORT T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return (T) a_rmw(p, B, R_XOR, (u64) v, mo, RA()); } \
  EXPORT T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return (T) a_rmw(p, B, R_NAND, (u64) v, mo, RA()); } \
  EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo)                  \
  {                                                                                                                 \
    u64  x  = (u64) *e;                                                                                             \
    bool ok = a_cas(p, B, &x, (u64) v, mo, fmo, RA());                                                              \
    if (!ok)                                                                                                        \
      *e = (T) x;                                                                                                   \
    return ok;                                                                                                      \
  }                                                                                                                 \
  EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo)                    \
  {                                                                                                                 \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo);                                            \
  }                                                                                                                 \
  EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo)                        \
  {                                                                                                                 \
    u64 x = (u64) e & size_mask(B);                                                                                 \
    a_cas(p, B, &x, (u64) v, mo, fmo, RA());                                                                        \
    return (T) x;                                                                                                   \
  }
ATOM(u8, 8, 1)
ATOM(u16, 16, 2)
ATOM(u32, 32, 4)
ATOM(u64, 64, 8)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
  if (!active || !cur)
    return;
  sched_point(OP_FENCE, nullptr);
  do_fence(mo);
  log_event(OP_FENCE | (u64) cur->id << 8, (u64) mo, 0);
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// --- harness API --------------------------------------------------------------
EXPORT unsigned dsim_choose(unsigned n) noexcept { return choose(n, DS_WORK); }
EXPORT int      dsim_fault(const char* k, unsigned pm) noexcept { return (int) fault_choose(k, pm, 1); }
EXPORT unsigned dsim_fault_n(const char* k, unsigned pm, unsigned n) noexcept { return fault_choose(k, pm, n); }
EXPORT void     dsim_fault_note(const char* k) noexcept
{
  char nm[64];
  snprintf(nm, sizeof nm, "fault:%s", k);
  count_cover(nm, 1);
}
EXPORT void dsim_fail(const char* cls, const char* fmt, ...) noexcept
{
  va_list ap;
  va_start(ap, fmt);
  vfail(cls, fmt, ap);
}
EXPORT void dsim_point() noexcept { sched_point(OP_USER, nullptr); }
EXPORT void dsim_cover(const char* n) noexcept
{
  char nm[64];
  snprintf(nm, sizeof nm, "probe:%s", n);
  count_cover(nm, 1);
}
EXPORT void dsim_event(const char* w, long a, long b) noexcept
{
  u64 h = 0;
  for (const char* p = w; *p; ++p)
    h = h * 131 + (u8) *p;
  log_event(h ^ ((u64) (cur ? cur->id : 99) << 56), (u64) a, (u64) b);
  if (verbose)
    fprintf(stderr, "[%6lu] T%d event %s %ld %ld\n", (unsigned long) ev_seq, cur ? cur->id : -1, w, a, b);
}
EXPORT uint64_t dsim_now() noexcept { return vnow; }
EXPORT uint64_t dsim_seq() noexcept { return ++ev_seq; }
EXPORT uint64_t dsim_steps() noexcept { return steps; }
EXPORT int      dsim_tid() noexcept { return cur ? cur->id : -1; }
EXPORT int      dsim_live_threads() noexcept
{
  int n = 0;
  for (int i = 0; i < nfibers; ++i)
    if (fibers[i].state != F_DONE)
      ++n;
  return n;
}
EXPORT void dsim_alloc_faults(int pm) noexcept { scn_alloc_pm = (u32) pm; }
EXPORT int dsim_alloc_faults_thread(int on) noexcept
{
  int was         = !cur->alloc_mask;
  cur->alloc_mask = !on;
  return was;
}
EXPORT long dsim_live_allocs() noexcept { return live_blks; }
EXPORT void dsim_time_faults(int pm) noexcept { scn_time_pm = (u32) pm; }
EXPORT void dsim_spurious(int pm) noexcept { scn_spurious_pm = (u32) pm; }
EXPORT void dsim_poison(const void* p, size_t n) noexcept
{
  if (!active || !cur)
    return;
  u64 a = (u64) p;
  // destroying is a write: unordered earlier accesses are races
  on_access(p, n, true, false, RA());
  for (u64 wa = (a + 7) & ~7ull; wa + 8 <= a + n; wa += 8)
    if (Word* w = shadow_of(wa))
    {
      freshen(w);
      if (w->atomic)
        kill_locs_in_word(wa);
      w->state = HS_POISON;
    }
}
EXPORT void dsim_unpoison(const void* p, size_t n) noexcept
{
  if (!active || !cur)
    return;
  u64 a = (u64) p;
  for (u64 wa = (a + 7) & ~7ull; wa + 8 <= a + n; wa += 8)
    if (Word* w = shadow_of(wa))
    {
      freshen(w);
      w->state = (a - ARENA_BASE < ARENA_SIZE) ? HS_LIVE : HS_NONE;
    }
}
static unsigned hw_threads = 4;
EXPORT void     dsim_hw_threads(unsigned n) noexcept { hw_threads = n; }
EXPORT void     dsim_quiet_begin() noexcept
{
  if (cur)
  {
    cur->nopreempt++;
    cur->latest = true;
  }
}
EXPORT void dsim_quiet_end() noexcept
{
  if (cur)
  {
    if (--cur->nopreempt == 0)
      cur->latest = false;
  }
}
EXPORT int  dsim_faults_on() noexcept { return faults_ok && !fair_phase; }
EXPORT void dsim_expect_leak(int on) noexcept { expect_leak = on; }
EXPORT void dsim_register(const char* name, dsim_scn_fn fn, int weight) noexcept
{
  scenarios[nscenarios++] = {name, fn, weight};
}

// --- atomic wait / notify ------------------------------------------------------
EXPORT void dsim_await_begin(const volatile void*) noexcept
{
  if (!active || !cur)
    return;
  cur->nopreempt++;
  cur->latest = true;
}
EXPORT void dsim_await_abandon() noexcept
{
  if (!active || !cur)
    return;
  if (--cur->nopreempt == 0)
    cur->latest = false;
}
static bool spurious()
{
  if (!scn_spurious_pm || !cfg.spurious_pm)
    return false;
  return fault_choose("spurious-wakeup", scn_spurious_pm, 1) != 0;
}
EXPORT void dsim_await_block(const volatile void* addr) noexcept
{
  if (!active || !cur)
    return;
  dsim_await_abandon();
  if (spurious())
  {
    yield_point();
    return;
  }
  log_event(OP_COND | (u64) cur->id << 8, haddr(addr), 7);
  block(B_ATOMIC, addr, 0);
}
EXPORT void dsim_notify(const volatile void* addr, int all) noexcept
{
  if (!active || !cur)
    return;
  sched_point(OP_NOTIFY, addr);
  // notifying an atomic object whose storage is gone is an access to a dead object
  if (u64 a = (u64) addr; a - ARENA_BASE < ARENA_SIZE || a - STACK_BASE < STACKS_SIZE)
    on_access(addr, 1, false, true, RA());
  log_event(OP_NOTIFY | (u64) cur->id << 8, haddr(addr), 0);
  wake_obj(B_ATOMIC, addr, all ? -1 : 1);
}
EXPORT void dsim_latch_set(volatile int* p) noexcept
{
  a_store(p, 4, 1, __ATOMIC_RELEASE, RA());
  wake_obj(B_ATOMIC, p, -1);
}
EXPORT int dsim_latch_ready(const volatile int* p) noexcept { return (int) a_load(p, 4, __ATOMIC_ACQUIRE, RA()); }
EXPORT void dsim_latch_wait(const volatile int* p) noexcept
{
  for (;;)
  {
    bool l      = cur->latest;
    cur->latest = true;
    int v       = (int) a_load(p, 4, __ATOMIC_ACQUIRE, RA());
    cur->latest = l;
    if (v)
      return;
    block(B_ATOMIC, p, 0);
  }
}
EXPORT void dsim_sleep(uint64_t ns) noexcept
{
  if (!active || !cur)
    return;
  block(B_SLEEP, nullptr, vnow + ns);
}

// --- pthreads -------------------------------------------------------------------
static pthread_t to_pt(int id) { return (pthread_t) (0x700000000ull + (u64) (id + 1) * 0x1000); }
static Fiber*    from_pt(pthread_t t)
{
  u64 v = (u64) t - 0x700000000ull;
  int i = (int) (v / 0x1000) - 1;
  return i >= 0 && i < nfibers ? &fibers[i] : nullptr;
}
#define REAL(name) ((decltype(&name)) dlsym(RTLD_NEXT, #name))

EXPORT pthread_t pthread_self() noexcept
{
  if (active && cur)
    return to_pt(cur->id);
  static auto r = REAL(pthread_self);
  return r();
}
EXPORT int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
{
  if (!active || !cur)
    return REAL(pthread_create)(t, a, fn, arg);
  sched_point(OP_THREAD, nullptr);
  Fiber* f = make_fiber(fn, arg);
  if (!f)
    return EAGAIN;
  f->vc.join(cur->vc);
  f->vc.c[f->id] = 1;
  tick(cur);
  if (a)
  {
    int d = 0;
    pthread_attr_getdetachstate(a, &d);
    f->detached = d == PTHREAD_CREATE_DETACHED;
  }
  *t = to_pt(f->id);
  log_event(OP_THREAD | (u64) cur->id << 8, (u64) f->id, 0);
  if (verbose)
    fprintf(stderr, "[%6lu] T%d creates T%d\n", (unsigned long) ev_seq, cur->id, f->id);
  sched_point(OP_THREAD, nullptr);
  return 0;
}
EXPORT int pthread_join(pthread_t t, void** ret)
{
  if (!active || !cur)
    return REAL(pthread_join)(t, ret);
  Fiber* f = from_pt(t);
  if (!f || f->joined || f->detached)
    fail("bad-join", "pthread_join on a thread that cannot be joined");
  if (f == cur)
    return EDEADLK;
  sched_point(OP_THREAD, f);
  while (f->state != F_DONE)
    block(B_JOIN, f, 0);
  f->joined = true;
  cur->vc.join(f->vc);
  if (ret)
    *ret = f->ret;
  log_event(OP_THREAD | (u64) cur->id << 8, (u64) f->id, 1);
  return 0;
}
EXPORT int pthread_detach(pthread_t t) noexcept
{
  if (!active || !cur)
    return REAL(pthread_detach)(t);
  if (Fiber* f = from_pt(t))
    f->detached = true;
  return 0;
}
EXPORT int pthread_setname_np(pthread_t t, const char* n) noexcept
{
  if (!active || !cur)
    return REAL(pthread_setname_np)(t, n);
  return 0;
}

static MutexRep* mrep(pthread_mutex_t* m) { return (MutexRep*) m; }
static VC&       mutex_vc(MutexRep* r)
{
  if (!r->vcidx || r->gen != gen || r->vcidx > (u32) nmvc)
  {
    if (nmvc >= MAXMVC)
      return dummy_vc;
    mvc[nmvc].clear();
    r->vcidx = (u32) ++nmvc;
    r->gen   = gen;
  }
  return mvc[r->vcidx - 1];
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
  if (!active || !cur)
    return REAL(pthread_mutex_init)(m, a);
  memset(m, 0, sizeof *m);
  if (a)
  {
    int k = 0;
    pthread_mutexattr_gettype(a, &k);
    mrep(m)->kind = k == PTHREAD_MUTEX_RECURSIVE;
  }
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
  if (!active || !cur)
    return REAL(pthread_mutex_destroy)(m);
  if (mrep(m)->owner)
    fail("bad-mutex", "destroying a locked mutex");
  return 0;
}
static int do_lock(pthread_mutex_t* m, bool tryl, u64 deadline, void* pc)
{
  MutexRep* r = mrep(m);
  sched_point(OP_LOCK, m);
  on_access(m, 8, true, true, pc);
  if (r->kind && r->owner == (u32) cur->id + 1)
  {
    r->count++;
    return 0;
  }
  while (r->owner)
  {
    if (tryl)
    {
      log_event(OP_LOCK | (u64) cur->id << 8, haddr(m), 2);
      return EBUSY;
    }
    if (!block(B_MUTEX, m, deadline) && r->owner)
      return ETIMEDOUT;
    on_access(m, 8, true, true, pc);
  }
  r->owner = (u32) cur->id + 1;
  acquire_from(mutex_vc(r));
  log_event(OP_LOCK | (u64) cur->id << 8, haddr(m), 1);
  if (verbose)
    fprintf(stderr, "[%6lu] T%d lock %p pc=%p\n", (unsigned long) ev_seq, cur->id, (void*) m, pc);
  return 0;
}
static void do_unlock(pthread_mutex_t* m, void* pc)
{
  MutexRep* r = mrep(m);
  on_access(m, 8, true, true, pc);
  if (r->owner != (u32) cur->id + 1)
    fail("bad-mutex", "T%d unlocks a mutex it does not hold (pc %p)", cur->id, pc);
  if (r->kind && r->count)
  {
    r->count--;
    return;
  }
  release_to(mutex_vc(r));
  r->owner = 0;
  wake_obj(B_MUTEX, m, -1);
  log_event(OP_UNLOCK | (u64) cur->id << 8, haddr(m), 0);
  if (verbose)
    fprintf(stderr, "[%6lu] T%d unlock %p pc=%p\n", (unsigned long) ev_seq, cur->id, (void*) m, pc);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
  if (!active || !cur || !shadow_of((u64) m))
    return 0;
  return do_lock(m, false, 0, RA());
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
  if (!active || !cur || !shadow_of((u64) m))
    return 0;
  return do_lock(m, true, 0, RA());
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
  if (!active || !cur || !shadow_of((u64) m))
    return 0;
  do_unlock(m, RA());
  sched_point(OP_UNLOCK, m);
  return 0;
}
constexpr u64 REAL_OFF = 1700000000ull * 1000000000ull;
static u64    ts_to_deadline(clockid_t c, const struct timespec* ts)
{
  if (ts->tv_sec < 0)
    return 1;
  u64 ns;
  if ((u64) ts->tv_sec > 8000000000ull)
    ns = 8000000000ull * 1000000000ull;
  else
    ns = (u64) ts->tv_sec * 1000000000ull + (u64) ts->tv_nsec;
  if (c == CLOCK_REALTIME)
    ns = ns > REAL_OFF ? ns - REAL_OFF : 1;
  return ns ? ns : 1;
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept
{
  if (!active || !cur)
    return 0;
  return do_lock(m, false, ts_to_deadline(c, ts), RA());
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept
{
  return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts);
}
static int do_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline, void* pc)
{
  sched_point(OP_COND, c);
  on_access(c, 8, true, true, pc);
  if (verbose)
    fprintf(stderr, "[%6lu] T%d cond_wait %p deadline=%lu\n", (unsigned long) ev_seq, cur->id, (void*) c, deadline);
  do_unlock(m, pc);
  bool ok = true;
  if (deadline && deadline <= vnow)
    ok = false;
  else if (spurious())
    yield_point();
  else
    ok = block(B_COND, c, deadline);
  log_event(OP_COND | (u64) cur->id << 8, haddr(c), ok);
  do_lock(m, false, 0, pc);
  return ok ? 0 : ETIMEDOUT;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept
{
  memset(c, 0, sizeof *c);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
  if (active && cur)
    for (int i = 0; i < nfibers; ++i)
      if (fibers[i].state == F_BLOCK && fibers[i].bkind == B_COND && fibers[i].bobj == c)
        fail("bad-cond", "destroying a condition variable with waiters");
  return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  if (!active || !cur)
    return 0;
  return do_cond_wait(c, m, 0, RA());
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
  if (!active || !cur)
    return 0;
  return do_cond_wait(c, m, ts_to_deadline(k, ts), RA());
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
  if (!active || !cur)
    return 0;
  return do_cond_wait(c, m, ts_to_deadline(CLOCK_REALTIME, ts), RA());
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) noexcept
{
  if (!active || !cur)
    return 0;
  sched_point(OP_NOTIFY, c);
  on_access(c, 8, true, true, RA());
  log_event(OP_NOTIFY | (u64) cur->id << 8, haddr(c), 1);
  if (verbose)
    fprintf(stderr, "[%6lu] T%d cond_signal %p pc=%p\n", (unsigned long) ev_seq, cur->id, (void*) c, RA());
  wake_obj(B_COND, c, 1);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
  if (!active || !cur)
    return 0;
  sched_point(OP_NOTIFY, c);
  on_access(c, 8, true, true, RA());
  log_event(OP_NOTIFY | (u64) cur->id << 8, haddr(c), 2);
  wake_obj(B_COND, c, -1);
  return 0;
}
EXPORT int pthread_once(pthread_once_t* o, void (*fn)())
{
  int* s = (int*) o;
  if (!active || !cur || !shadow_of((u64) o))
  {
    if (*s != 2)
    {
      fn();
      *s = 2;
    }
    return 0;
  }
  sched_point(OP_LOCK, o);
  while (*s == 1)
    block(B_GUARD, o, 0);
  if (*s == 2)
  {
    cur->latest = true;
    cur->nopreempt++;
    a_load(o, 4, __ATOMIC_ACQUIRE, nullptr);
    if (--cur->nopreempt == 0)
      cur->latest = false;
    return 0;
  }
  *s = 1;
  struct Reset
  {
    int* s;
    bool done = false;
    ~Reset()
    {
      if (!done)
        *s = 0;
      wake_obj(B_GUARD, s, -1);
    }
  } reset{s};
  fn();
  a_store(o, 4, 2, __ATOMIC_RELEASE, nullptr);
  reset.done = true;
  return 0;
}
EXPORT int sched_yield() noexcept
{
  if (!active || !cur)
    return 0;
  log_event(OP_YIELD | (u64) cur->id << 8, 0, 0);
  yield_point();
  return 0;
}

EXPORT int sem_init(sem_t* s, int, unsigned v) noexcept
{
  ((u32*) s)[0] = v;
  return 0;
}
EXPORT int sem_destroy(sem_t*) noexcept { return 0; }
EXPORT int sem_post(sem_t* s) noexcept
{
  if (!active || !cur)
    return 0;
  a_rmw((u32*) s, 4, R_ADD, 1, __ATOMIC_SEQ_CST, RA());
  wake_obj(B_SEM, s, -1);
  return 0;
}
static int do_sem_wait(sem_t* s, u64 deadline, bool tryw)
{
  for (;;)
  {
    cur->latest = true;
    u64  v      = a_load((u32*) s, 4, __ATOMIC_SEQ_CST, RA());
    bool ok     = v && a_cas((u32*) s, 4, &v, v - 1, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST, RA());
    cur->latest = cur->nopreempt != 0;
    if (ok)
      return 0;
    if (tryw)
    {
      errno = EAGAIN;
      return -1;
    }
    if (*(u32*) s == 0 && !block(B_SEM, s, deadline))
    {
      errno = ETIMEDOUT;
      return -1;
    }
  }
}
EXPORT int sem_wait(sem_t* s) { return active && cur ? do_sem_wait(s, 0, false) : 0; }
EXPORT int sem_trywait(sem_t* s) noexcept { return active && cur ? do_sem_wait(s, 0, true) : 0; }
EXPORT int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts)
{
  return active && cur ? do_sem_wait(s, ts_to_deadline(c, ts), false) : 0;
}
EXPORT int sem_timedwait(sem_t* s, const struct timespec* ts) { return sem_clockwait(s, CLOCK_REALTIME, ts); }

// --- clocks ----------------------------------------------------------------------
static int ns_to_ts(u64 ns, struct timespec* ts)
{
  ts->tv_sec  = (time_t) (ns / 1000000000ull);
  ts->tv_nsec = (long) (ns % 1000000000ull);
  return 0;
}
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
  if (!active || !cur)
    return (int) raw_syscall(SYS_clock_gettime, c, (long) ts);
  sched_point(OP_CLOCK, nullptr);
  ++clock_reads;
  u64 t = vnow;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
    t += REAL_OFF;
  return ns_to_ts(t, ts);
}
EXPORT int gettimeofday(struct timeval* tv, void*) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec  = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t* t) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t)
    *t = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem)
{
  if (!active || !cur)
    return (int) raw_syscall(SYS_clock_nanosleep, c, flags, (long) ts, (long) rem);
  u64 d = (flags & TIMER_ABSTIME) ? ts_to_deadline(c, ts)
                                  : vnow + (u64) ts->tv_sec * 1000000000ull + (u64) ts->tv_nsec;
  block(B_SLEEP, nullptr, d ? d : 1);
  return 0;
}
EXPORT int nanosleep(const struct timespec* ts, struct timespec* rem)
{
  return clock_nanosleep(CLOCK_MONOTONIC, 0, ts, rem);
}
EXPORT int usleep(useconds_t us)
{
  struct timespec ts;
  ns_to_ts((u64) us * 1000, &ts);
  return nanosleep(&ts, nullptr);
}
EXPORT unsigned sleep(unsigned s)
{
  struct timespec ts = {(time_t) s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}

// --- futex and other raw system calls ---------------------------------------------
EXPORT long syscall(long n, ...) noexcept
{
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (active && cur)
  {
    long ret;
    if (uring_syscall(n, a, b, c, d, e, f, &ret))
    {
      if (ret < 0 && ret > -4096)
      {
        errno = (int) -ret;
        return -1;
      }
      return ret;
    }
    if (n == SYS_futex)
    {
      int op = (int) b & 0x7f;
      sched_point(OP_SYS, (void*) a);
      if (op == 0 || op == 9)
      {
        if (*(volatile int*) a != (int) c)
        {
          errno = EAGAIN;
          return -1;
        }
        u64 dl = 0;
        if (d)
        {
          struct timespec* ts = (struct timespec*) d;
          dl = op == 9 ? ts_to_deadline((b & 256) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts)
                       : vnow + (u64) ts->tv_sec * 1000000000ull + (u64) ts->tv_nsec;
        }
        if (!block(B_FUTEX, (void*) a, dl))
        {
          errno = ETIMEDOUT;
          return -1;
        }
        return 0;
      }
      if (op == 1 || op == 10)
        return wake_obj(B_FUTEX, (void*) a, (int) c > 1000 ? -1 : (int) c);
    }
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096)
  {
    errno = (int) -r;
    return -1;
  }
  return r;
}
EXPORT int get_nprocs() noexcept { return (int) hw_threads; }
EXPORT int sched_getcpu() noexcept { return 0; }

// --- allocation ---------------------------------------------------------------------
static void maybe_fail_alloc(void* pc)
{
  if (active && cur && scn_alloc_pm && !cur->alloc_mask && in_exe(pc))
  {
    u32 p = scn_alloc_pm * cfg.alloc_pm / 100;
    if (p && fault_choose("alloc-fail", p, 1))
    {
      log_event(0xA110C, 0, 0);
      throw std::bad_alloc();
    }
  }
}
static void* op_new(size_t n, size_t al, void* pc)
{
  maybe_fail_alloc(pc);
  void* p = any_alloc(n, al, pc);
  if (!p)
    fail("out-of-arena", "simulated heap exhausted (%zu bytes)", n);
  if (verbose)
    fprintf(stderr, "[%6lu] T%d new %zu -> %p pc=%p\n", (unsigned long) ev_seq, cur ? cur->id : -1, n, p, pc);
  return p;
}
#define OPEXP __attribute__((visibility("default")))
OPEXP void* operator new(size_t n) { return op_new(n, 16, RA()); }
OPEXP void* operator new[](size_t n) { return op_new(n, 16, RA()); }
OPEXP void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t) a, RA()); }
OPEXP void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t) a, RA()); }
OPEXP void* operator new(size_t n, const std::nothrow_t&) noexcept
{
  void* pc = RA();
  try
  {
    return op_new(n, 16, pc);
  }
  catch (...)
  {
    return nullptr;
  }
}
OPEXP void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
  void* pc = RA();
  try
  {
    return op_new(n, 16, pc);
  }
  catch (...)
  {
    return nullptr;
  }
}
static void op_del(void* p, void* pc)
{
  if (verbose && p)
    fprintf(stderr, "[%6lu] T%d delete %p pc=%p\n", (unsigned long) ev_seq, cur ? cur->id : -1, p, pc);
  any_free(p, pc);
}
OPEXP void operator delete(void* p) noexcept { op_del(p, RA()); }
OPEXP void operator delete[](void* p) noexcept { op_del(p, RA()); }
OPEXP void operator delete(void* p, size_t) noexcept { op_del(p, RA()); }
OPEXP void operator delete[](void* p, size_t) noexcept { op_del(p, RA()); }
OPEXP void operator delete(void* p, std::align_val_t) noexcept { op_del(p, RA()); }
OPEXP void operator delete[](void* p, std::align_val_t) noexcept { op_del(p, RA()); }
OPEXP void operator delete(void* p, size_t, std::align_val_t) noexcept { op_del(p, RA()); }
OPEXP void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_del(p, RA()); }
OPEXP void operator delete(void* p, const std::nothrow_t&) noexcept { op_del(p, RA()); }
OPEXP void operator delete[](void* p, const std::nothrow_t&) noexcept { op_del(p, RA()); }

EXPORT void* malloc(size_t n) noexcept { return any_alloc(n, 16, RA()); }
EXPORT void  free(void* p) noexcept { any_free(p, RA()); }
EXPORT void* calloc(size_t a, size_t b) noexcept
{
  void* p = any_alloc(a * b, 16, RA());
  if (p)
    memset(p, 0, a * b);
  return p;
}
EXPORT void* realloc(void* q, size_t n) noexcept
{
  void* p = any_alloc(n, 16, RA());
  if (q && p)
  {
    u64 a = (u64) q;
    if (a - ARENA_BASE < ARENA_SIZE || a - HOST_BASE < HOST_SIZE)
    {
      u64 o = usable(q);
      memcpy(p, q, o < n ? o : n);
      any_free(q, RA());
    }
    else
      memcpy(p, q, n);
  }
  return p;
}
EXPORT int posix_memalign(void** o, size_t al, size_t n) noexcept
{
  *o = any_alloc(n, al, RA());
  return *o ? 0 : ENOMEM;
}
EXPORT void* aligned_alloc(size_t al, size_t n) noexcept { return any_alloc(n, al, RA()); }
EXPORT void* memalign(size_t al, size_t n) noexcept { return any_alloc(n, al, RA()); }
EXPORT size_t malloc_usable_size(void* p) noexcept { return p ? usable(p) : 0; }

// --- C++ runtime ----------------------------------------------------------------------
EXPORT int __cxa_guard_acquire(long long* g) noexcept
{
  volatile u8* b = (volatile u8*) g;
  if (!active || !cur || !shadow_of((u64) g))
  {
    if (b[0])
      return 0;
    return 1;
  }
  sched_point(OP_LOCK, g);
  while (b[1])
    block(B_GUARD, g, 0);
  if (b[0])
  {
    bool l = cur->latest;
    cur->latest = true;
    cur->nopreempt++;
    a_load(b, 1, __ATOMIC_ACQUIRE, nullptr);
    cur->nopreempt--;
    cur->latest = l;
    return 0;
  }
  b[1] = 1;
  return 1;
}
EXPORT void __cxa_guard_release(long long* g) noexcept
{
  volatile u8* b = (volatile u8*) g;
  if (!active || !cur || !shadow_of((u64) g))
  {
    b[0] = 1;
    return;
  }
  a_store(b, 1, 1, __ATOMIC_RELEASE, nullptr);
  b[1] = 0;
  wake_obj(B_GUARD, g, -1);
}
EXPORT void __cxa_guard_abort(long long* g) noexcept
{
  volatile u8* b = (volatile u8*) g;
  b[1]           = 0;
  if (active && cur)
    wake_obj(B_GUARD, g, -1);
}
static int add_tls_dtor(void (*fn)(void*), void* arg)
{
  if (!active || !cur)
    return 0;
  if (cur->ndtors >= 32)
    fail("harness", "too many thread_local destructors");
  cur->dtors[cur->ndtors++] = {fn, arg};
  return 0;
}
EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* arg, void*) noexcept { return add_tls_dtor(fn, arg); }
EXPORT int __cxa_thread_atexit_impl(void (*fn)(void*), void* arg, void*) noexcept { return add_tls_dtor(fn, arg); }
EXPORT int __cxa_atexit(void (*fn)(void*), void* arg, void* dso) noexcept
{
  if (active && cur)
  {
    if (nexitfns < 128)
      exitfns[nexitfns++] = {fn, arg};
    return 0;
  }
  static auto r = (int (*)(void (*)(void*), void*, void*)) dlsym(RTLD_NEXT, "__cxa_atexit");
  return r ? r(fn, arg, dso) : 0;
}
EXPORT void abort() noexcept
{
  if (active && cur && !in_fail)
  {
    std::type_info* t = abi::__cxa_current_exception_type();
    fail("terminate", "std::terminate/abort called%s%s", t ? " with active exception " : "", t ? t->name() : "");
  }
  raw_syscall(SYS_write, 2, (long) "dsim: abort outside a run\n", 26);
  raw_syscall(SYS_exit_group, 3);
  __builtin_unreachable();
}
EXPORT void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) noexcept
{
  if (active && cur)
    fail("assert", "assertion `%s' failed at %s:%u (%s)", e, file, line, fn);
  fprintf(stderr, "assert %s %s:%u\n", e, file, line);
  raw_syscall(SYS_exit_group, 3);
  __builtin_unreachable();
}
// std::random_device::_M_getval()
EXPORT unsigned _ZNSt13random_device9_M_getvalEv(void*)
{
  if (active && cur)
    return choose(1u << 16, DS_WORK) * 2654435761u + 0x9E3779B1u;
  return 4;
}

// libstdc++'s annotations for its own TSan builds: nothing to do, the atomics are judged themselves
EXPORT void __tsan_mutex_create(void*, unsigned) noexcept {}
EXPORT void __tsan_mutex_destroy(void*, unsigned) noexcept {}
EXPORT void __tsan_mutex_pre_lock(void*, unsigned) noexcept {}
EXPORT void __tsan_mutex_post_lock(void*, unsigned, int) noexcept {}
EXPORT int  __tsan_mutex_pre_unlock(void*, unsigned) noexcept { return 0; }
EXPORT void __tsan_mutex_post_unlock(void*, unsigned) noexcept {}
EXPORT void __tsan_mutex_pre_signal(void*, unsigned) noexcept {}
EXPORT void __tsan_mutex_post_signal(void*, unsigned) noexcept {}
EXPORT void __tsan_acquire(void*) noexcept {}
EXPORT void __tsan_release(void*) noexcept {}
