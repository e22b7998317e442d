// A simulated kernel behind exec/linux/io_uring_context.hpp: io_uring_setup/enter, mmap of the rings,
// eventfd, write and close.  It is ordinary instrumented code on simulated threads, so when and in
// which order requests complete is the scheduler's choice; the rings are real shared memory.
#pragma once
#include "common.hpp"

#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <linux/io_uring.h>
#include <linux/version.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <map>
#include <ostream>
#include <system_error>

namespace uk
{
  using h::pick;
  using u32   = __u32;
  using clock = std::chrono::steady_clock;

  struct request
  {
    unsigned          op;
    int               fd;
    __u64             user, addr;
    u32               len;
    clock::time_point deadline;
    bool              done = false;
    int               res  = 0;
  };
  struct ring
  {
    std::mutex              m;
    std::condition_variable cv_worker, cv_enter;
    ::io_uring_params       p{};
    char*                   sq   = nullptr;
    char*                   cq   = nullptr;
    ::io_uring_sqe*         sqes = nullptr;
    int                     maps = 0;
    std::vector<request*>   pending;
    std::vector<::io_uring_cqe> overflow;
    bool                    closing = false;
    std::thread             worker;
    u32                     n_entered = 0;
    bool                    used = false;
  };
  struct eventfd_t
  {
    std::uint64_t count = 0;
    int           flags = 0;
  };
  struct system
  {
    std::mutex                                   m;      // descriptors
    std::map<int, std::unique_ptr<ring>>         rings;
    std::map<int, eventfd_t>                     events;
    std::map<void*, std::pair<char*, std::size_t>> maps;
    int                                          next = 1000;
    ring*                                        only = nullptr;
    int                                          fail_at = -1;   // which system call of the construction fails
    int                                          fail_errno = 0;
    int                                          calls = 0;
    bool                                         enter_fails = false;
    int                                          failed = 0;     // io_uring_enter calls that failed
    bool                                         faults = true;  // EINTR, partial submissions
    long                                         timeouts = 0, cancels = 0, reads = 0, enters = 0;
  };
  inline system* sys = nullptr;

  inline bool fails()
  {
    if (sys->calls++ == sys->fail_at)
    {
      dsim_fault_note("system-call-fails");
      errno = sys->fail_errno;
      return true;
    }
    return false;
  }
  inline u32* at(char* base, u32 off)
  {
    return reinterpret_cast<u32*>(base + off);
  }
  inline std::atomic_ref<u32> aref(char* base, u32 off)
  {
    return std::atomic_ref<u32>(*at(base, off));
  }

  // ring.m is held
  inline void post(ring& r, ::io_uring_cqe c)
  {
    auto tail = aref(r.cq, r.p.cq_off.tail);
    auto head = aref(r.cq, r.p.cq_off.head);
    u32  t    = tail.load(std::memory_order_relaxed);
    if (t - head.load(std::memory_order_acquire) >= r.p.cq_entries)
    {
      dsim_cover("completion queue overflow");
      r.overflow.push_back(c);
      return;
    }
    reinterpret_cast<::io_uring_cqe*>(r.cq + r.p.cq_off.cqes)[t & (r.p.cq_entries - 1)] = c;
    tail.store(t + 1, std::memory_order_release);
    r.cv_enter.notify_all();
  }
  inline void work(ring& r)
  {
    std::unique_lock l(r.m);
    for (;;)
    {
      if (r.closing)
        return;
      auto                  now  = clock::now();
      bool                  have_deadline = false;
      clock::time_point     next{};
      std::vector<std::size_t> can;
      for (std::size_t i = 0; i < r.pending.size(); ++i)
      {
        request& q = *r.pending[i];
        if (q.done)
          can.push_back(i);
        else if (q.op == IORING_OP_READ)
        {
          auto e = sys->events.find(q.fd);
          if (e != sys->events.end() && e->second.count)
            can.push_back(i);
        }
        else if (q.op == IORING_OP_TIMEOUT)
        {
          if (q.deadline <= now)
            can.push_back(i);
          else if (!have_deadline || q.deadline < next)
            next = q.deadline, have_deadline = true;
        }
      }
      if (can.empty())
      {
        if (have_deadline)
          r.cv_worker.wait_until(l, next);
        else
          r.cv_worker.wait(l);
        continue;
      }
      std::size_t i = can[pick(unsigned(can.size()))];
      request*    q = r.pending[i];
      r.pending.erase(r.pending.begin() + long(i));
      ::io_uring_cqe c{};
      c.user_data = q->user;
      if (q->done)
        c.res = q->res;
      else if (q->op == IORING_OP_READ)
      {
        auto e = sys->events.find(q->fd);
        ++sys->reads;
        auto v          = e->second.count;
        e->second.count = 0;
        std::memcpy(reinterpret_cast<void*>(q->addr), &v, sizeof v);
        c.res = 8;
      }
      else
        c.res = -ETIME, ++sys->timeouts;
      delete q;
      post(r, c);
      // let others in between two completions
      l.unlock();
      l.lock();
    }
  }

  inline long setup(unsigned entries, ::io_uring_params* p)
  {
    if (fails())
      return -1;
    if (entries == 0 || entries > 32768)
    {
      errno = EINVAL;
      return -1;
    }
    u32 n = 1;
    while (n < entries)
      n *= 2;
    auto  own = std::make_unique<ring>();
    ring& r   = *own;
    r.p       = *p;
    r.p.sq_entries = n;
    r.p.cq_entries = 2 * n;
    bool single    = pick(3) != 0;
    r.p.features   = single ? IORING_FEAT_SINGLE_MMAP | IORING_FEAT_NODROP : IORING_FEAT_NODROP;
    r.p.sq_off.head = 0, r.p.sq_off.tail = 64, r.p.sq_off.ring_mask = 128, r.p.sq_off.ring_entries = 132,
    r.p.sq_off.flags = 136, r.p.sq_off.dropped = 140, r.p.sq_off.array = 192;
    u32 sq_size = 192 + n * 4;
    u32 base    = single ? (sq_size + 63) / 64 * 64 : 0;
    r.p.cq_off.head = base, r.p.cq_off.tail = base + 64, r.p.cq_off.ring_mask = base + 128,
    r.p.cq_off.ring_entries = base + 132, r.p.cq_off.overflow = base + 136, r.p.cq_off.cqes = base + 192;
    *p = r.p;
    std::lock_guard l(sys->m);
    int fd    = sys->next++;
    sys->only = &r;
    sys->rings.emplace(fd, std::move(own));
    return fd;
  }
  inline void* k_mmap(void*, std::size_t size, int, int, int fd, ::off_t off)
  {
    if (fails())
      return MAP_FAILED;
    auto it = sys->rings.find(fd);
    DSIM_CHECK(it != sys->rings.end(), "bad-descriptor", "mmap of descriptor %d, which is not open", fd);
    ring& r = *it->second;
    char* raw = new char[size + 64];
    std::memset(raw, 0, size + 64);
    char* p   = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(raw) + 63) / 64 * 64);
    bool  single = r.p.features & IORING_FEAT_SINGLE_MMAP;
    auto  need   = [&](std::size_t n) {
      DSIM_CHECK(size >= n, "short-map", "a region of %zu bytes is mapped with %zu", n, size);
    };
    u32 start = pick(4) == 0 ? 0u - pick(4) : 0u;  // the counters wrap around sooner or later
    if (off == IORING_OFF_SQES)
    {
      need(r.p.sq_entries * sizeof(::io_uring_sqe));
      r.sqes = reinterpret_cast<::io_uring_sqe*>(p);
    }
    else if (off == IORING_OFF_SQ_RING)
    {
      need(r.p.sq_off.array + r.p.sq_entries * 4);
      r.sq                               = p;
      *at(p, r.p.sq_off.head)            = start;
      *at(p, r.p.sq_off.tail)            = start;
      *at(p, r.p.sq_off.ring_mask)       = r.p.sq_entries - 1;
      *at(p, r.p.sq_off.ring_entries)    = r.p.sq_entries;
    }
    if ((single && off == IORING_OFF_SQ_RING) || off == IORING_OFF_CQ_RING)
    {
      need(r.p.cq_off.cqes + r.p.cq_entries * sizeof(::io_uring_cqe));
      r.cq                            = p;
      *at(p, r.p.cq_off.head)         = start;
      *at(p, r.p.cq_off.tail)         = start;
      *at(p, r.p.cq_off.ring_mask)    = r.p.cq_entries - 1;
      *at(p, r.p.cq_off.ring_entries) = r.p.cq_entries;
    }
    sys->maps[p] = {raw, size};
    return p;
  }
  inline int k_munmap(void* p, std::size_t size)
  {
    auto it = sys->maps.find(p);
    DSIM_CHECK(it != sys->maps.end(), "bad-unmap", "a region that is not mapped is unmapped");
    DSIM_CHECK(it->second.second == size, "bad-unmap", "a region of %zu bytes is unmapped with size %zu", it->second.second, size);
    delete[] it->second.first;
    sys->maps.erase(it);
    return 0;
  }
  inline int k_eventfd(unsigned v, int flags)
  {
    if (fails())
      return -1;
    std::lock_guard l(sys->m);
    int fd          = sys->next++;
    sys->events[fd] = {v, flags};
    return fd;
  }
  inline ::ssize_t k_write(int fd, void const * p, std::size_t n)
  {
    // one ring only: its lock protects the eventfd's counter, too
    ring* r = sys->only;
    DSIM_CHECK(r && sys->events.count(fd), "bad-descriptor", "write to descriptor %d, which is not open", fd);
    DSIM_CHECK(n == 8, "bad-write", "an eventfd takes 8 bytes, not %zu", n);
    std::uint64_t v;
    std::memcpy(&v, p, 8);
    std::lock_guard l(r->m);
    sys->events[fd].count += v;
    r->cv_worker.notify_all();
    return 8;
  }
  inline int k_close(int fd)
  {
    if (sys->events.count(fd))
    {
      if (sys->only)
      {
        std::lock_guard l(sys->only->m);
        sys->events.erase(fd);
      }
      else
        sys->events.erase(fd);
      return 0;
    }
    auto it = sys->rings.find(fd);
    DSIM_CHECK(it != sys->rings.end(), "bad-descriptor", "close of descriptor %d, which is not open", fd);
    ring& r = *it->second;
    {
      std::lock_guard l(r.m);
      r.closing = true;
      for (auto* q: r.pending)
        delete q;
      r.pending.clear();
      r.cv_worker.notify_all();
    }
    if (r.worker.joinable())
      r.worker.join();
    if (sys->only == &r)
      sys->only = nullptr;
    sys->rings.erase(it);
    return 0;
  }

  inline void submit(ring& r, ::io_uring_sqe const & s)
  {
    auto* q = new request{s.opcode, s.fd, s.user_data, s.addr, s.len, {}, false, 0};
    switch (s.opcode)
    {
    case IORING_OP_READ:
      DSIM_CHECK(s.len == 8, "bad-request", "an eventfd is read with %u bytes", s.len);
      DSIM_CHECK(sys->events.count(s.fd), "bad-descriptor", "a read of descriptor %d, which is not open", s.fd);
      break;
    case IORING_OP_TIMEOUT:
    {
      DSIM_CHECK(s.len == 1 && s.off == 0, "bad-request", "timeout with len %u, off %llu", s.len, (unsigned long long) s.off);
      long long ts[2];
      std::memcpy(ts, reinterpret_cast<void*>(s.addr), sizeof ts);
      if (ts[0] < 0 || ts[1] < 0 || ts[1] > 999999999)
        q->done = true, q->res = -EINVAL;
      else
        q->deadline = clock::now() + std::chrono::seconds(ts[0]) + std::chrono::nanoseconds(ts[1]);
      break;
    }
    case IORING_OP_ASYNC_CANCEL:
    {
      q->done = true;
      q->res  = -ENOENT;
      ++sys->cancels;
      for (auto* t: r.pending)
        if (t->user == s.addr && t->op != IORING_OP_ASYNC_CANCEL)
        {
          if (t->done)
            continue;
          if (t->op == IORING_OP_TIMEOUT && t->deadline <= clock::now() && h::coin())
            q->res = -EALREADY;
          else
          {
            t->done = true;
            t->res  = -ECANCELED;
            q->res  = 0;
          }
          break;
        }
      break;
    }
    case IORING_OP_NOP: q->done = true; break;
    default: q->done = true, q->res = -EINVAL;
    }
    r.pending.push_back(q);
  }
  inline long enter(int fd, unsigned to_submit, unsigned min_complete, unsigned flags)
  {
    auto it = sys->rings.find(fd);
    DSIM_CHECK(it != sys->rings.end(), "bad-descriptor", "io_uring_enter on descriptor %d, which is not open", fd);
    ring&            r = *it->second;
    std::unique_lock l(r.m);
    ++sys->enters;
    if (!r.worker.joinable())
      r.worker = std::thread([&r] { work(r); });
    unsigned n    = 0;
    auto     head = aref(r.sq, r.p.sq_off.head);
    u32      hd   = head.load(std::memory_order_relaxed);
    u32      tl   = aref(r.sq, r.p.sq_off.tail).load(std::memory_order_acquire);
    DSIM_CHECK(tl - hd <= r.p.sq_entries, "queue-overrun", "%u submissions in a queue of %u", tl - hd, r.p.sq_entries);
    unsigned want = to_submit < tl - hd ? to_submit : tl - hd;
    DSIM_CHECK(to_submit <= tl - hd, "bad-submit", "%u requests submitted, %u in the queue", to_submit, tl - hd);
    if (sys->faults && want > 1 && dsim_fault("partial-submission", 40))
      want = 1 + pick(want - 1);
    if (sys->enter_fails)
      if (unsigned e = dsim_fault_n("enter-fails", 80, 3))
      {
        static const int codes[] = {EAGAIN, EBUSY, ENOMEM};
        ++sys->failed;
        l.unlock();
        errno = codes[e - 1];
        return -1;
      }
    while (n < want)
    {
      u32 idx = at(r.sq, r.p.sq_off.array)[hd & (r.p.sq_entries - 1)];
      DSIM_CHECK(idx < r.p.sq_entries, "bad-index", "submission queue index %u", idx);
      submit(r, r.sqes[idx]);
      ++hd;
      ++n;
    }
    head.store(hd, std::memory_order_release);
    if (n)
      r.cv_worker.notify_all();
    if (n < to_submit)
      return n;
    if (!(flags & IORING_ENTER_GETEVENTS))
      return n;
    for (;;)
    {
      u32 ct = aref(r.cq, r.p.cq_off.tail).load(std::memory_order_relaxed);
      u32 ch = aref(r.cq, r.p.cq_off.head).load(std::memory_order_acquire);
      while (!r.overflow.empty() && ct - ch < r.p.cq_entries)
      {
        auto c = r.overflow.front();
        r.overflow.erase(r.overflow.begin());
        post(r, c);
        ++ct;
      }
      if (ct - ch >= min_complete)
        return n;
      if (sys->faults && dsim_fault("interrupted-wait", 60))
      {
        l.unlock();
        if (n)
          return n;
        errno = EINTR;
        return -1;
      }
      r.cv_enter.wait(l);
    }
  }
  template <class... As>
  long k_syscall(long nr, As... as)
  {
    unsigned long a[6] = {(unsigned long) as...};
    if (nr == __NR_io_uring_setup)
      return setup(unsigned(a[0]), reinterpret_cast<::io_uring_params*>(a[1]));
    if (nr == __NR_io_uring_enter)
      return enter(int(a[0]), unsigned(a[1]), unsigned(a[2]), unsigned(a[3]));
    dsim_fail("unknown-syscall", "system call %ld", nr);
  }
  inline ::ssize_t k_read(int, void*, std::size_t)
  {
    dsim_fail("unknown-syscall", "read");
  }
}  // namespace uk

// what the header calls
template <class... As>
long dsim_k_syscall(As... as)
{
  return uk::k_syscall(as...);
}
inline void* dsim_k_mmap(void* a, std::size_t b, int c, int d, int e, ::off_t f)
{
  return uk::k_mmap(a, b, c, d, e, f);
}
inline int dsim_k_munmap(void* a, std::size_t b)
{
  return uk::k_munmap(a, b);
}
inline int dsim_k_eventfd(unsigned a, int b)
{
  return uk::k_eventfd(a, b);
}
inline ::ssize_t dsim_k_write(int a, void const * b, std::size_t c)
{
  return uk::k_write(a, b, c);
}
inline int dsim_k_close(int a)
{
  return uk::k_close(a);
}
#define syscall dsim_k_syscall
#define mmap    dsim_k_mmap
#define munmap  dsim_k_munmap
#define eventfd dsim_k_eventfd
#define write   dsim_k_write
#define close   dsim_k_close
#include <exec/linux/io_uring_context.hpp>
#undef syscall
#undef mmap
#undef munmap
#undef eventfd
#undef write
#undef close
