// C14: timed_thread_context / timed_thread_scheduler
#include "common.hpp"
#include <exec/timed_thread_scheduler.hpp>
using namespace h;
using namespace std::chrono_literals;

namespace
{
  using clk = std::chrono::steady_clock;
  constexpr uint64_t LATE = 200'000'000;  // virtual ns; virtual time passes only while nothing can run

  struct timer
  {
    ex::inplace_stop_source src;
    uint64_t                due     = 0;      // virtual time
    uint64_t                started = 0;      // seq when start() was called
    uint64_t                stop_at = ~0ull;  // virtual time when stop was requested
    bool                    asked   = false;
    bool                    token   = false;
    outcome*                out     = nullptr;
    std::shared_ptr<void>   op;
    void (*go)(void*)       = nullptr;
    void start()
    {
      started = dsim_seq();
      go(op.get());
    }
  };

  uint64_t vt(clk::time_point t)
  {
    auto n = t.time_since_epoch().count();
    return n < 0 ? 0 : uint64_t(n);
  }
  uint64_t vnow()
  {
    return vt(clk::now());
  }

  template <class S, class E>
  void keep(timer& t, S s, E e, bool self)
  {
    auto o = make_op(std::move(s), e, self);
    using O = std::remove_reference_t<decltype(*o)>;
    t.out   = &o->out;
    t.op    = std::shared_ptr<void>(std::move(o));
    t.go    = [](void* p) { static_cast<O*>(p)->start(); };
  }

  clk::duration some_delay()
  {
    static const clk::duration d[] = {0ms, 1ms, 1ms, 300ms, 700ms, 1500ms, 3s, 10s, 2s, -5ms};
    return d[pick(10)];
  }

  void arm(timer& t, exec::timed_thread_scheduler s, clk::duration d, bool token)
  {
    t.token = token;
    auto tp = exec::now(s) + d;
    switch (pick(6))
    {
    case 0:
    {
      t.due = 0;
      if (token)
        keep(t, ex::schedule(s), tok_env(t.src.get_token()), coin());
      else
        keep(t, ex::schedule(s), ex::env<>{}, coin());
      break;
    }
    case 1:
    {
      // the delay counts from start(); it cannot be due before this
      t.due = d.count() < 0 ? 0 : vt(tp);
      if (token)
        keep(t, exec::schedule_after(s, d), tok_env(t.src.get_token()), coin());
      else
        keep(t, exec::schedule_after(s, d), ex::env<>{}, coin());
      break;
    }
    default:
      t.due = vt(tp);
      if (token)
        keep(t, exec::schedule_at(s, tp), tok_env(t.src.get_token()), coin());
      else
        keep(t, exec::schedule_at(s, tp), ex::env<>{}, coin());
    }
  }
  void stop(timer& t)
  {
    t.asked   = true;
    t.stop_at = vnow();
    t.src.request_stop();
  }

  void judge(timer& t, uint64_t off, bool punctual)
  {
    require_once(*t.out, "timer");
    uint64_t at = t.out->at + off;
    if (t.out->kind == VALUE)
    {
      DSIM_CHECK(at + 1000 >= t.due, "too-early", "a timer due at %lu completed at %lu", t.due, at);
    }
    else
    {
      DSIM_CHECK(t.out->kind == STOPPED, "wrong-completion", "a timer completed with %s", name(t.out->kind));
      DSIM_CHECK(t.asked, "stopped-unasked", "a timer was stopped though nobody requested stop");
    }
    if (punctual)
    {
      uint64_t limit = t.due;
      if (t.token && t.asked && t.stop_at < limit)
        limit = t.stop_at;
      DSIM_CHECK(at <= limit + LATE || t.due == 0, "late", "a timer due at %lu (stop requested at %ld) completed with %s at %lu", t.due,
                 t.asked ? long(t.stop_at) : -1L, name(t.out->kind), at);
    }
  }
  // on one thread: started in order and due in order means completed in order
  void ordered(std::vector<std::unique_ptr<timer>>& v)
  {
    for (std::size_t i = 0; i < v.size(); ++i)
      for (std::size_t j = i + 1; j < v.size(); ++j)
        if (v[i]->out->kind == VALUE && v[j]->out->kind == VALUE && v[i]->due <= v[j]->due && v[i]->started < v[j]->started
            && v[i]->started && v[j]->started)
          DSIM_CHECK(v[i]->out->seq < v[j]->out->seq, "order", "timer %zu due at %lu completed after timer %zu due at %lu", i, v[i]->due, j,
                     v[j]->due);
  }

  void timers(bool punctual)
  {
    uint64_t                   off = vnow() - dsim_now();
    exec::timed_thread_context ctx;
    auto                       s  = ctx.get_scheduler();
    unsigned                   nt = 1 + pick(3);
    std::atomic<uint64_t>      mine{1ull << dsim_tid()};
    auto                       body = [&]
    {
      mine.fetch_or(1ull << dsim_tid());
      std::vector<std::unique_ptr<timer>> v;
      unsigned n = 1 + pick(4);
      threads  stoppers;
      for (unsigned i = 0; i < n; ++i)
      {
        v.push_back(std::make_unique<timer>());
        timer& t = *v.back();
        arm(t, s, some_delay(), coin());
        unsigned how = t.token ? pick(5) : 9;
        if (how == 0)
          stop(t);
        else if (how == 1)
        {
          t.asked = true;  // some time from now on
          stoppers.go([&t] { stop(t); });
        }
        t.start();
        if (how == 2)
          stop(t);
        else if (how == 3)
        {
          t.asked = true;
          clk::duration d = some_delay();
          stoppers.go(
            [&t, d]
            {
              if (d.count() > 0)
                dsim_sleep(uint64_t(d.count()));
              stop(t);
            });
        }
      }
      for (auto& t: v)
        t->out->wait();
      stoppers.join();
      for (auto& t: v)
      {
        judge(*t, off, punctual);
        if (t->out->kind == VALUE)
          DSIM_CHECK(!((mine.load() >> t->out->tid) & 1), "wrong-thread", "a timer completed on T%d, not on the context's thread", t->out->tid);
      }
    };
    threads ts;
    for (unsigned i = 1; i < nt; ++i)
      ts.go(body);
    body();
  }
}  // namespace

SCENARIO(timers, 5)
{
  timers(true);
}
// the clock jumps forward and threads are stalled
SCENARIO(jumps, 2)
{
  dsim_time_faults(500);
  timers(false);
}
// many timers pending at once, cancelled in arbitrary order
SCENARIO(heap, 3)
{
  uint64_t                   off = vnow() - dsim_now();
  exec::timed_thread_context ctx;
  auto                       s = ctx.get_scheduler();
  unsigned                   n = 3 + pick(12);
  std::vector<std::unique_ptr<timer>> v;
  auto base = exec::now(s) + 100ms;
  for (unsigned i = 0; i < n; ++i)
  {
    v.push_back(std::make_unique<timer>());
    timer& t  = *v.back();
    auto   tp = base + 300ms * pick(n);
    t.token   = true;
    t.due     = vt(tp);
    keep(t, exec::schedule_at(s, tp), tok_env(t.src.get_token()), coin());
    t.start();
    if (coin())
    {
      timer& u = *v[pick(i + 1)];
      if (!u.asked)
        stop(u);
    }
  }
  for (unsigned r = pick(n); r-- > 0;)
  {
    if (pick(3) == 0)
      dsim_sleep(300'000'000);
    timer& u = *v[pick(n)];
    if (!u.asked)
      stop(u);
  }
  for (auto& t: v)
    t->out->wait();
  for (auto& t: v)
    judge(*t, off, true);
  ordered(v);
}
// the context is destroyed while timers are pending
SCENARIO(shutdown, 3)
{
  uint64_t off = vnow() - dsim_now();
  std::vector<std::unique_ptr<timer>> all[3];
  {
    exec::timed_thread_context ctx;
    auto                       s = ctx.get_scheduler();
    threads                    ts;
    unsigned                   nt = 1 + pick(3);
    auto                       body = [&](unsigned k)
    {
      for (unsigned i = 1 + pick(3); i-- > 0;)
      {
        all[k].push_back(std::make_unique<timer>());
        timer& t = *all[k].back();
        arm(t, s, some_delay(), coin());
        t.start();
        if (t.token && pick(3) == 0)
          stop(t);
        t.asked = true;  // by the destruction of the context
      }
    };
    for (unsigned k = 1; k < nt; ++k)
      ts.go([&, k] { body(k); });
    body(0);
    ts.join();
    if (coin())
      dsim_sleep(1'000'000);
  }
  for (auto& v: all)
    for (auto& t: v)
    {
      DSIM_CHECK(t->out->ready(), "lost-completion", "a timer had not completed when the destructor of its context returned");
      t->out->wait();
      judge(*t, off, false);
    }
}
