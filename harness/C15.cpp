// C15: io_uring_context on a simulated kernel
#include "common.hpp"
#include "uring_kernel.hpp"
#include <exec/repeat_n.hpp>
using namespace h;
using namespace std::chrono_literals;

namespace
{
  using clk                = std::chrono::steady_clock;
  constexpr uint64_t LATE  = 200'000'000;  // virtual ns; virtual time passes only while nothing can run
  constexpr uint64_t NEVER = ~0ull;

  struct kernel
  {
    uk::system k;
    kernel()
    {
      uk::sys = &k;
    }
    ~kernel()
    {
      DSIM_CHECK(k.rings.empty() && k.events.empty(), "descriptor-leak", "%zu rings and %zu eventfds are still open", k.rings.size(),
                 k.events.size());
      DSIM_CHECK(k.maps.empty(), "map-leak", "%zu regions are still mapped", k.maps.size());
      uk::sys = nullptr;
    }
  };

  // stop of the whole context, as one thread asks for it
  struct ctx_stop
  {
    uint64_t seq = NEVER, time = NEVER;
    void     now(exec::io_uring_context& c)
    {
      if (seq == NEVER)
        seq = dsim_seq(), time = dsim_now();
      c.request_stop();
    }
  };

  struct item
  {
    ex::inplace_stop_source src;
    uint64_t                delay = 0;  // ns
    uint64_t                made = 0, started = 0;
    uint64_t                ask_seq = NEVER, ask_time = NEVER;
    bool                    token = false;
    bool                    never = false;  // due in the far future
    outcome*                out   = nullptr;
    std::shared_ptr<void>   op;
    void (*go)(void*) = nullptr;
    void start()
    {
      started = dsim_now();
      go(op.get());
    }
    void stop()
    {
      if (ask_seq == NEVER)
        ask_seq = dsim_seq(), ask_time = dsim_now();
      src.request_stop();
    }
  };
  template <class S, class E>
  void keep(item& t, S s, E e)
  {
    auto o  = make_op(std::move(s), e, coin());
    using O = std::remove_reference_t<decltype(*o)>;
    t.out   = &o->out;
    t.op    = std::shared_ptr<void>(std::move(o));
    t.go    = [](void* p) { static_cast<O*>(p)->start(); };
  }
  template <class S>
  void keep(item& t, S s)
  {
    t.token = coin();
    if (t.token)
      keep(t, std::move(s), tok_env(t.src.get_token()));
    else
      keep(t, std::move(s), ex::env<>{});
  }
  // when far is false the operation ends by itself soon
  void arm(item& t, exec::io_uring_scheduler s, bool far)
  {
    static const std::chrono::nanoseconds d[] = {0ns, 1ms, 1ms, 300ms, 1500ms, 999'999'999ns, 2s, -5ms, 1ns, 3600s};
    auto                                  dur = d[pick(far ? 10 : 9)];
    t.made  = dsim_now();
    t.delay = dur.count() < 0 ? 0 : uint64_t(dur.count());
    t.never = dur >= 3600s;
    switch (pick(3))
    {
    case 0:
      t.delay = 0;
      t.never = false;
      keep(t, ex::schedule(s));
      break;
    case 1: keep(t, exec::schedule_after(s, dur)); break;
    default: keep(t, exec::schedule_at(s, exec::now(s) + dur));
    }
  }

  void judge(item& t, ctx_stop const & cs, int driver, bool punctual = true)
  {
    require_once(*t.out, "operation");
    auto& o = *t.out;
    if (o.kind == VALUE)
    {
      DSIM_CHECK(o.at + 1000 >= t.made + t.delay, "too-early", "an operation due at %lu completed at %lu", t.made + t.delay, o.at);
      if (driver >= 0)
        DSIM_CHECK(o.tid == driver, "wrong-thread", "completed on T%d, the context runs on T%d", o.tid, driver);
      // a request that was over before the start has to be noticed
    }
    else
    {
      DSIM_CHECK(o.kind == STOPPED, "wrong-completion", "completed with %s", name(o.kind));
      DSIM_CHECK(o.seq > t.ask_seq || o.seq > cs.seq, "stopped-unasked", "stopped though nobody had requested stop");
    }
    if (punctual)
    {
      uint64_t limit = t.started + t.delay;
      if (t.ask_time < limit)
        limit = t.ask_time;
      if (cs.time < limit)
        limit = cs.time;
      if (limit < t.started)
        limit = t.started;
      DSIM_CHECK(o.at <= limit + LATE, "late", "an operation started at %lu, due at %lu, stop requested at %ld, completed with %s at %lu",
                 t.started, t.started + t.delay, t.ask_time == NEVER ? -1L : long(t.ask_time), name(o.kind), o.at);
    }
  }

  // requests beyond the size of the completion queue have to wait for others to complete, so
  // promptness is judged on rings that cannot fill up
  unsigned ring_size(bool& roomy)
  {
    static const unsigned n[] = {16, 1, 2, 3, 32};
    unsigned              i   = pick(5);
    roomy                     = n[i] >= 16;
    return n[i];
  }

  using items = std::vector<std::unique_ptr<item>>;
  // starts a few operations and stops some of them
  void client(exec::io_uring_context& ctx, items& v, bool wait_each, bool far)
  {
    auto     s = ctx.get_scheduler();
    unsigned n = 1 + pick(4);
    threads  stoppers;
    for (unsigned i = 0; i < n; ++i)
    {
      v.push_back(std::make_unique<item>());
      item& t = *v.back();
      arm(t, s, far);
      unsigned how = t.token ? pick(5) : 9;
      if (t.never && how == 4 && !far)
        how = 2;
      if (how == 0)
        t.stop();
      bool later = how == 1 && i == 0;
      if (later)
        stoppers.go([&t] { t.stop(); });
      t.start();
      if (how == 2)
        t.stop();
      else if (how == 3 && i == 0 && !later)
      {
        static const uint64_t d[] = {0, 1'000'000, 300'000'000, 1'500'000'000, 999'999'999};
        auto                  w = d[pick(5)];
        stoppers.go(
          [&t, w]
          {
            if (w)
              dsim_sleep(w);
            t.stop();
          });
      }
      if (wait_each)
        t.out->wait();
    }
    stoppers.join();
  }
  void run_driver(exec::io_uring_context& ctx)
  {
    for (;;)
    {
      int before = uk::sys->failed;
      try
      {
        ctx.run_until_stopped();
        return;
      }
      catch (std::system_error const & e)
      {
        int c = e.code().value();
        DSIM_CHECK(uk::sys->failed > before && (c == EAGAIN || c == EBUSY || c == ENOMEM), "wrong-error",
                   "run_until_stopped() reports error %d", c);
      }
    }
  }
  void clients(bool enter_fails)
  {
    kernel k;
    k.k.enter_fails = enter_fails;
    bool                   roomy = true;
    exec::io_uring_context ctx(ring_size(roomy));
    unsigned               rounds = 1 + pick(2);
    for (unsigned r = 0; r < rounds; ++r)
    {
      unsigned n     = 1 + pick(3);
      bool     early = coin();  // stop while clients are at work
      bool     each  = !early && coin();
      items    v[3];
      ctx_stop cs;
      int      drv = -1;
      {
        threads ts;
        ts.go(
          [&]
          {
            drv = dsim_tid();
            run_driver(ctx);
          });
        threads cl;
        for (unsigned i = 0; i < n; ++i)
          cl.go([&, i] { client(ctx, v[i], each, early && roomy); });
        if (early)
        {
          if (pick(3) == 0)
            dsim_sleep(pick(3) * 500'000ull);
          cs.now(ctx);
          cl.join();
        }
        else
        {
          cl.join();
          for (auto& x: v)
            for (auto& t: x)
              t->out->wait();
          cs.now(ctx);
        }
        for (auto& x: v)
          for (auto& t: x)
            t->out->wait();
        ts.join();
      }
      DSIM_CHECK(ctx.stop_requested() && !ctx.is_running(), "wrong-state", "the context has been stopped, but does not say so");
      for (auto& x: v)
        for (auto& t: x)
          judge(*t, cs, drv, roomy && !enter_fails);
      // what comes too late is stopped right away
      for (unsigned i = pick(3); i-- > 0;)
      {
        item t;
        arm(t, ctx.get_scheduler(), true);
        t.start();
        DSIM_CHECK(t.out->ready() && t.out->kind == STOPPED, "not-stopped", "an operation on a stopped context completed with %s",
                   name(t.out->kind));
      }
      ctx.reset();
      DSIM_CHECK(!ctx.stop_requested(), "wrong-state", "the context has been reset, but stop is still requested");
    }
  }
}  // namespace

SCENARIO(clients, 5)
{
  clients(false);
}
// io_uring_enter fails now and then; run_until_stopped() reports it and is called again
SCENARIO(enter_fails, 2)
{
  clients(true);
}
// run_until_empty(), several times
SCENARIO(until_empty, 3)
{
  kernel                 k;
  bool                   roomy = true;
  exec::io_uring_context ctx(ring_size(roomy));
  auto                   s      = ctx.get_scheduler();
  unsigned               rounds = 1 + pick(3);
  ctx_stop               cs;
  for (unsigned r = 0; r < rounds; ++r)
  {
    items    v;
    unsigned n = pick(5);
    threads  ts;
    bool     asks = pick(4) == 0;
    for (unsigned i = 0; i < n; ++i)
    {
      v.push_back(std::make_unique<item>());
      arm(*v.back(), s, false);
      v.back()->start();
    }
    for (auto& t: v)
      if (t->token && pick(3) == 0)
      {
        ts.go(
          [&t = *t]
          {
            if (coin())
              dsim_sleep(1'000'000);
            t.stop();
          });
        break;
      }
    if (asks)
      ts.go(
        [&]
        {
          if (coin())
            dsim_sleep(1'000'000 * pick(400));
          cs.now(ctx);
        });
    if (coin())
      ctx.run_until_empty();
    else
    {
      auto o = make_op(ctx.run(exec::until::empty), ex::env<>{}, coin());
      o->start();
      DSIM_CHECK(o->out.ready(), "lost-completion", "run() returned without a completion");
      DSIM_CHECK(o->out.kind == VALUE || (asks && o->out.kind == STOPPED), "wrong-completion", "run(until::empty) completed with %s",
                 name(o->out.kind));
    }
    ts.join();
    // a stop request by another thread that came when the operation was just over may leave half
    // of the operation for the next run
    bool again = false;
    for (auto& t: v)
      again = again || (!t->out->ready() && t->ask_seq != NEVER);
    if (again)
    {
      dsim_cover("stop left behind by run_until_empty");
      ctx.run_until_empty();
    }
    for (auto& t: v)
    {
      DSIM_CHECK(t->out->ready(), "lost-completion", "run_until_empty() returned before an operation started earlier had completed");
      judge(*t, cs, dsim_tid(), roomy);
    }
    if (asks)
    {
      // the stop may have come after the run had ended
      ctx.run_until_stopped();
      ctx.reset();
      cs = {};
    }
  }
  // nothing of this is left that would end another kind of run
  if (coin())
  {
    items   v;
    int     drv = -1;
    threads ts;
    ts.go(
      [&]
      {
        drv = dsim_tid();
        ctx.run_until_stopped();
      });
    if (coin())
      dsim_sleep(1'000'000);
    client(ctx, v, coin(), false);
    for (auto& t: v)
      t->out->wait();
    cs.now(ctx);
    ts.join();
    for (auto& t: v)
      judge(*t, cs, drv, roomy);
  }
}
// finish() ends run_until_stopped() without a stop
SCENARIO(finish, 3)
{
  kernel                 k;
  bool                   roomy = true;
  exec::io_uring_context ctx(ring_size(roomy));
  ctx_stop               cs;
  unsigned               rounds = 1 + pick(3);
  items                  v[2];
  std::atomic<int>       returns{0}, finishes{0};
  int                    drv = -1;
  {
    threads ts;
    threads cl;
    ts.go(
      [&]
      {
        drv = dsim_tid();
        for (;;)
        {
          ctx.run_until_stopped();
          returns.fetch_add(1);
          if (ctx.stop_requested())
            break;
          DSIM_CHECK(finishes.load() >= returns.load(), "returned-early", "run_until_stopped() returned %d times; finish() was called %d times",
                     returns.load(), finishes.load());
        }
      });
    for (unsigned i = pick(3); i-- > 0;)
      cl.go([&, i] { client(ctx, v[i], coin(), false); });
    for (unsigned r = 0; r < rounds; ++r)
    {
      if (pick(3) == 0)
        dsim_sleep(pick(3) * 500'000ull);
      int seen = returns.load();
      finishes.fetch_add(1);
      ctx.finish();
      // it returns once nothing is in flight
      while (returns.load() == seen)
        dsim_sleep(1'000'000);
    }
    cl.join();
    for (auto& x: v)
      for (auto& t: x)
        t->out->wait();
    cs.now(ctx);
    ts.join();
  }
  for (auto& x: v)
    for (auto& t: x)
      judge(*t, cs, drv, roomy);
}
// operations started by the completions of others, on the driver; stop requested there, too
SCENARIO(chains, 3)
{
  kernel                 k;
  bool                   roomy = true;
  exec::io_uring_context ctx(ring_size(roomy));
  auto                   s    = ctx.get_scheduler();
  int                    drv  = -1;
  unsigned               n    = 1 + pick(4);
  bool                   from_task = coin();
  std::atomic<unsigned>  done{0}, steps{0};
  std::atomic<int>       asked{0};
  struct one
  {
    int  made = 0, end = 0;
    bool stopped = false;
  };
  std::vector<one> v(n);
  unsigned         reps = 1 + pick(4), delay = pick(3) * 1'000'000;
  {
    threads ts;
    ts.go(
      [&]
      {
        drv = dsim_tid();
        ctx.run_until_stopped();
      });
    threads cl;
    for (unsigned i = 0; i < n; ++i)
      cl.go(
        [&, i]
        {
          auto step = exec::schedule_after(s, std::chrono::nanoseconds(delay))
                    | ex::let_value(
                        [&, i]
                        {
                          DSIM_CHECK(dsim_tid() == drv, "wrong-thread", "a task ran on T%d, not on the driver T%d", dsim_tid(), drv);
                          ++v[i].made;
                          return ex::schedule(s);
                        })
                    | ex::then(
                        [&, i]
                        {
                          ++v[i].end;
                          if (from_task && i == 0 && steps.fetch_add(1) == 2)
                          {
                            asked.store(1);
                            ctx.request_stop();
                          }
                        });
          auto o = make_op(exec::repeat_n(std::move(step), reps), ex::env<>{}, coin());
          o->start();
          o->wait();
          int k = o->out.kind;
          DSIM_CHECK(k == VALUE || (k == STOPPED && asked.load()), "wrong-completion", "a chain completed with %s", name(k));
          if (k == VALUE)
            DSIM_CHECK(v[i].made == int(reps) && v[i].end == int(reps), "lost-completion", "%d and %d of %u steps ran", v[i].made, v[i].end, reps);
        });
    if (coin())
    {
      if (coin())
        dsim_sleep(pick(3) * 1'000'000);
      asked.store(1);
      ctx.request_stop();
      cl.join();
    }
    else
    {
      cl.join();
      asked.store(1);
      ctx.request_stop();
    }
    ts.join();
  }
}
// run() as a sender: with its own stop token, on a context that already runs
SCENARIO(run_sender, 3)
{
  kernel                 k;
  exec::io_uring_context ctx(16);
  ctx_stop               cs;
  items                  v;
  ex::inplace_stop_source src;
  auto                    o      = make_op(ctx.run(), tok_env(src.get_token()), coin());
  auto                    second = make_op(ctx.run(coin() ? exec::until::empty : exec::until::stopped), ex::env<>{}, coin());
  bool                    twice  = coin();
  bool                    before = !twice && pick(4) == 0;
  int                     drv    = -1;
  auto stop = [&]
  {
    cs.seq  = dsim_seq();
    cs.time = dsim_now();
    src.request_stop();
  };
  {
    threads ts;
    if (before)
      stop();
    ts.go(
      [&]
      {
        drv = dsim_tid();
        o->start();
      });
    if (twice)
    {
      while (!ctx.is_running())
        dsim_sleep(1000);
      second->start();
      DSIM_CHECK(second->out.ready() && second->out.kind == ERROR, "wrong-completion", "run() on a running context completed with %s",
                 name(second->out.kind));
    }
    if (!before)
    {
      client(ctx, v, coin(), false);
      if (coin())
        for (auto& t: v)
          t->out->wait();
      stop();
    }
    ts.join();
    o->wait();
    DSIM_CHECK(o->out.kind == STOPPED, "wrong-completion", "run() completed with %s though stop was requested", name(o->out.kind));
  }
  for (auto& t: v)
  {
    t->out->wait();
    judge(*t, cs, drv);
  }
}
// a system call fails while a context is being constructed
SCENARIO(construct, 1)
{
  static const int codes[] = {EMFILE, ENOMEM, ENFILE, EPERM, EAGAIN, ENOSYS};
  kernel           k;
  k.k.fail_at    = int(pick(6));
  k.k.fail_errno = codes[pick(6)];
  try
  {
    exec::io_uring_context ctx(pick(2) ? 8 : 1);
    DSIM_CHECK(k.k.fail_at >= k.k.calls, "error-swallowed", "a system call failed, and construction succeeded");
    items v;
    v.push_back(std::make_unique<item>());
    arm(*v.back(), ctx.get_scheduler(), false);
    v.back()->start();
    ctx.run_until_empty();
    DSIM_CHECK(v.back()->out->ready(), "lost-completion", "run_until_empty() returned too early");
    judge(*v.back(), {}, dsim_tid());
  }
  catch (std::system_error const & e)
  {
    DSIM_CHECK(k.k.fail_at < k.k.calls, "spurious-error", "no system call failed");
    DSIM_CHECK(e.code() == std::error_code(k.k.fail_errno, std::system_category()), "wrong-error", "errno %d is reported as %d", k.k.fail_errno,
               e.code().value());
  }
}
