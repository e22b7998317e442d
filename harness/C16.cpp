// C16: trampoline_scheduler, repeat, repeat_until, repeat_n
#include "common.hpp"
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/trampoline_scheduler.hpp>
using namespace h;

namespace
{
  // ---------------------------------------------------------------------------
  // the scheduler by itself: a random tree of operations, each started by the completion of another
  struct node
  {
    int  id = 0;
    int  started = 0, completed = 0, by = 0;
    int  thread      = -1;
    bool inline_run  = false;  // completed before its start() returned
    bool in_start    = false;
    bool freed       = false;
  };
  struct world
  {
    std::vector<node>        n;
    unsigned                 budget = 0;
    std::size_t              depth, size;
    int                      nesting   = 0;
    int                      max_nesting = 0;
    char*                    base      = nullptr;  // stack address inside the outermost start()
    std::vector<int>         deferred;              // started, not yet completed, in start order
    std::size_t              at = 0;                // next one of them to complete
    ex::inplace_stop_source* src = nullptr;
    bool                     stop_by_us = false;    // request_stop() was called on this thread
    bool                     maybe_stop = false;    // ... or may be called by another one
    unsigned                 fan = 2;
    bool                     chain = false;
    char*                    frame = nullptr;       // stack address of the innermost running completion
  };

  struct op_base
  {
    virtual ~op_base() = default;
    virtual void go() noexcept = 0;
  };
  template <class Env>
  struct sched_op;
  template <class Env>
  struct sched_rcvr
  {
    using receiver_concept = ex::receiver_tag;
    sched_op<Env>* self;
    void           set_value() noexcept;
    void           set_stopped() noexcept;
    auto           get_env() const noexcept -> Env;
  };
  template <class Env>
  struct sched_op : op_base
  {
    using S = decltype(ex::schedule(exec::trampoline_scheduler{}));
    world&                                    w;
    int                                       id;
    bool                                      self_destroy;
    Env                                       env;
    ex::connect_result_t<S, sched_rcvr<Env>>  op;
    sched_op(world& w_, int i, bool sd, Env e)
      : w(w_)
      , id(i)
      , self_destroy(sd)
      , env(e)
      , op(ex::connect(ex::schedule(exec::trampoline_scheduler(w_.depth, w_.size)), sched_rcvr<Env>{this}))
    {}
    void go() noexcept override
    {
      world& ww = w;
      int    i  = id;
      ww.n[i].started++;
      ww.n[i].in_start = true;
      ww.n[i].thread   = dsim_tid();
      ex::start(op);
      ww.n[i].in_start = false;
      if (!ww.n[i].completed)
        ww.deferred.push_back(i);
    }
    void done(int kind) noexcept;
  };
  template <class Env>
  auto sched_rcvr<Env>::get_env() const noexcept -> Env
  {
    return self->env;
  }
  template <class Env>
  void sched_rcvr<Env>::set_value() noexcept
  {
    self->done(VALUE);
  }
  template <class Env>
  void sched_rcvr<Env>::set_stopped() noexcept
  {
    self->done(STOPPED);
  }
  template <class Env>
  void spawn_one(world& w, Env env)
  {
    if (!w.budget)
      return;
    --w.budget;
    int id = int(w.n.size());
    w.n.push_back({});
    w.n[id].id = id;
    bool sd    = coin();
    auto o     = new sched_op<Env>(w, id, sd, env);
    o->go();
    // not self-destroying ones are leaked to 'done', which deletes them when everything is over
  }
  std::vector<op_base*>* g_late;

  template <class Env>
  void sched_op<Env>::done(int kind) noexcept
  {
    char   here;
    world& ww = w;
    node&  nd = ww.n[id];
    DSIM_CHECK(nd.started == 1, "not-started", "operation %d completed without being started", id);
    DSIM_CHECK(++nd.completed == 1, "double-completion", "operation %d completed again", id);
    DSIM_CHECK(nd.thread == dsim_tid(), "wrong-thread", "operation %d was started on T%d and completed on T%d", id,
               nd.thread, dsim_tid());
    DSIM_CHECK(ww.base != nullptr, "late", "operation %d completed after the outermost start() had returned", id);
    // an operation completes inside its own start() or after everything deferred before it
    if (!nd.in_start)
    {
      DSIM_CHECK(ww.at < ww.deferred.size() && ww.deferred[ww.at] == id, "out-of-order",
                 "deferred operation %d ran before operation %d, which was started earlier", id,
                 ww.at < ww.deferred.size() ? ww.deferred[ww.at] : -1);
      ww.at++;
      DSIM_CHECK(ww.nesting == 0, "nested", "a deferred operation ran inside another one's completion");
    }
    if (kind == STOPPED)
      DSIM_CHECK(ww.stop_by_us || ww.maybe_stop, "wrong-completion", "operation %d was stopped although nobody requested it", id);
    else if (ww.stop_by_us && !std::is_same_v<Env, ex::env<>>)
      dsim_fail("stop-ignored", "operation %d sent a value although stop had been requested before", id);
    ww.nesting++;
    if (ww.nesting > ww.max_nesting)
      ww.max_nesting = ww.nesting;
    DSIM_CHECK(ww.nesting <= int(ww.depth), "too-deep", "completions are nested %d deep, the limit is %zu", ww.nesting, ww.depth);
    if (ww.nesting > 1)
    {
      dsim_cover("nested completion");
      std::size_t used = std::size_t(ww.base - &here);
      (void) used;
      DSIM_CHECK(ww.frame != nullptr, "internal", "frame");
      // the outermost completion of this chain began at 'frame'
      std::size_t d = std::size_t(ww.frame - &here);
      DSIM_CHECK(d <= ww.size + 2048, "too-much-stack", "nested completions use %zu bytes of stack, the limit is %zu", d, ww.size);
    }
    else
      ww.frame = &here;
    if (kind == VALUE || coin())
    {
      unsigned k = ww.chain ? 1 : pick(ww.fan + 1);
      Env      e = env;
      if (ww.src && !ww.stop_by_us && pick(12) == 0)
      {
        ww.stop_by_us = true;
        ww.src->request_stop();
      }
      if (self_destroy)
      {
        delete this;
        while (k--)
          spawn_one(ww, e);
      }
      else
      {
        g_late->push_back(this);
        while (k--)
          spawn_one(ww, e);
      }
    }
    else
    {
      if (self_destroy)
        delete this;
      else
        g_late->push_back(this);
    }
    ww.nesting--;
  }

  template <class Env>
  void tramp_thread(world& w, Env env)
  {
    char                  here;
    std::vector<op_base*> late;
    auto                  keep = g_late;
    g_late                     = &late;
    w.base                     = &here;
    unsigned rounds            = 1 + pick(2);
    while (rounds--)
    {
      spawn_one(w, env);
      for (auto& nd: w.n)
        DSIM_CHECK(nd.completed == 1, "lost", "operation %d was not completed when the outermost start() returned", nd.id);
      DSIM_CHECK(w.at == w.deferred.size(), "lost", "deferred operations are left");
      w.budget += pick(3);
    }
    w.base = nullptr;
    for (auto* p: late)
      delete p;
    g_late = keep;
  }

  world* make_world(bool big)
  {
    auto*       w      = new world;
    std::size_t dps[]  = {1, 2, 3, 16, 16, 4096};
    std::size_t szs[]  = {4096, 4096, 1024, 64, 1 << 16};
    w->depth           = dps[pick(6)];
    w->size            = szs[pick(5)];
    w->budget          = big ? 20 + pick(300) : 1 + pick(24);
    w->fan             = 1 + pick(3);
    w->chain           = pick(3) == 0;
    w->n.reserve(w->budget + 16);
    return w;
  }
}  // namespace

SCENARIO(trampoline, 2)
{
  std::unique_ptr<world> w(make_world(pick(3) == 0));
  tramp_thread(*w, ex::env<>{});
}

SCENARIO(trampoline_stop, 2)
{
  std::unique_ptr<world>  w(make_world(false));
  ex::inplace_stop_source src;
  w->src = &src;
  unsigned how = pick(3);
  if (how == 0)
  {
    w->stop_by_us = true;
    src.request_stop();
  }
  threads t;
  if (how == 1)
  {
    w->maybe_stop = true;
    t.go([&] { src.request_stop(); });
  }
  tramp_thread(*w, tok_env(src.get_token()));
}

SCENARIO(trampoline_threads, 1)
{
  // a trampoline belongs to its thread: another thread's operations do not wait for it
  // (g_late is per scenario thread here: use separate oracles)
  std::unique_ptr<world> a(make_world(false)), b(make_world(false));
  struct run
  {
    outcome out;
  };
  unsigned na = 1 + pick(6), nb = 1 + pick(6);
  int      got[2] = {0, 0};
  auto     body   = [](unsigned n, int* got)
  {
    auto sch = exec::trampoline_scheduler(1 + pick(4));
    int  me  = dsim_tid();
    for (unsigned i = 0; i < n; ++i)
    {
      auto o = make_op(ex::schedule(sch)
                         | ex::let_value(
                           [sch, me, got]
                           {
                             DSIM_CHECK(dsim_tid() == me, "wrong-thread", "completed elsewhere");
                             ++*got;
                             return ex::schedule(sch) | ex::then([me, got]
                                                                  {
                                                                    DSIM_CHECK(dsim_tid() == me, "wrong-thread", "completed elsewhere");
                                                                    ++*got;
                                                                  });
                           }),
                       ex::env<>{}, coin());
      o->start();
      DSIM_CHECK(o->out.count == 1, "lost", "not completed when the outermost start() returned");
    }
  };
  {
    threads t;
    t.go([&] { body(na, &got[0]); });
    body(nb, &got[1]);
  }
  DSIM_CHECK(got[0] == 2 * int(na) && got[1] == 2 * int(nb), "lost", "%d and %d tasks ran instead of %u and %u", got[0], got[1],
             2 * na, 2 * nb);
}

// ---------------------------------------------------------------------------
// repetition
namespace
{
  struct fragile_error
  {
    int                code;
    static inline int* fuse = nullptr;  // copies and moves until one throws; < 0: never
    static void        burn()
    {
      if (fuse && *fuse >= 0 && (*fuse)-- == 0)
      {
        dsim_fault_note("error-copy-throws");
        throw my_error{777};
      }
    }
    explicit fragile_error(int c)
      : code(c)
    {}
    fragile_error(fragile_error const & o)
      : code(o.code)
    {
      burn();
    }
  };
  int int_of(fragile_error const & e)
  {
    return e.code;
  }

  struct plan
  {
    int                      n        = 0;      // iteration (0-based) at which something other than "again" happens
    int                      how      = VALUE;  // VALUE: done; ERROR; STOPPED
    bool                     fragile  = false;
    int                      connect_fails = -1;  // the connect of this iteration throws
    bool                     copy_fails = false;  // ... or rather copying the sender for it
    bool                     mixed    = false;  // remote and inline iterations
    bool                     remote   = false;
    int                      stop_at  = -1;     // the iteration that requests stop itself
    int                      conv_throws = -1;  // the conversion of this iteration's value throws
    ex::inplace_stop_source* src      = nullptr;
    workers*                 w        = nullptr;
    leaf_log                 log;
    // what happened (plain: iterations must be ordered)
    int   started = 0, connected = 0, completed = 0, alive = 0;
    char *lo = nullptr, *hi = nullptr;
    bool  bounded_stack = true;
    plan()
    {
      log.many = true;
    }
    void stack(char* p)
    {
      if (!lo || p < lo)
        lo = p;
      if (!hi || p > hi)
        hi = p;
    }
  };
  // value that is converted to bool by the loop
  struct verdict
  {
    bool done;
    bool boom;
    explicit(false) operator bool() const
    {
      if (boom)
      {
        dsim_fault_note("conversion-throws");
        throw my_error{555};
      }
      return done;
    }
  };

  template <class R, int Form>
  struct step_op : job
  {
    plan* p;
    R     r;
    int   me = -1;
    int   state = 0;
    step_op(plan* q, R x)
      : p(q)
      , r(std::move(x))
    {
      if (p->connected == p->connect_fails)
      {
        ++p->connected;
        dsim_fault_note("connect-throws");
        throw my_error{333};
      }
      ++p->connected;
      ++p->alive;
      DSIM_CHECK(p->alive == 1, "overlap", "iteration %d was constructed while the previous one still exists", p->connected);
    }
    step_op(step_op&&) = delete;
    ~step_op()
    {
      DSIM_CHECK(state != 1, "destroyed-while-pending", "an iteration was destroyed before it completed");
      --p->alive;
    }
    void start() & noexcept
    {
      char here;
      DSIM_CHECK(state == 0, "double-start", "an iteration was started twice");
      state = 1;
      me    = p->started++;
      DSIM_CHECK(me == p->completed, "overlap", "iteration %d was started before the previous one completed", me);
      DSIM_CHECK(p->stop_at < 0 || me <= p->stop_at, "stop-ignored", "iteration %d was started although iteration %d had requested stop",
                 me, p->stop_at);
      DSIM_CHECK(me <= p->n, "too-many", "iteration %d was started, the last one was to be %d", me, p->n);
      p->log.start();
      bool remote = p->remote || (p->mixed && pick(4) == 0);
      if (p->bounded_stack && !p->w)
      {
        p->stack(&here);
        DSIM_CHECK(p->hi - p->lo < 24 * 1024, "unbounded-stack", "%ld bytes of stack are in use in iteration %d", long(p->hi - p->lo), me);
      }
      run = [](job* j) { static_cast<step_op*>(j)->finish(); };
      if (remote && p->w)
        p->w->post(this);
      else
        finish();
    }
    void finish() noexcept
    {
      int k = me;
      state = 2;
      ++p->completed;
      if (k == p->stop_at)
        p->src->request_stop();
      p->log.finish();
      bool last = k == p->n;
      if (last && p->how == ERROR)
        return p->fragile ? err<fragile_error>() : err<my_error>();
      if (last && p->how == STOPPED)
        return ex::set_stopped(std::move(r));
      if constexpr (Form == 0)
        ex::set_value(std::move(r));
      else if constexpr (Form == 1)
        ex::set_value(std::move(r), last);
      else
        ex::set_value(std::move(r), verdict{last, k == p->conv_throws});
    }
    template <class E>
    void err()
    {
      if constexpr (std::is_same_v<E, fragile_error>)
      {
        // the object lives in the operation state's frame only until the loop destroys that state
        fragile_error* e = new (std::nothrow) fragile_error{42};
        auto           hold = std::unique_ptr<fragile_error>(e);
        ex::set_error(std::move(r), static_cast<fragile_error const &>(*e));
      }
      else
        ex::set_error(std::move(r), my_error{41});
    }
  };
  // Form 0: sends nothing; 1: bool; 2: a type whose conversion may throw
  template <int Form>
  struct step
  {
    using sender_concept = ex::sender_tag;
    plan* p;
    explicit step(plan* q)
      : p(q)
    {}
    step(step&&) noexcept = default;
    step(step const & o)
      : p(o.p)
    {
      if (p->copy_fails && p->completed > 0 && p->completed == p->connect_fails)
      {
        dsim_fault_note("copy-throws");
        throw my_error{333};
      }
    }
    template <class, class...>
    static consteval auto get_completion_signatures()
    {
      using E = fragile_error const &;
      if constexpr (Form == 0)
        return ex::completion_signatures<set_value_t(), set_error_t(my_error), set_error_t(E), set_stopped_t()>{};
      else if constexpr (Form == 1)
        return ex::completion_signatures<set_value_t(bool), set_error_t(my_error), set_error_t(E), set_stopped_t()>{};
      else
        return ex::completion_signatures<set_value_t(verdict), set_error_t(my_error), set_error_t(E), set_stopped_t()>{};
    }
    template <class R>
    auto connect(R r) const -> step_op<R, Form>
    {
      return step_op<R, Form>{p, std::move(r)};
    }
  };

  // what the whole may do
  struct allowed
  {
    bool value = false, stopped = false;
    int  err   = 0;
    int  err2  = 0;
    int  iterations = -1;  // exact number of iterations, when known
  };

  template <class S, class Env>
  void drive(plan& p, S s, Env env, allowed a, ex::inplace_stop_source* outer, unsigned outer_how, workers* w)
  {
    (void) w;
    int fuse            = p.fragile ? int(pick(4)) - 1 : -1;
    fragile_error::fuse = nullptr;
    {
      auto o = make_op(std::move(s), env, coin());
      o->out.structured = &p.log;
      fragile_error::fuse = &fuse;
      if (outer_how == 1)
        outer->request_stop();
      {
        threads t;
        if (outer_how == 2)
          t.go([&] { outer->request_stop(); });
        o->start();
        o->wait();
      }
      fragile_error::fuse = nullptr;
      outcome& r = o->out;
      require_once(r, "the loop");
      bool ok = (r.kind == VALUE && a.value) || (r.kind == STOPPED && a.stopped)
             || (r.kind == ERROR && (r.value == a.err || (a.err2 && r.value == a.err2)));
      if (p.fragile && r.kind == ERROR && r.value == 777)
        ok = true;
      DSIM_CHECK(ok, "wrong-completion", "completed with %s %d after %d iterations (planned: %d, then %s)", name(r.kind), r.value,
                 p.started, p.n, name(p.how));
      DSIM_CHECK(p.started == p.completed, "unstructured", "an iteration is still running");
      if (a.iterations >= 0)
        DSIM_CHECK(p.started == a.iterations, "wrong-count", "%d iterations ran instead of %d", p.started, a.iterations);
      if (outer_how == 1)
        DSIM_CHECK(p.started == 0 || !outer, "stop-ignored", "an iteration ran although stop was requested before the start");
    }
    DSIM_CHECK(p.alive == 0, "leak", "an iteration was not destroyed");
  }
  unsigned count_of()
  {
    unsigned c[] = {0, 1, 2, 3, 5, 15, 16, 17, 33, 300};
    return c[pick(10)];
  }

  template <class Make>
  void loop(Make make, bool counted)
  {
    plan p;
    p.n   = int(count_of());
    p.how = counted ? VALUE : 1 + int(pick(3));
    ex::inplace_stop_source src, outer_src;
    std::optional<workers>  w;
    unsigned                ww = pick(4);
    if (ww == 0)
    {
      w.emplace(1);
      p.w      = &*w;
      p.remote = coin();
      p.mixed  = !p.remote;
      if (p.n > 40)
        p.n = 40;
    }
    make(p, src);
  }
}  // namespace

// repeat_until over the three kinds of values
template <int Form>
static void until_scn()
{
  loop(
    [](plan& p, ex::inplace_stop_source& src)
    {
      allowed  a;
      unsigned outer = pick(5);
      p.src          = &src;
      p.fragile      = p.how == ERROR && coin();
      if (Form == 2 && pick(4) == 0)
        p.conv_throws = int(pick(unsigned(p.n + 1)));
      if (pick(5) == 0)
        p.connect_fails = int(pick(unsigned(p.n + 3))), p.copy_fails = coin();
      if (pick(5) == 0)
        p.stop_at = int(pick(unsigned(p.n + 1)));
      // when does it end?
      int end = p.n;
      a.value = p.how == VALUE, a.stopped = p.how == STOPPED, a.err = p.how == ERROR ? (p.fragile ? 42 : 41) : 0;
      if (p.conv_throws >= 0 && (p.conv_throws < p.n || (p.conv_throws == p.n && p.how == VALUE)))
      {
        end = p.conv_throws;
        a   = {};
        a.err = 555;
      }
      if (p.stop_at >= 0 && p.stop_at < end)
        end = p.stop_at, a = {}, a.stopped = true;
      if (p.copy_fails && p.connect_fails == 0)
        p.connect_fails = -1;
      if (p.connect_fails >= 0 && p.connect_fails <= end)
        end = p.connect_fails - 1, a = {}, a.err = 333;
      a.iterations = end + 1;
      // the stop request is seen first, or the next iteration cannot be connected
      if (p.stop_at >= 0 && p.stop_at == end && p.connect_fails == end + 1 && a.err == 333)
        a.stopped = true;
      if (p.stop_at >= 0 && p.stop_at == end && p.connect_fails == end + 1 && a.stopped)
        a.err2 = 333;
      if (outer == 1)
        a = {}, a.stopped = true, a.iterations = 0;
      if (outer == 2)
        a.stopped = true, a.iterations = -1;
      drive(p, exec::repeat_until(step<Form>{&p}), tok_env(src.get_token()), a, &src, outer, p.w);
    },
    false);
}
SCENARIO(until_bool, 2)
{
  until_scn<1>();
}
SCENARIO(until_conv, 2)
{
  until_scn<2>();
}
SCENARIO(forever, 2)
{
  loop(
    [](plan& p, ex::inplace_stop_source& src)
    {
      allowed  a;
      unsigned outer = pick(5);
      p.src          = &src;
      p.how          = 2 + int(pick(2));
      p.fragile      = p.how == ERROR && coin();
      if (pick(5) == 0)
        p.stop_at = int(pick(unsigned(p.n + 1)));
      int end   = p.n;
      a.stopped = p.how == STOPPED, a.err = p.how == ERROR ? (p.fragile ? 42 : 41) : 0;
      if (p.stop_at >= 0 && p.stop_at < end)
        end = p.stop_at, a = {}, a.stopped = true;
      a.iterations = end + 1;
      if (outer == 1)
        a = {}, a.stopped = true, a.iterations = 0;
      if (outer == 2)
        a.stopped = true, a.iterations = -1;
      drive(p, exec::repeat(step<0>{&p}), tok_env(src.get_token()), a, &src, outer, p.w);
    },
    false);
}
SCENARIO(counted, 2)
{
  loop(
    [](plan& p, ex::inplace_stop_source& src)
    {
      allowed  a;
      unsigned outer = pick(5);
      p.src          = &src;
      unsigned count = unsigned(p.n);
      p.n            = int(count) - 1;
      if (count && pick(3) == 0)
      {
        p.n   = int(pick(count));
        p.how = 2 + int(pick(2));
      }
      p.fragile = p.how == ERROR && coin();
      if (pick(5) == 0)
        p.connect_fails = int(pick(count + 2)), p.copy_fails = coin();
      if (count && pick(5) == 0)
        p.stop_at = int(pick(count));
      int end = p.n;
      a.value = p.how == VALUE, a.stopped = p.how == STOPPED, a.err = p.how == ERROR ? (p.fragile ? 42 : 41) : 0;
      if (p.stop_at >= 0 && p.stop_at < end)
        end = p.stop_at, a = {}, a.stopped = true;
      if (p.copy_fails && p.connect_fails == 0)
        p.connect_fails = -1;
      if (p.connect_fails >= 0 && p.connect_fails <= end)
        end = p.connect_fails - 1, a = {}, a.err = 333;
      a.iterations = end + 1;
      // the stop request is seen first, or the next iteration cannot be connected
      if (p.stop_at >= 0 && p.stop_at == end && p.connect_fails == end + 1 && a.err == 333)
        a.stopped = true;
      if (p.stop_at >= 0 && p.stop_at == end && p.connect_fails == end + 1 && a.stopped)
        a.err2 = 333;
      if (outer == 1 && count)
        a = {}, a.stopped = true, a.iterations = 0;
      if (outer == 2 && count)
        a.stopped = true, a.iterations = -1;
      drive(p, exec::repeat_n(step<0>{&p}, count), tok_env(src.get_token()), a, count ? &src : nullptr, count ? outer : 0, p.w);
    },
    true);
}
// loops of loops, without a stop token
SCENARIO(nested_loops, 1)
{
  plan     p;
  unsigned a = pick(6), b = pick(6);
  p.n        = int(a * b) - 1;
  p.src      = nullptr;
  std::optional<workers> w;
  if (pick(3) == 0)
  {
    w.emplace(1);
    p.w     = &*w;
    p.mixed = true;
  }
  allowed al;
  al.value      = true;
  al.iterations = int(a * b);
  int  outer_it = 0;
  drive(p, exec::repeat_n(exec::repeat_n(step<0>{&p}, b) | ex::then([&]() noexcept { ++outer_it; }), a), ex::env<>{}, al, nullptr, 0, p.w);
  DSIM_CHECK(outer_it == int(a), "wrong-count", "the outer loop ran %d times instead of %u", outer_it, a);
}
