// C25: thread pools built on exec::thread_pool_base (and the Asio pool)
#include "common.hpp"

#include <exec/asio/asio_thread_pool.hpp>
#include <exec/static_thread_pool.hpp>
#include <exec/thread_pool_base.hpp>

#include <string>
using namespace h;

namespace
{
  // A pool of our own: what is enqueued runs on any worker, in any order
  struct own_pool : exec::thread_pool_base<own_pool>
  {
    unsigned              par;
    std::atomic<unsigned> enqueued{0};
    workers               w;
    std::atomic<int>      on[16] = {};

    own_pool(unsigned threads, unsigned par_)
      : par(par_)
      , w(threads)
    {}
    [[nodiscard]]
    auto available_parallelism() const -> std::uint32_t
    {
      return par;
    }
    static constexpr auto forward_progress_guarantee() -> ex::forward_progress_guarantee
    {
      return ex::forward_progress_guarantee::parallel;
    }
    bool here()
    {
      return on[dsim_tid()].load(std::memory_order_relaxed) != 0;
    }
    void enqueue(exec::_pool_::task_base* task, std::uint32_t tid = 0) noexcept
    {
      struct item : job
      {
        own_pool*                p;
        exec::_pool_::task_base* t;
        std::uint32_t            tid;
      };
      if (enqueued.fetch_add(1, std::memory_order_relaxed) > 5000)
        dsim_fail("runaway", "more than 5000 tasks are enqueued");
      auto* i = new item;
      i->p    = this;
      i->t    = task;
      i->tid  = tid;
      i->run  = [](job* j)
      {
        item it = *static_cast<item*>(j);
        delete static_cast<item*>(j);
        auto* p = it.p;
        int   me = dsim_tid();
        p->on[me].store(1, std::memory_order_relaxed);
        it.t->execute_(it.t, it.tid);
        p->on[me].store(0, std::memory_order_relaxed);
      };
      w.post(i);
    }
  };
  struct asio_pool : exec::asio::asio_thread_pool
  {
    int owner;
    explicit asio_pool(unsigned n)
      : asio_thread_pool(n)
      , owner(dsim_tid())
    {}
    bool here()
    {
      return dsim_tid() != owner;
    }
  };

  // ---------------------------------------------------------------- schedule
  template <class Pool>
  void schedules(Pool& p, unsigned clients)
  {
    threads               ts;
    std::atomic<unsigned> here{0};
    for (unsigned c = 0; c < clients; ++c)
      ts.go(
        [&p]
        {
          unsigned n = 1 + pick(3);
          for (unsigned i = 0; i < n; ++i)
          {
            auto* pp = &p;
            // only pool threads run what was scheduled; those of the clients never do
            int  me = dsim_tid();
            auto f  = [pp, me]
            {
              DSIM_CHECK(dsim_tid() != me && pp->here(), "wrong-thread", "scheduled work runs on a thread that is not the pool's");
              return token(4);
            };
            if (coin())
            {
              auto o = make_op(ex::schedule(p.get_scheduler()) | ex::then(f), ex::env<>{}, coin());
              o->start();
              o->wait();
              require_once(o->out, "schedule");
              DSIM_CHECK(o->out.kind == VALUE && o->out.value == 4, "wrong-completion", "schedule completed with %s", name(o->out.kind));
            }
            else
            {
              stop_box src;
              int      when = int(pick(3));
              threads  rq;
              auto     o = make_op(ex::schedule(p.get_scheduler()) | ex::then(f), tok_env(src.get_token()), coin());
              if (when == 0)
                src.dies_with(*o);
              else if (when == 1)
                src.request_stop();
              o->start();
              if (when == 2)
                src.request_stop();
              o->wait();
              require_once(o->out, "schedule");
              bool ok = when == 0 ? o->out.kind == VALUE : when == 1 ? o->out.kind == STOPPED : o->out.kind == VALUE || o->out.kind == STOPPED;
              DSIM_CHECK(ok, "wrong-completion", "schedule completed with %s though stop %s", name(o->out.kind),
                         when == 0   ? "was not requested"
                         : when == 1 ? "was requested before"
                                     : "was requested");
            }
          }
        });
    ts.join();
    (void) here;
  }

  // stop is requested by work of the pool itself: what its thread runs afterwards has to see it
  template <class Pool>
  void ordered(Pool& p)
  {
    stop_box src;
    uint64_t at  = ~0ull;
    int      tid = -1;
    auto     a   = make_op(ex::schedule(p.get_scheduler()) | ex::then(
                                                             [&]
                                                             {
                                                               src.request_stop();
                                                               tid = dsim_tid();
                                                               at  = dsim_seq();
                                                               dsim_event("requested", 0, 0);
                                                             }),
                     ex::env<>{}, coin());
    auto     b   = make_op(ex::schedule(p.get_scheduler()), tok_env(src.get_token()), coin());
    bool     ab  = coin();
    if (ab)
      a->start();
    b->start();
    if (!ab)
      a->start();
    a->wait();
    b->wait();
    require_once(b->out, "schedule");
    DSIM_CHECK(b->out.kind == VALUE || b->out.kind == STOPPED, "wrong-completion", "schedule completed with %s", name(b->out.kind));
    if (b->out.tid == tid && b->out.seq > at)
      DSIM_CHECK(b->out.kind == STOPPED, "ran-after-stop", "stop was requested before the work ran, it completed with %s", name(b->out.kind));
  }

  // ---------------------------------------------------------------- bulk
  // (these pools want values with a default constructor)
  struct touchy0 : touchy
  {
    touchy0()
      : touchy(0, false)
    {}
    using touchy::touchy;
  };
  inline int int_of(touchy0 const & t)
  {
    return h::int_of(t.t);
  }
  struct tally
  {
    long              n = 0;
    std::atomic<int>  calls{0}, running{0};
    std::atomic<int>  seen[64] = {};
    unsigned          bad = 0, bad2 = 0;  // index + 1 that throws
    std::atomic<int>  threw{0};
    int               id = 0;
    bool (*here)(void*)  = nullptr;
    void*             pool = nullptr;
    void              one(long i, token const & t, bool may)
    {
      DSIM_CHECK(i >= 0 && i < n, "bad-index", "bulk of %ld invoked with index %ld", n, i);
      DSIM_CHECK(t.intact(id), "payload-corrupt", "the bulk function received a damaged value");
      DSIM_CHECK(here(pool), "wrong-thread", "the bulk function runs on a thread that is not the pool's");
      DSIM_CHECK(seen[i].fetch_add(1, std::memory_order_relaxed) == 0, "index-twice", "index %ld is visited twice", i);
      calls.fetch_add(1, std::memory_order_relaxed);
      if (pick(3) == 0)
        dsim_point();
      if (may && (bad == unsigned(i) + 1 || bad2 == unsigned(i) + 1))
      {
        threw.fetch_add(1, std::memory_order_relaxed);
        running.fetch_sub(1, std::memory_order_release);
        throw my_error{int(500 + i)};
      }
    }
  };
  inline token const & tok_of(token const & t)
  {
    return t;
  }
  inline token const & tok_of(touchy const & t)
  {
    return t.t;
  }
  template <class Shape, bool NE>
  struct each
  {
    tally* t;
    template <class V>
    void operator()(Shape i, V& v) const noexcept(NE)
    {
      t->running.fetch_add(1, std::memory_order_relaxed);
      t->one(long(i), tok_of(v), !NE);
      t->running.fetch_sub(1, std::memory_order_release);
    }
    void operator()(Shape i) const noexcept(NE)
    {
      token v(t->id);
      (*this)(i, v);
    }
    template <class V, class W>
    void operator()(Shape i, V& v, W& w) const noexcept(NE)
    {
      DSIM_CHECK(tok_of(w).intact(t->id + 1), "payload-corrupt", "the second value arrived damaged");
      (*this)(i, v);
    }
  };
  template <class Shape, bool NE>
  struct chunk
  {
    tally* t;
    template <class... V>
    void operator()(Shape b, Shape e, V&... v) const noexcept(NE)
    {
      DSIM_CHECK(b <= e, "bad-index", "chunk [%ld, %ld)", long(b), long(e));
      for (long i = b; i < long(e); ++i)
        each<Shape, NE>{t}(Shape(i), v...);
    }
    // never called; with it the pool knows that a function that may not throw does not
    template <class... V>
      requires(NE && (!std::is_same_v<std::remove_cv_t<V>, Shape> && ...))
    void operator()(Shape, V&...) const noexcept
    {
      dsim_fail("bad-index", "bulk_chunked calls its function with one index");
    }
  };

  template <class Pool>
  struct bulk_run
  {
    Pool&    p;
    tally    t;
    int      pre = VALUE;       // how the predecessor completes
    int      val = 0;           // sum of its values
    bool     copy_throws = false;
    bool     may = false;
    explicit bulk_run(Pool& p_)
      : p(p_)
    {
      t.pool = &p;
      t.here = [](void* q) { return static_cast<Pool*>(q)->here(); };
    }
    static void done(void* q)
    {
      auto* me = static_cast<bulk_run*>(q);
      DSIM_CHECK(me->t.running.load(std::memory_order_acquire) == 0, "unstructured", "bulk completed while its function was running");
    }
    template <class S>
    void go(S s)
    {
      auto o         = make_op(std::move(s), ex::env<>{}, coin());
      o->on_done     = &done;
      o->on_done_arg = this;
      o->start();
      o->wait();
      check(o->out);
    }
    void check(outcome const & o)
    {
      require_once(o, "bulk");
      int calls = t.calls.load();
      if (pre != VALUE)
      {
        DSIM_CHECK(o.kind == pre && (pre != ERROR || o.value == 9), "wrong-completion", "the predecessor sent %s, bulk completed with %s %d",
                   name(pre), name(o.kind), o.value);
        DSIM_CHECK(calls == 0, "ran-without-value", "the bulk function ran %d times though its predecessor sent %s", calls, name(pre));
        return;
      }
      if (copy_throws)
      {
        DSIM_CHECK(o.kind == ERROR && o.value == 1000 + t.id, "wrong-completion",
                   "the copy of the value threw, bulk completed with %s %d", name(o.kind), o.value);
        DSIM_CHECK(calls == 0, "ran-without-value", "the bulk function ran though its value could not be stored");
        return;
      }
      if (t.threw.load())
      {
        bool known = o.kind == ERROR && ((t.bad && o.value == int(499 + t.bad)) || (t.bad2 && o.value == int(499 + t.bad2)));
        DSIM_CHECK(known, "wrong-completion", "the bulk function threw, bulk completed with %s %d", name(o.kind), o.value);
        return;
      }
      DSIM_CHECK(o.kind == VALUE && o.value == val, "wrong-completion", "bulk completed with %s %d, expected value %d", name(o.kind), o.value, val);
      DSIM_CHECK(calls == t.n, "lost-index", "%d of %ld indices were visited", calls, t.n);
    }
  };

  template <class Shape, bool NE, class Pool>
  void bulks(Pool& p)
  {
    bulk_run<Pool> r(p);
    r.t.id = 7;
    r.may  = !NE;
    long n = long(pick(4) == 3 ? 20 + pick(20) : pick(9));
    r.t.n  = n;
    if (!NE && n)
    {
      if (pick(3) == 2)
        r.t.bad = 1 + pick(unsigned(n));
      if (pick(4) == 3)
        r.t.bad2 = 1 + pick(unsigned(n));
    }
    leaf_log l;
    auto     sch = p.get_scheduler();
    Shape    sh  = Shape(n);
    auto     b   = [&](auto pred)
    {
      if (coin())
        r.go(std::move(pred) | ex::bulk(ex::par, sh, each<Shape, NE>{&r.t}));
      else
        r.go(std::move(pred) | ex::bulk_chunked(ex::par, sh, chunk<Shape, NE>{&r.t}));
    };
    switch (pick(4))
    {
    case 0:
      r.val = 0;
      b(ex::schedule(sch));
      break;
    case 1:
      r.val = 7;
      b(ex::schedule(sch) | ex::then([] { return token(7); }));
      break;
    case 2:
    {
      // by reference; the copy may throw
      touchy0 v(7, pick(3) == 2);
      r.copy_throws = v.throws;
      r.val         = 7;
      b(ex::schedule(sch) | ex::then([&v]() -> touchy0& { return v; }));
      break;
    }
    default:
    {
      workers w(1);
      unsigned k = pick(4);
      r.pre      = k == 0 ? ERROR : k == 1 ? STOPPED : VALUE;
      r.val      = 7;
      b(leaf(w, l, leaf_mode(pick(2)), r.pre, r.pre == ERROR ? 9 : 7) | ex::continues_on(sch));
      break;
    }
    }
  }

  // one bulk after another, and several values
  template <class Pool>
  void chain(Pool& p)
  {
    bulk_run<Pool> r(p);
    tally          t2;
    t2.here = r.t.here;
    t2.pool = r.t.pool;
    r.t.id = t2.id = 7;
    r.t.n          = long(pick(7));
    t2.n           = long(pick(7));
    r.val          = 7 + 8;
    auto sch       = p.get_scheduler();
    auto pred      = ex::just(token(7), token(8)) | ex::continues_on(sch);
    auto s         = std::move(pred) | ex::bulk_chunked(ex::par, int(r.t.n), chunk<int, true>{&r.t})
           | ex::then(
               [&](token a, token b)
               {
                 DSIM_CHECK(r.t.calls.load() == r.t.n && r.t.running.load() == 0, "unstructured", "bulk is not over");
                 if (coin())
                   return std::move(a);
                 (void) b;
                 return std::move(a);
               })
           | ex::bulk(ex::par, (unsigned long) t2.n, each<unsigned long, true>{&t2});
    r.val = 7;
    r.go(std::move(s));
    DSIM_CHECK(t2.calls.load() == t2.n, "lost-index", "%d of %ld indices of the second bulk were visited", t2.calls.load(), t2.n);
  }

  template <class Pool>
  void any_bulk(Pool& p)
  {
    switch (pick(6))
    {
    case 0: bulks<int, false>(p); break;
    case 1: bulks<int, true>(p); break;
    case 2: bulks<unsigned char, false>(p); break;
    case 3: bulks<signed char, true>(p); break;
    case 4: bulks<long, false>(p); break;
    default: chain(p); break;
    }
  }
}  // namespace

SCENARIO(own_schedule, 2)
{
  own_pool p(1 + pick(3), 1 + pick(4));
  if (pick(3) == 2)
    ordered(p);
  else
    schedules(p, 1 + pick(3));
}
SCENARIO(own_bulk, 5)
{
  unsigned const pars[] = {1, 2, 3, 4, 7, 32, 130, 256, 300};
  own_pool       p(1 + pick(3), pars[pick(9)]);
  if (coin())
    any_bulk(p);
  else
  {
    threads ts;
    ts.go([&] { any_bulk(p); });
    any_bulk(p);
  }
}
SCENARIO(asio_schedule, 1)
{
  asio_pool p(1 + pick(3));
  if (pick(3) == 2)
    ordered(p);
  else
    schedules(p, 1 + pick(2));
}
SCENARIO(asio_bulk, 3)
{
  asio_pool p(1 + pick(3));
  any_bulk(p);
}
