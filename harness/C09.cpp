// C09: parallel_scheduler: default backend (a static_thread_pool) and replaced backends
#ifndef PART
#  define PART 0  // C09_1.cpp and C09_2.cpp define others: the scenarios are compiled in parallel
#endif
#include "common.hpp"
#include "model.hpp"
#include <stdexec/execution.hpp>
#include <cstring>
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
using namespace h;
namespace scr = ex::parallel_scheduler_replacement;

namespace
{
  constexpr int MAXN = 64;
  struct tally
  {
    int              hits[MAXN] = {};  // plain: two invocations of one index race
    std::atomic<int> calls{0}, running{0};
    int              last = -1;
    int              n    = 0;
    bool             seq  = false;
    int              id   = 0;
    void enter()
    {
      int r = running.fetch_add(1, std::memory_order_relaxed) + 1;
      if (seq)
        DSIM_CHECK(r == 1, "parallel-sequenced", "two invocations of a sequenced bulk overlap");
    }
    void leave()
    {
      running.fetch_sub(1, std::memory_order_release);
    }
    void one(long i, token& t)
    {
      DSIM_CHECK(i >= 0 && i < n, "bad-index", "bulk of %d invoked with index %ld", n, i);
      DSIM_CHECK(t.intact(id), "payload-corrupt", "the bulk function received a damaged value");
      hits[i]++;
      calls.fetch_add(1, std::memory_order_relaxed);
      if (seq)
      {
        DSIM_CHECK(i == last + 1, "order", "sequenced bulk: index %ld after %d", i, last);
        last = int(i);
      }
    }
  };
  template <class Shape>
  struct each
  {
    tally* t;
    void   operator()(Shape i, token& v) const noexcept
    {
      t->enter();
      if (pick(4) == 0)
        dsim_point();
      t->one(long(i), v);
      t->leave();
    }
  };
  template <class Shape>
  struct chunk
  {
    tally* t;
    void   operator()(Shape b, Shape e, token& v) const noexcept
    {
      t->enter();
      DSIM_CHECK(b < e || t->n == 0, "bad-chunk", "chunk [%ld, %ld)", long(b), long(e));
      for (Shape i = b; i != e; ++i)
        t->one(long(i), v);
      t->leave();
    }
  };

  // stop: 0 never, 1 may be requested (visible to bulk), 2 may be requested with a foreign token
  struct want
  {
    int      pre   = VALUE;  // how the predecessor completes
    bool     stop  = false;  // stop is (possibly) requested
    int      fail  = VALUE;  // how the backend completes
  };
  void judge(outcome const & o, tally const & t, want const & w)
  {
    require_once(o, "bulk");
    DSIM_CHECK(t.running.load(std::memory_order_acquire) == 0, "unstructured", "bulk completed while its function was running");
    if (o.kind == STOPPED && (w.stop || w.pre == STOPPED || w.fail == STOPPED))
    {
      for (int i = 0; i < t.n; ++i)
        DSIM_CHECK(t.hits[i] <= 1, "index-twice", "index %d of %d ran %d times", i, t.n, t.hits[i]);
      return;
    }
    if (w.pre != VALUE)
    {
      DSIM_CHECK(o.kind == w.pre && (w.pre == STOPPED || o.value == t.id), "wrong-completion",
                 "the predecessor sent %s, bulk completed with %s %d", name(w.pre), name(o.kind), o.value);
      DSIM_CHECK(t.calls.load() == 0, "ran-without-value", "the bulk function ran %d times though its predecessor sent %s",
                 t.calls.load(), name(w.pre));
      return;
    }
    if (w.fail == ERROR)
    {
      DSIM_CHECK(o.kind == ERROR && o.value == 777, "wrong-completion", "the backend failed, bulk completed with %s %d", name(o.kind), o.value);
      return;
    }
    for (int i = 0; i < t.n; ++i)
      DSIM_CHECK(t.hits[i] == 1, t.hits[i] ? "index-twice" : "index-lost", "index %d of %d ran %d times", i, t.n, t.hits[i]);
    DSIM_CHECK(o.kind == VALUE && o.value == t.id, "wrong-completion", "bulk completed with %s %d, expected value %d", name(o.kind), o.value, t.id);
  }

  void shape_it(tally& t, int id)
  {
    static const int sizes[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 0, 40};
    t.n  = sizes[pick(14)];
    t.id = id;
  }

  // runs s with the given environment; 'stopper' (if any) requests stop meanwhile
  template <class S, class Env>
  void go(S s, Env env, tally& t, want w, ex::inplace_stop_source* src, threads& ts)
  {
    if (pick(8) == 0)
    {
      // connected, but never started
      auto o = make_op(std::move(s), env, false);
      return;
    }
    auto o = make_op(std::move(s), env, coin());
    if (src && coin())
      ts.go([src] { src->request_stop(); });
    else if (src)
      src->request_stop();
    o->start();
    o->wait();
    judge(o->out, t, w);
    ts.join();
  }
  template <class S>
  void run_it(S s, tally& t, want w)
  {
    ex::inplace_stop_source src;
    threads                 ts;
    switch (pick(5))
    {
    case 0:
      w.stop = true;
      go(std::move(s), tok_env(src.get_token()), t, w, &src, ts);
      break;
    case 1:
      w.stop = true;
      go(std::move(s), tok_env(tree::odd_token{src.get_token()}), t, w, &src, ts);
      break;
    case 2: go(std::move(s), tok_env(src.get_token()), t, w, nullptr, ts); break;
    default: go(std::move(s), ex::env<>{}, t, w, nullptr, ts);
    }
  }
  template <class Shape, class Pred>
  void variants(Pred pred, tally& t, want w)
  {
    Shape n = Shape(t.n);
    switch (pick(6))
    {
    case 0: run_it(pred | ex::bulk(ex::par, n, each<Shape>{&t}), t, w); break;
    case 1: run_it(pred | ex::bulk_unchunked(ex::par, n, each<Shape>{&t}), t, w); break;
    case 2: run_it(pred | ex::bulk_chunked(ex::par, n, chunk<Shape>{&t}), t, w); break;
    case 3:
      t.seq = true;
      run_it(pred | ex::bulk(ex::seq, n, each<Shape>{&t}), t, w);
      break;
    case 4:
      t.seq = true;
      run_it(pred | ex::bulk_unchunked(ex::seq, n, each<Shape>{&t}), t, w);
      break;
    case 5: run_it(pred | ex::bulk_chunked(ex::par_unseq, n, chunk<Shape>{&t}), t, w); break;
    }
  }
  template <class Pred>
  void shapes(Pred pred, tally& t, want w)
  {
    if (coin())
      variants<int>(std::move(pred), t, w);
    else
      variants<std::size_t>(std::move(pred), t, w);
  }

  // plain schedule()
  template <class Sch>
  void plain(Sch sch)
  {
    std::optional<ex::inplace_stop_source> src{std::in_place};
    threads                 ts;
    int                     me  = dsim_tid();
    auto                    run = [&](auto env, bool stop, bool before)
    {
      auto o = make_op(ex::schedule(sch) | ex::then([] { return token(5); }), env, coin());
      if (pick(8) == 0)
        return;
      if (!stop && !before)
      {
        // nothing may refer to the stop source once the operation completes
        o->on_done     = [](void* p) { static_cast<std::optional<ex::inplace_stop_source>*>(p)->reset(); };
        o->on_done_arg = &src;
      }
      if (before)
        src->request_stop();
      else if (stop)
        ts.go([&] { src->request_stop(); });
      o->start();
      o->wait();
      require_once(o->out, "schedule");
      if (before)
        DSIM_CHECK(o->out.kind == STOPPED, "stop-ignored", "stop was requested before start(), but schedule completed with %s", name(o->out.kind));
      else if (!stop)
        DSIM_CHECK(o->out.kind == VALUE && o->out.value == 5, "wrong-completion", "schedule completed with %s", name(o->out.kind));
      else
        DSIM_CHECK(o->out.kind != ERROR, "wrong-completion", "schedule completed with an error");
      if (o->out.kind == VALUE)
        DSIM_CHECK(o->out.tid != me, "wrong-thread", "schedule() of the default backend completed on the calling thread");
      ts.join();
    };
    switch (pick(6))
    {
    case 0: run(tok_env(src->get_token()), true, coin()); break;
    case 1: run(tok_env(tree::odd_token{src->get_token()}), true, coin()); break;
    case 2: run(tok_env(src->get_token()), false, false); break;
    case 3: run(tok_env(tree::odd_token{src->get_token()}), false, false); break;
    default: run(ex::env<>{}, false, false);
    }
  }

  auto no_backend() -> std::shared_ptr<scr::parallel_scheduler_backend>
  {
    return nullptr;
  }
}  // namespace

#if PART == 0
// the default backend, found by several threads, possibly at the same time
SCENARIO(default_backend, 6)
{
  unsigned hw = 1 + pick(3);
  dsim_hw_threads(hw);
  {
    unsigned nsub = 1 + pick(hw == 3 ? 2 : 3), per = 1 + pick(2);
    std::optional<ex::parallel_scheduler> got[3];
    auto                                  body = [&](int k)
    {
      auto sch = ex::get_parallel_scheduler();
      got[k].emplace(sch);
      for (unsigned i = 0; i < per; ++i)
      {
        if (pick(3) == 0)
        {
          plain(sch);
          continue;
        }
        tally t;
        shape_it(t, 10 * k + int(i));
        shapes(ex::schedule(sch) | ex::then([id = t.id] { return token(id); }), t, want{});
      }
    };
    {
      threads ts;
      for (unsigned k = 1; k < nsub; ++k)
        ts.go([&, k] { body(int(k)); });
      body(0);
    }
    for (unsigned k = 1; k < nsub; ++k)
      DSIM_CHECK(*got[0] == *got[k], "two-backends", "two calls of get_parallel_scheduler() returned schedulers of different contexts");
    DSIM_CHECK(ex::get_parallel_scheduler() == *got[0], "two-backends", "get_parallel_scheduler() changed its mind");
  }
  scr::set_parallel_scheduler_backend(&no_backend);
}

#elif PART == 1
// a predecessor completing somewhere, transferred to the parallel scheduler
SCENARIO(transfer, 3)
{
  dsim_hw_threads(1 + pick(2));
  {
    workers  w(1);
    leaf_log log;
    auto     sch = ex::get_parallel_scheduler();
    tally    t;
    shape_it(t, 7);
    want k;
    k.pre     = 1 + int(pick(3));
    auto pred = leaf(w, log, leaf_mode(pick(2)), k.pre, 7) | ex::continues_on(sch);
    shapes(std::move(pred), t, k);
  }
  scr::set_parallel_scheduler_backend(&no_backend);
}

// work scheduled from inside the pool, and two bulks in a row
SCENARIO(nested, 2)
{
  dsim_hw_threads(1 + pick(3));
  {
    auto  sch = ex::get_parallel_scheduler();
    tally a, b;
    shape_it(a, 3);
    shape_it(b, 3);
    auto first = ex::schedule(sch) | ex::then([] { return token(3); }) | ex::bulk(ex::par, a.n, each<int>{&a});
    bool in    = coin();
    if (in)
    {
      // an operation started by a task of the pool itself
      auto inner = make_op(ex::schedule(ex::get_parallel_scheduler()) | ex::then([] { return token(3); })
                             | ex::bulk_chunked(ex::par, b.n, chunk<int>{&b}),
                           ex::env<>{}, coin());
      auto o     = make_op(std::move(first)
                         | ex::then(
                           [&](token t)
                           {
                             inner->start();
                             return t;
                           }),
                       ex::env<>{}, coin());
      o->start();
      o->wait();
      inner->wait();
      judge(o->out, a, want{});
      judge(inner->out, b, want{});
    }
    else
    {
      auto o = make_op(std::move(first) | ex::bulk_unchunked(ex::par, b.n, each<int>{&b}), ex::env<>{}, coin());
      o->start();
      o->wait();
      judge(o->out, a, want{});
      judge(o->out, b, want{});
    }
  }
  scr::set_parallel_scheduler_backend(&no_backend);
}

#elif PART == 2
// ---------------------------------------------------------------- a replaced backend
namespace
{
  struct my_backend : scr::parallel_scheduler_backend
  {
    workers*         w;
    int              mood;  // 0: honest, ERROR, STOPPED
    std::atomic<int> live{0};
    my_backend(workers* w_, int m)
      : w(w_)
      , mood(m)
    {}

    struct task : job
    {
      my_backend*                   b;
      scr::receiver_proxy*          r    = nullptr;
      scr::bulk_item_receiver_proxy* bulk = nullptr;
      std::span<std::byte>          mem;
      std::size_t                   from = 0, to = 0;
      bool                          chunked = false;
      struct shared
      {
        std::atomic<int> left;
        bool             stop = false;
      }* sh = nullptr;
    };
    // the storage belongs to the backend until it completes
    static void paint(std::span<std::byte> s)
    {
      for (std::size_t i = 0; i < s.size(); ++i)
        s[i] = std::byte(0xA5 ^ i);
    }
    static void inspect(std::span<std::byte> s)
    {
      for (std::size_t i = 0; i < s.size(); ++i)
        DSIM_CHECK(s[i] == std::byte(0xA5 ^ i), "scratch-overwritten", "byte %zu of the storage lent to the backend changed", i);
    }
    void end(scr::receiver_proxy& r)
    {
      // once its stop token says so the backend may complete with stopped
      auto tok = r.template try_query<ex::inplace_stop_token>(ex::get_stop_token);
      live.fetch_sub(1, std::memory_order_relaxed);
      if (mood == ERROR)
        r.set_error(std::make_exception_ptr(my_error{777}));
      else if (mood == STOPPED || (tok && tok->stop_requested() && coin()))
        r.set_stopped();
      else
        r.set_value();
    }
    static void run(job* j)
    {
      auto* t = static_cast<task*>(j);
      if (!t->bulk)
      {
        auto* r = t->r;
        auto* b = t->b;
        inspect(t->mem);
        delete t;
        b->end(*r);
        return;
      }
      if (t->chunked)
      {
        if (t->from < t->to)
          t->bulk->execute(t->from, t->to);
      }
      else
        for (std::size_t i = t->from; i < t->to; ++i)
          t->bulk->execute(i, i + 1);
      auto  mem = t->mem;
      auto* sh  = t->sh;
      auto* r   = t->bulk;
      auto* b   = t->b;
      delete t;
      if (sh->left.fetch_sub(1, std::memory_order_acq_rel) == 1)
      {
        inspect(mem);
        delete sh;
        b->end(*r);
      }
    }
    void schedule(scr::receiver_proxy& r, std::span<std::byte> s) noexcept override
    {
      live.fetch_add(1, std::memory_order_relaxed);
      paint(s);
      if (pick(4) == 0)
        return end(r);
      auto* t = new task;
      t->run  = &run;
      t->b    = this;
      t->r    = &r;
      t->mem  = s;
      w->post(t);
    }
    void bulk(std::size_t n, scr::bulk_item_receiver_proxy& r, std::span<std::byte> s, bool chunked)
    {
      live.fetch_add(1, std::memory_order_relaxed);
      paint(s);
      if (n == 0)
        return end(r);
      // any partition
      std::vector<std::size_t> cut{0};
      for (std::size_t i = 1; i < n; ++i)
        if (pick(3) == 0)
          cut.push_back(i);
      cut.push_back(n);
      auto* sh = new task::shared{};
      int   k  = int(cut.size()) - 1;
      sh->left.store(k);
      std::vector<task*> all;
      for (int i = 0; i < k; ++i)
      {
        auto* t    = new task;
        t->run     = &run;
        t->b       = this;
        t->bulk    = &r;
        t->mem     = s;
        t->from    = cut[i];
        t->to      = cut[i + 1];
        t->chunked = chunked;
        t->sh      = sh;
        all.push_back(t);
      }
      for (auto* t: all)
      {
        if (pick(8) == 0)
          run(t);
        else
          w->post(t);
      }
    }
    void schedule_bulk_chunked(std::size_t n, scr::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override
    {
      bulk(n, r, s, true);
    }
    void schedule_bulk_unchunked(std::size_t n, scr::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override
    {
      bulk(n, r, s, false);
    }
  };
  workers*         the_workers = nullptr;
  int              the_mood    = 0;
  std::atomic<int> made{0};
  auto             my_factory() -> std::shared_ptr<scr::parallel_scheduler_backend>
  {
    made.fetch_add(1);
    return std::make_shared<my_backend>(the_workers, the_mood);
  }
  auto inline_factory() -> std::shared_ptr<scr::parallel_scheduler_backend>;
}  // namespace

SCENARIO(replaced, 4)
{
  workers  w(1 + pick(2));
  leaf_log log;
  the_workers = &w;
  static const int moods[] = {0, 0, 0, ERROR, STOPPED};
  the_mood                 = moods[pick(5)];
  made.store(0);
  scr::set_parallel_scheduler_backend(&my_factory);
  {
    auto sch = ex::get_parallel_scheduler();
    DSIM_CHECK(sch == ex::get_parallel_scheduler() && made.load() == 1, "two-backends", "the replaced backend was made %d times", made.load());
    want k;
    k.fail = the_mood ? the_mood : VALUE;
    if (pick(3) == 0)
    {
      ex::inplace_stop_source src;
      threads                 ts;
      auto                    run = [&](auto env, int when)
      {
        auto o = make_op(ex::schedule(sch) | ex::then([] { return token(5); }), env, coin());
        if (pick(8) == 0)
          return;
        if (when == 2)
          src.request_stop();
        if (when == 1)
          ts.go([&] { src.request_stop(); });
        o->start();
        o->wait();
        require_once(o->out, "schedule");
        if (when == 2)
          DSIM_CHECK(o->out.kind == STOPPED, "stop-ignored", "stop was requested before start(), but schedule completed with %s",
                     name(o->out.kind));
        else if (when == 0)
          DSIM_CHECK(o->out.kind == k.fail, "wrong-completion", "the backend completed with %s, schedule with %s", name(k.fail), name(o->out.kind));
        ts.join();
      };
      switch (pick(4))
      {
      case 0: run(ex::env<>{}, 0); break;
      case 1: run(tok_env(src.get_token()), int(pick(3))); break;
      case 2: run(tok_env(tree::odd_token{src.get_token()}), int(pick(3))); break;
      case 3:
      {
        // waits for the stop request to arrive in the backend
        auto o = make_op(ex::schedule(sch), tok_env(tree::odd_token{src.get_token()}), coin());
        o->start();
        o->wait();
        require_once(o->out, "schedule");
        break;
      }
      }
    }
    else
    {
      tally t;
      shape_it(t, 6);
      if (k.fail == VALUE && coin())
      {
        k.pre = 1 + int(pick(3));
        shapes(leaf(w, log, leaf_mode(pick(2)), k.pre, 6) | ex::continues_on(sch), t, k);
      }
      else if (k.fail != ERROR && k.fail != STOPPED)
        shapes(ex::schedule(sch) | ex::then([] { return token(6); }), t, k);
    }
  }
  scr::set_parallel_scheduler_backend(&no_backend);
  bool threw = false;
  try
  {
    (void) ex::get_parallel_scheduler();
  }
  catch (...)
  {
    threw = true;
  }
  DSIM_CHECK(threw, "no-backend", "get_parallel_scheduler() returned though there is no backend");
}

// replacing the backend while others look for it
SCENARIO(replace_race, 2)
{
  workers w(1);
  dsim_hw_threads(1);
  the_workers = &w;
  the_mood    = 0;
  made.store(0);
  {
    std::optional<ex::parallel_scheduler> a, b;
    {
      threads ts;
      ts.go([&] { a.emplace(ex::get_parallel_scheduler()); });
      scr::set_parallel_scheduler_backend(&my_factory);
      b.emplace(ex::get_parallel_scheduler());
    }
    auto c = ex::get_parallel_scheduler();
    DSIM_CHECK(c == *b, "replacement-lost", "the backend that was set is not the one found afterwards");
  }
  scr::set_parallel_scheduler_backend(&no_backend);
}
#endif
