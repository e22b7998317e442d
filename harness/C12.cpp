// C12: exec::async_scope
#include "common.hpp"
#include <exec/async_scope.hpp>
using namespace h;

namespace
{
  struct item
  {
    leaf_log log;
    bool     must = false;  // it was certainly started
  };

  struct world
  {
    static constexpr int N = 16;
    exec::async_scope*   scope = new exec::async_scope;
    workers&             w;
    leaf_log             all, spawned;
    item                 items[N];
    std::atomic<int>     used{0};
    bool                 hang;
    std::vector<std::shared_ptr<void>> keep;  // futures that outlive the scope
    std::mutex           keep_m;

    world(workers& w_, bool hang_)
      : w(w_)
      , hang(hang_)
    {
      all.many = spawned.many = true;
      spawned.up              = &all;
      for (auto& i: items)
        i.log.up = &all;
    }
    item* next()
    {
      int i = used.fetch_add(1, std::memory_order_relaxed);
      return i < N ? &items[i] : nullptr;
    }
    leaf_mode mode()
    {
      return leaf_mode(pick(hang ? 4 : 3));
    }
    template <class L>
    void judge(outcome const & o, L const & l, leaf_log const & log, bool stop_seen)
    {
      bool threw = l.throws && l.kind_ != STOPPED;  // storing the result failed
      require_once(o, "operation");
      DSIM_CHECK(log.started.load() == 1, "double-start", "started %d times", log.started.load());
      if (o.kind == STOPPED)
        DSIM_CHECK(l.kind_ == STOPPED || hang || stop_seen, "lost-result", "stopped though nobody requested stop");
      else
        DSIM_CHECK(o.kind == (threw ? ERROR : l.kind_) && o.value == l.val + (threw ? 1000 : 0), "wrong-completion",
                   "work sends %s %d%s, got %s %d", name(l.kind_), l.val, threw ? " (copying it throws)" : "", name(o.kind), o.value);
    }
    void use(int depth, bool stopping)
    {
      item* it = next();
      if (!it)
        return;
      switch (depth > 0 ? pick(2) : pick(8))
      {
      case 0:
        it->log.up = &spawned;
        it->must   = true;
        scope->spawn(leaf_sender<false, true>{&w, &it->log, mode(), pick(4) ? VALUE : STOPPED, 5} | ex::then([](token) noexcept {}));
        break;
      case 1:
        it->log.up = &spawned;
        it->must   = true;
        scope->spawn(leaf_sender<false, true>{&w, &it->log, mode(), VALUE, 5}
                     | ex::then(
                       [this, depth, stopping](token) noexcept
                       {
                         if (depth < 2 && coin())
                           use(depth + 1, stopping);
                       }));
        break;
      case 2:
      {
        auto l   = leaf_sender<>{&w, &it->log, mode(), 1 + int(pick(3)), 7};
        it->must = true;
        auto o   = make_op(scope->nest(l), ex::env<>{}, coin());
        o->start();
        o->wait();
        judge(o->out, l, it->log, stopping);
        break;
      }
      case 3:  // never started: must not count
      {
        auto n = scope->nest(leaf_sender<>{&w, &it->log, mode(), VALUE, 7});
        if (coin())
        {
          auto o = make_op(std::move(n), ex::env<>{}, coin());
          dsim_point();
        }
        break;
      }
      case 4:
      case 5:
      {
        auto l   = leaf_sender<>{&w, &it->log, mode(), 1 + int(pick(3)), 7};
        it->must = true;
        auto fut = scope->spawn_future(l);
        if (coin())
          dsim_point();
        if (coin())
        {
          ex::inplace_stop_source src;
          bool                    ask = pick(4) == 3;
          auto                    o   = make_op(std::move(fut), tok_env(src.get_token()), coin());
          threads                 t;
          if (ask)
            t.go([&] { src.request_stop(); });
          o->start();
          o->wait();
          judge(o->out, l, it->log, stopping || ask);
        }
        else if (coin())
        {
          auto o = make_op(std::move(fut), ex::env<>{}, coin());  // connected, never started
          dsim_point();
        }
        break;
      }
      case 7:  // connecting throws: nothing was added
      {
        int got = 0;
        try
        {
          switch (pick(3))
          {
          case 0: scope->spawn(risky(leaf_sender<false, true>{&w, &it->log, mode(), VALUE, 5} | ex::then([](token) noexcept {}), 31, true)); break;
          case 1:
          {
            auto fut = scope->spawn_future(risky(leaf_sender<>{&w, &it->log, mode(), VALUE, 5}, 31, true));
            break;
          }
          case 2:
          {
            auto o = make_op(scope->nest(risky(leaf_sender<>{&w, &it->log, mode(), VALUE, 5}, 31, true)), ex::env<>{}, coin());
            break;
          }
          }
        }
        catch (my_error const & e)
        {
          got = e.code;
        }
        DSIM_CHECK(got == 31, "lost-exception", "the exception thrown by connect did not reach the caller");
        break;
      }
      case 6:  // the future is dropped later, perhaps after the scope is gone
      {
        auto l   = leaf_sender<>{&w, &it->log, mode(), 1 + int(pick(3)), 7};
        it->must = true;
        auto p   = std::make_shared<decltype(scope->spawn_future(l))>(scope->spawn_future(l));
        std::lock_guard g(keep_m);
        keep.push_back(p);
        break;
      }
      }
    }
  };
}  // namespace

SCENARIO(scope, 5)
{
  workers  w(1 + pick(2));
  bool     hang = coin(), stopper = hang || coin();
  world    wd(w, hang);
  bool     late = coin();
  unsigned ns = pick(3), per = 1 + pick(2), ne = 1 + pick(2);
  threads  ts, st;
  if (!hang)
    for (unsigned i = pick(3); i-- > 0;)
      wd.use(0, stopper);
  if (stopper)
    st.go([&] { wd.scope->request_stop(); });
  for (unsigned k = 0; k < ns; ++k)
    ts.go(
      [&]
      {
        for (unsigned i = 0; i < per; ++i)
          wd.use(0, stopper);
      });
  if (late)
    ts.join();
  std::vector<std::shared_ptr<void>> keep;
  std::vector<outcome*>              outs;
  for (unsigned j = 0; j < ne; ++j)
  {
    auto o = make_op(wd.scope->on_empty(), ex::env<>{}, coin());
    if (late)
    {
      o->out.structured = &wd.all;
      o->out.gone       = &wd.spawned;
    }
    outs.push_back(&o->out);
    auto* p = o.get();
    keep.push_back(std::shared_ptr<void>(std::move(o)));
    p->start();
    if (!late && coin())
      wd.use(0, stopper);
  }
  for (auto* o: outs)
  {
    o->wait();
    DSIM_CHECK(o->count == 1 && o->kind == VALUE, "wrong-completion", "on_empty completed %d times with %s", o->count, name(o->kind));
  }
  st.join();
  if (!late)
  {
    ts.join();
    auto o            = make_op(wd.scope->on_empty(), ex::env<>{}, coin());
    o->out.structured = &wd.all;
    o->out.gone       = &wd.spawned;
    o->start();
    o->wait();
  }
  delete wd.scope;
  wd.keep.clear();
  for (int i = 0; i < world::N && i < wd.used.load(); ++i)
  {
    item& it = wd.items[i];
    DSIM_CHECK(it.log.started.load() == int(it.must), "lost-work", "use %d was started %d times", i, it.log.started.load());
    DSIM_CHECK(it.log.started.load() == it.log.completed.load(), "lost-completion", "use %d", i);
    DSIM_CHECK(it.log.connected.load() == it.log.destroyed.load(), "not-destroyed", "use %d left an operation state behind", i);
  }
}

// futures racing their own completion
SCENARIO(futures, 3)
{
  workers w(1 + pick(2));
  world   wd(w, coin());
  threads ts, st;
  bool    stopper = wd.hang || coin();
  unsigned n = 1 + pick(3);
  auto body_of = [&](int i, auto l)
  {
    leaf_log& log = wd.items[i].log;
    auto      fut = wd.scope->spawn_future(l);
    switch (pick(3))
    {
    case 0:
    {
      auto o = make_op(std::move(fut), ex::env<>{}, coin());
      o->start();
      o->wait();
      wd.judge(o->out, l, log, stopper);
      break;
    }
    case 1: dsim_point(); break;
    case 2:
    {
      auto o = make_op(std::move(fut), ex::env<>{}, false);
      dsim_point();
      break;
    }
    }
  };
  auto body = [&](int i)
  {
    leaf_log& log  = wd.items[i].log;
    auto      mode = wd.mode();
    int       kind = 1 + int(pick(3));
    if (pick(3) == 0)
      body_of(i, touchy_leaf{&w, &log, mode, kind, 10 + i, pick(2) != 0});
    else
      body_of(i, leaf_sender<>{&w, &log, mode, kind, 10 + i});
  };
  if (stopper)
    st.go([&] { wd.scope->request_stop(); });
  for (unsigned i = 1; i < n; ++i)
    ts.go([&, i] { body(int(i)); });
  body(0);
  ts.join();
  auto o            = make_op(wd.scope->on_empty(), ex::env<>{}, coin());
  o->out.structured = &wd.all;
  o->start();
  o->wait();
  st.join();
  delete wd.scope;
}
