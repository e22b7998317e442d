// C13: spawn_future
#include "common.hpp"
using namespace h;

namespace
{
  struct driver
  {
    ex::run_loop loop;
    std::thread  t;
    driver()
      : t([this] { loop.run(); })
    {}
    ~driver()
    {
      loop.finish();
      t.join();
    }
  };

  enum fate
  {
    DROP,       // the future is dropped
    CONNECT,    // connected, never started
    AWAIT,      // awaited without a stop token
    AWAIT_STOP  // awaited with a stop token on which stop may be requested
  };

  struct future_run
  {
    leaf_log                log;
    ex::inplace_stop_source src;
    bool                    external = false;  // a stop request from elsewhere may have reached it
    bool                    asked    = false;  // stop was requested on src
    int                     what     = 0;

    template <class L>
    void judge(outcome const & o, L const & l)
    {
      bool threw = l.throws && l.kind_ != STOPPED;  // storing the result failed
      require_once(o, "future");
      bool started = log.started.load() != 0;
      if (!started)
      {
        DSIM_CHECK(o.kind == STOPPED, "wrong-completion", "the work was refused but the future completed with %s", name(o.kind));
        return;
      }
      if (o.kind == STOPPED)
        DSIM_CHECK(l.kind_ == STOPPED || external || asked, "lost-result", "the future was stopped though nobody requested stop");
      else
        DSIM_CHECK(o.kind == (threw ? ERROR : l.kind_) && o.value == l.val + (threw ? 1000 : 0) && l.mode != L_HANG, "wrong-completion", "work sends %s %d, future completed with %s %d",
                   name(l.kind_), l.val, name(o.kind), o.value);
    }

    template <class Scope>
    void go(Scope& scope, workers& w, int id, bool stop_certain)
    {
      fate f    = fate(pick(4));
      bool hang = f == DROP || f == CONNECT || stop_certain;
      bool req  = f == AWAIT_STOP && coin();
      auto l    = any_leaf(w, log, id, hang || req);
      external |= stop_certain;
      switch (pick(4))
      {
      case 2: go2(scope, f, req, touchy_leaf{l.w, l.log, l.mode, l.kind_, l.val, coin()}); break;
      case 3:
        try
        {
          failed   = true;
          auto fut = ex::spawn_future(risky(owning(l), 31, true), scope.get_token());
          dsim_fail("lost-exception", "the exception thrown by connect did not reach the caller");
        }
        catch (my_error const & e)
        {
          DSIM_CHECK(e.code == 31, "wrong-error", "got %d", e.code);
        }
        break;
      default: go2(scope, f, req, l);
      }
    }
    bool failed = false;

    template <class Scope, class L>
    void go2(Scope& scope, fate f, bool req, L l)
    {
      threads t;
      {
        auto fut = ex::spawn_future(owning(l), scope.get_token());
        if (coin())
          dsim_point();
        switch (f)
        {
        case DROP: break;
        case CONNECT:
        {
          auto o = make_op(std::move(fut), ex::env<>{}, coin());
          if (coin())
            dsim_point();
          break;
        }
        case AWAIT:
        {
          auto o = make_op(std::move(fut), ex::env<>{}, coin());
          o->start();
          o->wait();
          judge(o->out, l);
          break;
        }
        case AWAIT_STOP:
        {
          auto o = make_op(std::move(fut), tok_env(src.get_token()), coin());
          asked  = req;
          unsigned when = pick(3);
          if (req && when == 0)
            src.request_stop();
          else if (req)
            t.go([&] { src.request_stop(); });
          o->start();
          if (req && when == 2)
            src.request_stop();
          o->wait();
          judge(o->out, l);
          break;
        }
        }
      }
      t.join();
    }
  };

  template <class Scope>
  void run()
  {
    driver   d;
    workers  w(1 + pick(2));
    auto*    scope = new Scope;
    leaf_log all;
    all.many   = true;
    bool stop  = std::is_same_v<Scope, ex::counting_scope> && coin();
    bool close = pick(4) == 3;
    unsigned n = 1 + pick(3);
    std::vector<std::unique_ptr<future_run>> fs;
    for (unsigned i = 0; i < n; ++i)
    {
      fs.push_back(std::make_unique<future_run>());
      fs.back()->log.up = &all;
    }
    threads ts, st;
    for (unsigned i = 1; i < n; ++i)
      ts.go([&, i] { fs[i]->go(*scope, w, int(i), stop); });
    if constexpr (std::is_same_v<Scope, ex::counting_scope>)
      if (stop)
        st.go([&] { scope->request_stop(); });
    if (close)
      scope->close();
    fs[0]->go(*scope, w, 0, stop);
    ts.join();
    st.join();
    auto o = make_op(scope->join(), ex::prop{ex::get_start_scheduler, d.loop.get_scheduler()}, coin());
    o->out.gone = &all;
    o->start();
    o->wait();
    delete scope;
    DSIM_CHECK(all.started.load() == all.completed.load(), "lost-completion", "%d started, %d completed", all.started.load(),
               all.completed.load());
    for (auto& f: fs)
      if (!close && !f->failed)
        DSIM_CHECK(f->log.started.load() == 1, "refused-while-open", "work was not started although the scope was never closed");
    for (auto& f: fs)
      DSIM_CHECK(f->log.connected.load() == f->log.destroyed.load(), "not-destroyed", "an operation state survived its scope");
  }
}  // namespace

SCENARIO(simple, 3)
{
  run<ex::simple_counting_scope>();
}
SCENARIO(counting, 3)
{
  run<ex::counting_scope>();
}
