// C11: simple_counting_scope, counting_scope, associate, spawn
#include "common.hpp"
using namespace h;

namespace
{
  template <class Scope>
  constexpr bool stops = std::is_same_v<Scope, ex::counting_scope>;

  struct item
  {
    leaf_log log;
    uint64_t before = 0, after = 0;  // the attempt to associate lies between these
    int      verdict = -1;           // 1 associated, 0 refused, -1 not tried or not known
  };

  template <class Scope>
  struct world
  {
    static constexpr int N = 16;
    Scope*               scope;
    workers&             w;
    leaf_log             all;
    item                 items[N];
    std::atomic<int>     used{0};
    bool                 hang;  // stop is certain to be requested
    ex::inplace_stop_source outer;
    std::atomic<int>     ran{0};

    world(workers& w_, bool hang_)
      : scope(new Scope)
      , w(w_)
      , hang(hang_)
    {
      all.many = true;
      for (auto& i: items)
        i.log.up = &all;
    }
    item* next()
    {
      int i = used.fetch_add(1, std::memory_order_relaxed);
      return i < N ? &items[i] : nullptr;
    }
    auto leaf_for(item& it)
    {
      leaf_mode m = stops<Scope> && hang ? leaf_mode(pick(4)) : leaf_mode(pick(3));
      return owning(leaf_sender<false, true>{&w, &it.log, m, pick(4) ? VALUE : STOPPED, 5});
    }
    void decide(item& it, int verdict)
    {
      it.after   = dsim_seq();
      it.verdict = verdict;
    }
    // one use of the scope by the calling thread
    void use(int depth)
    {
      item* it = next();
      if (!it)
        return;
      auto tok   = scope->get_token();
      it->before = dsim_seq();
      switch (depth > 0 ? pick(2) : pick(7))
      {
      case 0:
      case 5:
        ex::spawn(leaf_for(*it) | ex::then([](token) noexcept {}), tok);
        decide(*it, it->log.started.load());
        break;
      case 1:  // work that itself uses the scope it belongs to
        ex::spawn(leaf_for(*it)
                    | ex::then(
                      [this, depth](token) noexcept
                      {
                        ran.fetch_add(1, std::memory_order_relaxed);
                        if (coin())
                          use(depth + 1);
                      }),
                  tok);
        decide(*it, it->log.started.load());
        break;
      case 2:
      {
        auto s = ex::associate(leaf_for(*it), scope->get_token());
        auto o = make_op(std::move(s), tok_env(outer.get_token()), coin());
        if (coin())
          dsim_point();
        o->start();
        int v = it->log.started.load();
        decide(*it, v);
        o->wait();
        require_once(o->out, "associate");
        if (!v)
          DSIM_CHECK(o->out.kind == STOPPED, "wrong-completion", "an unassociated sender completed with %s", name(o->out.kind));
        else
          DSIM_CHECK(o->out.kind == it->log.last, "wrong-completion", "child completed with %s, associate with %s", name(it->log.last),
                     name(o->out.kind));
        break;
      }
      case 3:  // associated but never started; copied, moved
      {
        auto s = ex::associate(leaf_for(*it), scope->get_token());
        it->after = dsim_seq();
        auto c = s;
        auto m = std::move(s);
        dsim_point();
        if (coin())
        {
          auto o = make_op(std::move(c), ex::env<>{}, coin());  // connected, perhaps not started
          if (coin() && !hang)
          {
            o->start();
            o->wait();
            require_once(o->out, "associate");
          }
        }
        break;
      }
      case 6:  // connecting throws: nothing may be left behind
      {
        int got = 0, what = pick(2);
        try
        {
          auto bad = risky(leaf_for(*it), 31, true);
          if (what)
            ex::spawn(std::move(bad) | ex::then([](token) noexcept {}), tok);
          else
          {
            auto o = make_op(ex::associate(std::move(bad), scope->get_token()), ex::env<>{}, coin());
          }
        }
        catch (my_error const & e)
        {
          got = e.code;
        }
        // a refused sender is not connected
        if (what)
          DSIM_CHECK(got == 31, "lost-exception", "the exception thrown by connect did not reach the caller of spawn");
        break;
      }
      case 4:
      {
        auto a  = tok.try_associate();
        bool ok = bool(a);
        decide(*it, ok);
        item*    it2 = next();
        uint64_t at  = dsim_seq();
        auto     b   = a.try_associate();
        if (it2 && ok)
        {
          it2->before = at;
          decide(*it2, bool(b));
        }
        if (!ok)
          DSIM_CHECK(!b, "associated-after-close", "an empty association produced an association");
        dsim_point();
        break;
      }
      }
    }
    // attempts that were over before 'closing' began succeed, attempts after 'closed' fail
    void judge(uint64_t closing, uint64_t closed)
    {
      for (int i = 0; i < N && i < used.load(); ++i)
      {
        item& it = items[i];
        if (it.verdict == 1)
          DSIM_CHECK(it.before <= closed, "associated-after-close", "use %d was accepted after the scope was closed", i);
        if (it.verdict == 0)
          DSIM_CHECK(it.after >= closing, "refused-while-open", "use %d was refused while the scope was open", i);
        DSIM_CHECK(it.log.started.load() == it.log.completed.load(), "lost-completion", "use %d started %d times and completed %d times", i,
                   it.log.started.load(), it.log.completed.load());
        DSIM_CHECK(it.log.connected.load() == it.log.destroyed.load(), "not-destroyed", "use %d left an operation state behind", i);
        DSIM_CHECK(it.log.started.load() <= 2, "double-start", "use %d", i);
      }
    }
  };

  // what drives the schedulers that joins complete on
  struct driver
  {
    ex::run_loop loop;
    std::thread  t;
    driver()
      : t([this] { loop.run(); })
    {}
    ~driver()
    {
      loop.finish();
      t.join();
    }
  };

  template <class W, class Env>
  void start_join(W& wd, std::vector<std::shared_ptr<void>>& keep, std::vector<outcome*>& outs, Env e)
  {
    auto o = make_op(wd.scope->join(), e, coin());
    o->out.gone = &wd.all;
    outs.push_back(&o->out);
    auto* p = o.get();
    keep.push_back(std::shared_ptr<void>(std::move(o)));
    p->start();
  }

  template <class Scope>
  void run_scope()
  {
    driver   d;
    workers  w(1 + pick(2));
    bool     hang = stops<Scope> && coin();
    world<Scope> wd(w, hang);
    unsigned ns = pick(3), per = 1 + pick(2), nj = 1 + pick(2);
    bool     late  = coin();  // joining only after every use by the threads is over
    unsigned mode  = pick(3);   // 1: close() too
    uint64_t closing = ~0ull, closed = ~0ull;
    unsigned before  = pick(3);
    for (unsigned i = 0; i < before; ++i)
      if (!hang)
        wd.use(0);
    threads ts;
    for (unsigned k = 0; k < ns; ++k)
      ts.go(
        [&]
        {
          for (unsigned i = 0; i < per; ++i)
            wd.use(0);
        });
    auto stop = [&]
    {
      if constexpr (stops<Scope>)
        wd.scope->request_stop();
      if (coin())
        wd.outer.request_stop();
    };
    bool stop_first = hang && coin();
    bool stopper    = coin();
    threads st;
    if (hang)
      st.go([&] { stop(); wd.outer.request_stop(); });
    else if (stopper)
      st.go([&] { stop(); });
    if (mode == 1)
    {
      closing = dsim_seq();
      wd.scope->close();
      closed = dsim_seq();
      if (coin())
        wd.use(0);
    }
    if (late)
      ts.join();
    if (stop_first)
      st.join();
    std::vector<std::shared_ptr<void>> keep;
    std::vector<outcome*>              outs;
    for (unsigned j = 0; j < nj; ++j)
    {
      uint64_t at = dsim_seq();
      if (at < closing)
        closing = at;  // joining an idle scope closes it
      unsigned how = pick(4);
      if (how < 2)
        start_join(wd, keep, outs, ex::prop{ex::get_start_scheduler, d.loop.get_scheduler()});
      else if (how == 3)  // the scheduler may report that it was stopped; the join counts all the same
        start_join(wd, keep, outs,
                   ex::env{ex::prop{ex::get_start_scheduler, d.loop.get_scheduler()}, tok_env(wd.outer.get_token())});
      else
        start_join(wd, keep, outs, ex::prop{ex::get_start_scheduler, ex::inline_scheduler{}});
      if (coin() && !late)
        wd.use(0);
    }
    for (auto* o: outs)
    {
      o->wait();
      DSIM_CHECK(o->count == 1 && (o->kind == VALUE || (o->kind == STOPPED && wd.outer.stop_requested())), "wrong-completion",
                 "join completed with %s", name(o->kind));
      uint64_t s = dsim_seq();
      if (s < closed)
        closed = s;
    }
    int started = wd.all.started.load();
    DSIM_CHECK(wd.all.alive.load() == 0, "unstructured", "%d operations exist after join", wd.all.alive.load());
    if (late)
    {
      st.join();
      delete std::exchange(wd.scope, nullptr);
    }
    else
      ts.join(), st.join();
    DSIM_CHECK(wd.all.started.load() == started, "started-after-join", "an operation was started after the scope was joined");
    delete wd.scope;
    wd.judge(closing, closed);
  }
}  // namespace

SCENARIO(simple, 3)
{
  run_scope<ex::simple_counting_scope>();
}
SCENARIO(counting, 4)
{
  run_scope<ex::counting_scope>();
}
// the last operation of the scope ends while join is being started; the scope dies at once
SCENARIO(last_out, 2)
{
  workers w(1 + pick(2));
  auto*   scope = new ex::simple_counting_scope;
  leaf_log log;
  log.many = true;
  unsigned n = 1 + pick(3);
  for (unsigned i = 0; i < n; ++i)
    ex::spawn(leaf_sender<false, true>{&w, &log, L_REMOTE, VALUE, 1} | ex::then([](token) noexcept {}), scope->get_token());
  auto o = make_op(scope->join(), ex::prop{ex::get_start_scheduler, ex::inline_scheduler{}}, coin());
  o->out.gone = &log;
  o->start();
  o->wait();
  delete scope;
  DSIM_CHECK(log.started.load() == int(n) && log.destroyed.load() == int(n) && log.completed.load() == int(n), "lost-completion",
             "%d started, %d completed, %d destroyed of %u", log.started.load(), log.completed.load(), log.destroyed.load(), n);
}
