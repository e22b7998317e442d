// C03: stdexec::run_loop
#define NDEBUG 1  // the assertions in the code under test read its atomics and would order what it does not order itself
#include "common.hpp"
using namespace h;

namespace
{
  using sched_t = decltype(std::declval<ex::run_loop&>().get_scheduler());
  using plain_t = decltype(ex::schedule(std::declval<sched_t>()));
  using tok_e   = decltype(tok_env(ex::inplace_stop_token{}));
  using O       = op<plain_t, tok_e>;

  struct log_t
  {
    std::thread::id driver;
    int             running = 0;  // plain: tasks of one loop never overlap
    int             order   = 0;
  };
}  // namespace

// Several producers, one driver; finish() comes from elsewhere, early or late, once or twice.
SCENARIO(pushers, 4)
{
  auto     loop = std::make_unique<ex::run_loop>();
  unsigned np = 1 + pick(3), per = 1 + pick(4);
  unsigned how        = pick(4);
  bool     late_drive = coin();
  log_t    log;
  log.driver = std::this_thread::get_id();
  ex::inplace_stop_source stop;
  unsigned                stop_at = pick(3);  // 0: before anything, 1: concurrently, 2: never
  struct item
  {
    std::unique_ptr<ex::inplace_stop_source> none;
    int  order = -1;
    int  tid   = -1;
    int  kind  = 0;
  };
  std::vector<item> items(np * per);
  struct tagged
  {
    using receiver_concept = ex::receiver_tag;
    item*                 it;
    log_t*                log;
    std::atomic<int>*     left;
    ex::run_loop*         fin;
    ex::inplace_stop_token tok;
    void done(int k) noexcept
    {
      DSIM_CHECK(std::this_thread::get_id() == log->driver, "wrong-thread", "a run_loop task ran on a thread that is not in run()");
      DSIM_CHECK(it->kind == 0, "double-completion", "a run_loop operation completed twice");
      DSIM_CHECK(log->running++ == 0, "overlap", "tasks of one run_loop overlap");
      it->kind  = k;
      it->order = log->order++;
      log->running--;
      auto* l = left;
      auto* f = fin;
      if (l->fetch_sub(1, std::memory_order_acq_rel) == 1 && f)
        f->finish();
    }
    void set_value() noexcept { done(VALUE); }
    void set_stopped() noexcept { done(STOPPED); }
    auto get_env() const noexcept { return tok_env(tok); }
  };
  std::atomic<int> left{int(np * per)};
  bool             by_task = how == 0;
  if (stop_at == 0)
    stop.request_stop();
  using Op = ex::connect_result_t<plain_t, tagged>;
  struct box
  {
    Op o;
    box(ex::run_loop& l, tagged t)
      : o(ex::connect(ex::schedule(l.get_scheduler()), t))
    {}
  };
  std::vector<std::unique_ptr<box>> ops;
  for (unsigned i = 0; i < np * per; ++i)
    ops.push_back(std::make_unique<box>(*loop,
                                        tagged{&items[i], &log, &left, by_task ? loop.get() : nullptr, stop.get_token()}));
  std::atomic<int> nfin{0};
  bool             twice = coin();
  {
    threads prod;
    auto    produce = [&](unsigned k) {
      for (unsigned i = 0; i < per; ++i)
        ex::start(ops[k * per + i]->o);
      if (how == 2 && (k == 0 || twice))
        loop->finish();  // races with the other producers
    };
    if (how == 1)  // finish strictly after every start
    {
      prod.go([&] {
        {
          threads in;
          for (unsigned k = 0; k < np; ++k)
            in.go([&, k] { produce(k); });
        }
        loop->finish();
      });
    }
    else if (how == 3)  // everything, including finish, before run()
    {
      {
        threads in;
        for (unsigned k = 0; k < np; ++k)
          in.go([&, k] { produce(k); });
      }
      loop->finish();
    }
    else
      for (unsigned k = 0; k < np; ++k)
        prod.go([&, k] { produce(k); });
    if (stop_at == 1)
      prod.go([&] { stop.request_stop(); });
    loop->run();
    if (how == 1 || how == 0 || how == 3)
    {
      // every start() happened before finish(): nothing may be left
      DSIM_CHECK(left.load() == 0, "lost-task", "run() returned with %d operations started before finish() not executed", left.load());
      if (how != 0 || true)
        if (stop_at != 1)
          ;
      loop.reset();  // the loop may be destroyed as soon as run() returned
      dsim_cover("destroyed-right-after-run");
    }
    prod.join();
    if (loop)
    {
      loop->run();  // drains what lost the race against finish()
      DSIM_CHECK(left.load() == 0, "lost-task", "%d operations never executed", left.load());
      loop.reset();
    }
  }
  for (unsigned i = 0; i < np * per; ++i)
  {
    DSIM_CHECK(items[i].kind != 0, "lost-completion", "operation %u never completed", i);
    if (stop_at == 0)
      DSIM_CHECK(items[i].kind == STOPPED, "ignored-stop", "stop was requested before the start, yet the operation completed with %s", name(items[i].kind));
    if (stop_at == 2)
      DSIM_CHECK(items[i].kind == VALUE, "spurious-stop", "completed with %s though nobody requested stop", name(items[i].kind));
    if (i % per)
      DSIM_CHECK(items[i - 1].order < items[i].order, "order", "operations of one producer executed out of order");
  }
}

// Tasks that start more tasks from inside the loop, before and after finish().
SCENARIO(nested, 2)
{
  auto     loop  = std::make_unique<ex::run_loop>();
  unsigned depth = 1 + pick(4), np = 1 + pick(2);
  struct chain
  {
    ex::run_loop* loop;
    unsigned      left;
    std::atomic<int>* done;
    int           hits = 0;
    unsigned      fin_at;
    using R = struct chain_r
    {
      using receiver_concept = ex::receiver_tag;
      chain* c;
      void   set_value() noexcept { c->step(); }
      void   set_stopped() noexcept { dsim_fail("spurious-stop", "stopped without a stop request"); }
    };
    using Op = ex::connect_result_t<plain_t, R>;
    struct box
    {
      Op o;
      explicit box(chain* c)
        : o(ex::connect(ex::schedule(c->loop->get_scheduler()), R{c}))
      {}
    };
    std::unique_ptr<box> cur;
    void begin()
    {
      cur = std::make_unique<box>(this);
      ex::start(cur->o);
    }
    void step()
    {
      ++hits;
      if (left == fin_at)
        loop->finish();
      if (left-- == 0)
      {
        cur.reset();
        done->fetch_add(1);
        return;
      }
      begin();  // destroys the operation we are in, then starts the next one
    }
  };
  std::atomic<int>                    done{0};
  std::vector<std::unique_ptr<chain>> cs;
  bool from_task = coin();
  for (unsigned i = 0; i < np; ++i)
  {
    cs.push_back(std::make_unique<chain>());
    cs[i]->loop   = loop.get();
    cs[i]->left   = depth;
    cs[i]->done   = &done;
    cs[i]->fin_at = from_task && i == 0 ? pick(depth + 1) : ~0u;
  }
  // the first chain is started before anything can finish the loop
  threads t;
  for (unsigned i = 1; i < np; ++i)
    cs[i]->begin();
  if (from_task)
    cs[0]->begin();
  else
    t.go([&] {
      cs[0]->begin();
      loop->finish();
    });
  loop->run();
  DSIM_CHECK(done.load() == int(np), "lost-task", "run() returned while %d chains of tasks were unfinished", int(np) - done.load());
  loop.reset();
  for (auto& c: cs)
    DSIM_CHECK(c->hits == int(depth) + 1, "wrong-count", "chain ran %d steps, expected %u", c->hits, depth + 1);
}
