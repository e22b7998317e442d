// C08: static_thread_pool
#include "common.hpp"
#include <exec/static_thread_pool.hpp>
using namespace h;

namespace
{
  using sched_t = decltype(std::declval<exec::static_thread_pool&>().get_scheduler());

  // the threads that do not belong to the pool
  struct outsiders
  {
    std::atomic<uint64_t> mask{0};
    void add()
    {
      mask.fetch_or(1ull << dsim_tid(), std::memory_order_relaxed);
    }
    bool has(int tid) const
    {
      return (mask.load(std::memory_order_relaxed) >> tid) & 1;
    }
  };

  sched_t some_scheduler(exec::static_thread_pool& pool)
  {
    if (pick(4) == 3)
      return pool.get_scheduler_on_thread(pick(4));
    return pool.get_scheduler();
  }

  void check_done(outcome const & o, outsiders const & out)
  {
    require_once(o, "schedule");
    DSIM_CHECK(!out.has(o.tid), "wrong-thread", "a task ran on T%d, which is not a thread of the pool", o.tid);
  }
}  // namespace

SCENARIO(pool_schedule, 4)
{
  unsigned                 nt = 1 + pick(3);
  exec::static_thread_pool pool{nt, exec::bwos_params{1 + pick(3), 1 + pick(3)}};
  unsigned                 nsub = 1 + pick(3), per = 1 + pick(4);
  std::atomic<int>         ran{0};
  outsiders                out;
  auto                     body = [&](int k)
  {
    out.add();
    auto sch = some_scheduler(pool);
    auto snd = [&](int i)
    {
      return ex::schedule(sch) | ex::then(
               [&, i]
               {
                 ran.fetch_add(1, std::memory_order_relaxed);
                 return i;
               });
    };
    using O = op<decltype(snd(0))>;
    std::vector<std::unique_ptr<O>> ops;
    for (unsigned i = 0; i < per; ++i)
      ops.push_back(make_op(snd(k * 100 + i), ex::env<>{}, coin()));
    for (auto& o: ops)
      o->start();
    unsigned i = 0;
    for (auto& o: ops)
    {
      o->wait();
      check_done(o->out, out);
      DSIM_CHECK(o->out.kind == VALUE && o->out.value == int(k * 100 + i), "wrong-completion", "got %s %d", name(o->out.kind),
                 o->out.value);
      ++i;
    }
  };
  {
    threads ts;
    for (unsigned k = 1; k < nsub; ++k)
      ts.go([&, k] { body(k); });
    body(0);
  }
  DSIM_CHECK(ran.load() == int(nsub * per), "lost-task", "ran %d", ran.load());
}

// tasks that schedule tasks: from inside the pool, with overflowing local queues
namespace
{
  struct tree
  {
    exec::static_thread_pool& pool;
    sched_t                   outer;
    int                       budget_depth;
    unsigned                  fan;
    bool                      fresh;  // use a scheduler obtained on the pool thread
    std::atomic<int>          left{0};
    std::atomic<int>          ran{0};
    int                       done = 0;
    outsiders*                out;

    struct node;
    struct fin
    {
      using receiver_concept = ex::receiver_tag;
      node* n;
      void  set_value() noexcept;
      void  set_stopped() noexcept
      {
        dsim_fail("wrong-completion", "schedule completed with stopped although nobody asked it to stop");
      }
    };
    struct node
    {
      using op_t = ex::connect_result_t<decltype(ex::schedule(std::declval<sched_t&>())), fin>;
      tree* t;
      int   depth;
      op_t  o;
      int   runs = 0;
      node(tree* tr, int d, sched_t s)
        : t(tr)
        , depth(d)
        , o(ex::connect(ex::schedule(s), fin{this}))
      {}
    };
    void spawn(int depth, sched_t s)
    {
      left.fetch_add(1, std::memory_order_relaxed);
      auto* n = new node(this, depth, s);
      ex::start(n->o);
    }
    void run(node* n)
    {
      if (n->runs++)
        dsim_fail("double-completion", "a task ran twice");
      DSIM_CHECK(!out->has(dsim_tid()), "wrong-thread", "a task ran outside the pool");
      ran.fetch_add(1, std::memory_order_relaxed);
      int d = n->depth;
      delete n;
      if (d > 0)
      {
        auto s = fresh ? pool.get_scheduler() : outer;
        for (unsigned i = 0; i < fan; ++i)
          spawn(d - 1, s);
      }
      if (left.fetch_sub(1, std::memory_order_acq_rel) == 1)
        dsim_latch_set(&done);
    }
  };
  void tree::fin::set_value() noexcept
  {
    n->t->run(n);
  }
}  // namespace

SCENARIO(pool_nested, 4)
{
  unsigned                 nt = 1 + pick(3);
  exec::static_thread_pool pool{nt, exec::bwos_params{1 + pick(3), 1 + pick(3)}};
  outsiders                out;
  out.add();
  unsigned depth = 1 + pick(3), fan = depth == 1 ? 1 + pick(6) : depth == 2 ? 1 + pick(3) : 1 + pick(2);
  tree     t{pool, some_scheduler(pool), int(depth), fan, coin()};
  t.out         = &out;
  unsigned tops = 1 + pick(2);
  t.left.store(1, std::memory_order_relaxed);
  for (unsigned i = 0; i < tops; ++i)
    t.spawn(depth, t.outer);
  if (t.left.fetch_sub(1, std::memory_order_acq_rel) != 1)
    dsim_latch_wait(&t.done);
  int per = 0, row = 1;
  for (unsigned d = 0; d <= depth; ++d, row *= fan)
    per += row;
  DSIM_CHECK(t.ran.load() == int(tops) * per, "lost-task", "%d tasks ran instead of %d", t.ran.load(), int(tops) * per);
}

// stop requests: only a stopped token may turn the completion into stopped
SCENARIO(pool_stop, 2)
{
  unsigned                 nt = 1 + pick(2);
  exec::static_thread_pool pool{nt, exec::bwos_params{1 + pick(3), 1 + pick(3)}};
  outsiders                out;
  out.add();
  ex::inplace_stop_source src, never;
  unsigned                n = 1 + pick(3);
  auto                    sch = some_scheduler(pool);
  bool                    pre = pick(3) == 0;
  if (pre)
    src.request_stop();
  auto s = ex::schedule(sch);
  using O = op<decltype(s), decltype(tok_env(src.get_token()))>;
  std::vector<std::unique_ptr<O>> ops;
  std::vector<char>               mine;
  for (unsigned i = 0; i < n; ++i)
  {
    mine.push_back(coin());
    ops.push_back(make_op(s, tok_env(mine[i] ? src.get_token() : never.get_token()), coin()));
  }
  threads t;
  bool    late = !pre && coin();
  if (late)
    t.go(
      [&]
      {
        out.add();
        src.request_stop();
      });
  for (auto& o: ops)
    o->start();
  for (unsigned i = 0; i < n; ++i)
  {
    ops[i]->wait();
    auto& o = ops[i]->out;
    check_done(o, out);
    if (o.kind == STOPPED)
      DSIM_CHECK(mine[i] && (pre || late), "spurious-stop", "an operation whose stop token was never triggered completed with stopped");
    else
      DSIM_CHECK(!(mine[i] && pre), "stop-ignored", "an operation started with a stopped token completed with a value");
  }
}
