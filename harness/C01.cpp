// C01: the sender/receiver contract, on random expressions
#include "tree.hpp"
using namespace h;
using tree::any;

namespace
{
  struct made
  {
    tree::node n;
    tree::flags f;
  };
  void judge(outcome const & o, tree::model const & m, tree::world& W)
  {
    require_once(o, "the expression");
    DSIM_CHECK(m.allows(o.kind, o.value), "wrong-completion", "%s completed with %s(%d), allowed: %s", W.text.c_str(), name(o.kind), o.value,
               m.show().c_str());
    DSIM_CHECK(W.detached || W.log.running.load() == 0, "unstructured", "%d operations still run", W.log.running.load());
  }
  void world_and(void (*run)(tree::world&, int depth), int budget)
  {
    unsigned nw = 1 + pick(2), np = pick(3);
    if (np == 2 && pick(2))
      np = 1;
    tree::world W(nw, np, coin(), budget);
    run(W, 1 + int(pick(4)));
    W.settle();
  }

  template <class Env>
  void drive(tree::world& W, tree::node n, stop_box& src, Env e, bool may, bool will)
  {
    dsim_event(W.text.c_str(), may, will);
    auto o              = make_op(std::move(n.s), e, coin());
    o->out.structured   = W.detached ? nullptr : &W.log;
    unsigned    how     = pick(4);
    if (!may && !W.detached)
      src.dies_with(*o);
    threads     ts;
    if (may && how == 0)
      src.request_stop();
    else if (may && how == 1)
      ts.go([&] { src.request_stop(); });
    o->start();
    if (may && how == 2)
      src.request_stop();
    else if (will)
      src.request_stop();
    o->wait();
    ts.join();
    judge(o->out, n.m, W);
  }
  void stoppable(tree::world& W, int depth)
  {
    stop_box                src;
    bool                    may  = pick(3) != 0;
    bool                    will = may && pick(3) == 0;
    tree::node              n    = tree::make(W, {may, will}, depth);
    if (coin())
      drive(W, std::move(n), src, tok_env(src.get_token()), may, will);
    else
      drive(W, std::move(n), src, tok_env(tree::odd_token{src.get_token()}), may, will);
  }
  void plain(tree::world& W, int depth)
  {
    tree::node n = tree::make(W, {false, false}, depth);
    dsim_event(W.text.c_str(), 0, 0);
    if (coin())
    {
      auto o            = make_op(std::move(n.s), ex::env<>{}, coin());
      o->out.structured = W.detached ? nullptr : &W.log;
      o->start();
      o->wait();
      judge(o->out, n.m, W);
      return;
    }
    outcome o;
    try
    {
      auto v = ex::sync_wait(std::move(n.s));
      if (v)
        o.complete(VALUE, int_of(std::get<0>(*v)));
      else
        o.complete(STOPPED, 0);
    }
    catch (my_error const & e)
    {
      o.complete(ERROR, e.code);
    }
    judge(o, n.m, W);
  }
  // connected and destroyed without ever being started; or not even connected
  void unstarted(tree::world& W, int depth)
  {
    tree::node n = tree::make(W, {false, false}, depth);
    if (coin())
    {
      auto o = make_op(std::move(n.s), ex::env<>{}, false);
      DSIM_CHECK(o->out.count == 0, "early-completion", "completed before start");
    }
  }
}  // namespace

SCENARIO(stop, 6)
{
  world_and(stoppable, 10);
}
SCENARIO(plain, 2)
{
  world_and(plain, 10);
}
SCENARIO(unstarted, 1)
{
  world_and(unstarted, 8);
}
SCENARIO(deep, 1)
{
  world_and(
    [](tree::world& W, int d)
    {
      stoppable(W, d + 3);
    },
    24);
}
