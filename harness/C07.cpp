// C07: exec::split and exec::ensure_started
#include "common.hpp"
#include <exec/ensure_started.hpp>
#include <exec/split.hpp>
using namespace h;

namespace
{
  enum use
  {
    U_RUN,         // connect, start, wait
    U_RUN_STOP,    // ... with a token that gets stopped by another thread
    U_RUN_PRESTOP, // ... whose token is stopped already
    U_DROP_SENDER, // never connected
    U_DROP_OP,     // connected, never started
    U_N
  };

  struct consumer
  {
    use                     how = U_RUN;
    ex::inplace_stop_source src;
    outcome                 res;
    bool                    ran = false;
  };

  template <class S>
  void consume(consumer& c, S s)
  {
    for (unsigned i = pick(3); i-- > 0;)
      std::this_thread::yield();
    switch (c.how)
    {
    case U_DROP_SENDER: return;
    case U_DROP_OP:
    {
      auto o = make_op(std::move(s), tok_env(c.src.get_token()));
      return;
    }
    default: break;
    }
    if (c.how == U_RUN_PRESTOP)
      c.src.request_stop();
    auto o = make_op(std::move(s), tok_env(c.src.get_token()), coin());
    {
      threads t;
      if (c.how == U_RUN_STOP)
        t.go([&] { c.src.request_stop(); });
      o->start();
      o->wait();
    }
    require_once(o->out, "a consumer");
    c.res = o->out;
    c.ran = true;
  }

  // the completion of one consumer, given what the shared operation did
  // (throws: storing what it sends fails)
  void judge(consumer& c, leaf_log& l, int val, bool throws)
  {
    if (!c.ran)
      return;
    auto& o = c.res;
    if (c.how == U_RUN_PRESTOP)
    {
      // the shared operation may have finished before
      if (o.kind == STOPPED)
        return;
    }
    if (c.how == U_RUN_STOP && o.kind == STOPPED)
      return;
    DSIM_CHECK(l.started.load() == 1, "not-started", "a consumer got %s although the shared operation never started", name(o.kind));
    throws   = throws && l.last != STOPPED;
    int last = throws ? ERROR : l.last;
    DSIM_CHECK(o.kind == last, "wrong-completion", "a consumer got %s, the shared operation completed with %s", name(o.kind), name(last));
    if (o.kind != STOPPED)
      DSIM_CHECK(o.value == val + (throws ? 1000 : 0), "wrong-value", "a consumer got %d instead of %d", o.value, val);
    if (c.how == U_RUN)
      DSIM_CHECK(!l.by_stop, "spurious-stop", "the shared operation was stopped although a consumer was waiting for it");
  }

template <bool Ref>
auto source(workers& w, leaf_log& l, leaf_mode mode, int kind, bool throws)
{
  if constexpr (Ref)
    return ref_leaf(w, l, mode, kind, 42, throws);
  else
    return leaf(w, l, mode, kind, 42);
}

template <bool Ref>
void split_run()
{
  bool     throws = Ref && pick(2);
  leaf_log l;
  {
    unsigned              n = 1 + pick(3);
    std::vector<consumer> cs(n);
    bool                  waiter = false, starter = false;
    for (auto& c: cs)
    {
      c.how = use(pick(U_N));
      waiter |= c.how == U_RUN;
      starter |= c.how == U_RUN;
    }
    int     kind = 1 + int(pick(3));
    auto    mode = leaf_mode(pick(waiter ? 3 : 4));
    workers w(1);
    {
      auto s = exec::split(source<Ref>(w, l, mode, kind, throws));
      auto first = coin() ? decltype(std::make_optional(s))(s) : std::nullopt;
      threads t;
      for (unsigned i = 0; i + 1 < n; ++i)
        t.go([c = &cs[i], s]() mutable { consume(*c, std::move(s)); });
      if (coin())
        consume(cs[n - 1], std::move(s));
      else
        consume(cs[n - 1], s);
      first.reset();
    }
    // nobody is interested any more: whatever was started has to come to an end
    for (auto& c: cs)
      if (c.ran && c.how == U_RUN)
        judge(c, l, 42, throws);
    while (l.started.load(std::memory_order_acquire) != l.completed.load(std::memory_order_acquire))
      dsim_sleep(1000000);
    for (auto& c: cs)
      judge(c, l, 42, throws);
    DSIM_CHECK(l.started.load() <= 1, "double-start", "the shared operation was started %d times", l.started.load());
    if (starter)
      DSIM_CHECK(l.started.load() == 1, "not-started", "the shared operation was not started");
  }
  DSIM_CHECK(l.connected.load() == 1 && l.destroyed.load() == 1, "not-destroyed", "shared operation: %d constructed, %d destroyed",
             l.connected.load(), l.destroyed.load());
}

template <bool Ref>
void eager_run()
{
  bool     throws = Ref && pick(2);
  leaf_log l;
  {
    consumer c;
    c.how        = use(pick(U_N));
    int     kind = 1 + int(pick(3));
    auto    mode = leaf_mode(pick(c.how == U_RUN ? 3 : 4));
    workers w(1);
    {
      auto s = exec::ensure_started(source<Ref>(w, l, mode, kind, throws));
      DSIM_CHECK(l.started.load() == 1, "not-started", "ensure_started returned without having started the operation");
      if (coin())
      {
        threads t;
        t.go([&c, s = std::move(s)]() mutable { consume(c, std::move(s)); });
      }
      else
        consume(c, std::move(s));
    }
    if (c.ran && c.how == U_RUN)
      judge(c, l, 42, throws);
    while (l.started.load(std::memory_order_acquire) != l.completed.load(std::memory_order_acquire))
      dsim_sleep(1000000);
    judge(c, l, 42, throws);
    DSIM_CHECK(l.started.load() == 1, "double-start", "started %d times", l.started.load());
  }
  DSIM_CHECK(l.connected.load() == 1 && l.destroyed.load() == 1, "not-destroyed", "operation: %d constructed, %d destroyed",
             l.connected.load(), l.destroyed.load());
}
}  // namespace

SCENARIO(split_, 4)
{
  split_run<false>();
}
SCENARIO(eager, 3)
{
  eager_run<false>();
}
SCENARIO(split_refs, 2)
{
  split_run<true>();
}
SCENARIO(eager_refs, 2)
{
  eager_run<true>();
}
