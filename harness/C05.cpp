// C05: when_all and its variants
#include "common.hpp"
using namespace h;

namespace
{
  struct plan
  {
    leaf_mode mode[4];
    int       kind[4];
    bool      throws[4];  // what it sends cannot be copied
    unsigned  n;
    bool      may_hang;   // somebody is sure to request stop
  };

  enum flavour
  {
    F_PLAIN,   // sends values, errors and stopped
    F_REF,     // sends references to values and errors whose copy may throw
    F_VALUES,  // can send nothing but values
    F_NOERR,   // ... but values and stopped
  };
  template <flavour F>
  auto child(workers& w, leaf_log& l, plan const & p, unsigned i, int base)
  {
    if constexpr (F == F_PLAIN)
      return leaf(w, l, p.mode[i], p.kind[i], base + int(i));
    else if constexpr (F == F_REF)
      return ref_leaf(w, l, p.mode[i], p.kind[i], base + int(i), p.throws[i]);
    else
      return leaf_sender<false, F == F_NOERR>{&w, &l, p.mode[i], p.kind[i], base + int(i)};
  }

  plan make_plan(unsigned n, bool outer_stop_sure, flavour f)
  {
    plan p{};
    p.n         = n;
    bool failer = outer_stop_sure;
    for (unsigned i = 0; i < n; ++i)
    {
      unsigned k = pick(6);
      p.kind[i]  = k < 3 ? VALUE : k == 3 ? STOPPED : k == 4 ? ERROR : VALUE;
      p.mode[i]  = leaf_mode(pick(3));
      if (f == F_VALUES)
      {
        p.kind[i] = VALUE;
        p.mode[i] = leaf_mode(pick(2));
      }
      if (f == F_NOERR && p.kind[i] == ERROR)
        p.kind[i] = VALUE;
      p.throws[i] = f == F_REF && pick(3) == 0;
      if (p.throws[i] && p.kind[i] != STOPPED && p.mode[i] != L_REMOTE_STOP)
        failer = true;
      if (p.kind[i] != VALUE && p.mode[i] != L_REMOTE_STOP)
        failer = true;
    }
    if (failer && f != F_VALUES)
      for (unsigned i = 0; i < n; ++i)
        if (p.kind[i] == VALUE && !p.throws[i] && pick(3) == 0)
          p.mode[i] = L_HANG;
    return p;
  }

  // judges the completion of when_all given what its children did
  void judge(outcome const & o, std::vector<std::unique_ptr<leaf_log>> const & ch, plan const & p, bool outer_requested, int base)
  {
    require_once(o, "when_all");
    int  values = 0, errors = 0, natural_stop = 0, forced_stop = 0, started = 0;
    bool matched = false;
    int  sum     = 0;
    for (unsigned i = 0; i < p.n; ++i)
    {
      auto& l = *ch[i];
      DSIM_CHECK(l.started.load() <= 1, "double-start", "child %u was started %d times", i, l.started.load());
      started += l.started.load();
      if (!l.started.load())
        continue;
      DSIM_CHECK(l.completed.load() == 1, "unstructured", "child %u had not completed", i);
      // storing what it sent failed
      bool threw = p.throws[i] && l.last != STOPPED;
      int  last  = threw ? ERROR : l.last;
      int  code  = base + int(i) + (threw ? 1000 : 0);
      values += last == VALUE;
      errors += last == ERROR;
      natural_stop += l.last == STOPPED && !l.by_stop;
      forced_stop += l.last == STOPPED && l.by_stop;
      sum += base + int(i);
      if (last == ERROR && o.kind == ERROR && o.value == code)
        matched = true;
    }
    if (started == 0)
    {
      DSIM_CHECK(o.kind == STOPPED && outer_requested, "wrong-completion", "%s although no child was started", name(o.kind));
      return;
    }
    DSIM_CHECK(started == int(p.n), "not-started", "only %d of %u children were started", started, p.n);
    if (values == int(p.n))
    {
      DSIM_CHECK(o.kind == VALUE || (o.kind == STOPPED && outer_requested), "wrong-completion",
                 "every child sent a value but the result is %s", name(o.kind));
      if (o.kind == VALUE)
        DSIM_CHECK(o.value == sum, "wrong-value", "values add up to %d, expected %d", o.value, sum);
      return;
    }
    DSIM_CHECK(o.kind != VALUE, "wrong-completion", "completed with a value although %d children failed", int(p.n) - values);
    if (forced_stop)
      DSIM_CHECK(errors || natural_stop || outer_requested, "spurious-stop", "children were asked to stop although nothing failed");
    if (o.kind == ERROR)
      DSIM_CHECK(matched, "wrong-error", "the reported error %d is not the error of a failed child", o.value);
    else
      DSIM_CHECK(natural_stop || outer_requested, "lost-error", "completed with stopped although the only failure was an error");
  }

  template <flavour F = F_PLAIN, bool Unstoppable = false, class Make>
  void run(unsigned n, Make make)
  {
    workers  w(1 + pick(2));
    stop_box src;
    // 0 never, 1 concurrently, 2 before start, 3 never and the source's life ends with the completion
    unsigned outer = Unstoppable ? 0 : pick(4);
    plan     p     = make_plan(n, outer == 1 || outer == 2, F);
    std::vector<std::unique_ptr<leaf_log>> ch;
    leaf_log                               all;
    for (unsigned i = 0; i < n; ++i)
    {
      ch.push_back(std::make_unique<leaf_log>());
      ch[i]->up = &all;
    }
    int  base = 100;
    auto snd  = make([&](unsigned i) { return child<F>(w, *ch[i], p, i, base); });
    auto o    = make_op(std::move(snd),
                     [&] {
                       if constexpr (Unstoppable)
                         return ex::env<>{};
                       else
                         return tok_env(src.get_token());
                     }(),
                     coin());
    o->out.structured = &all;
    if (outer == 3)
      src.dies_with(*o);
    bool requested    = outer == 1 || outer == 2;
    if (outer == 2)
      src.request_stop();
    {
      threads t;
      if (outer == 1)
        t.go([&] { src.request_stop(); });
      o->start();
      o->wait();
    }
    judge(o->out, ch, p, requested, base);
    o.reset();
    int c = 0, d = 0;
    for (auto& l: ch)
      c += l->connected.load(), d += l->destroyed.load();
    DSIM_CHECK(c == d && c == int(n), "not-destroyed", "%d child operations constructed, %d destroyed", c, d);
  }
}  // namespace

SCENARIO(all2, 3)
{
  run(2, [](auto L) { return ex::when_all(L(0), L(1)); });
}
SCENARIO(all3, 3)
{
  run(3, [](auto L) { return ex::when_all(L(0), L(1), L(2)); });
}
SCENARIO(all1, 1)
{
  run(1, [](auto L) { return ex::when_all(L(0)); });
}
SCENARIO(nested, 2)
{
  run(4, [](auto L) { return ex::when_all(ex::when_all(L(0), L(1)), ex::when_all(L(2), L(3))); });
}
SCENARIO(refs2, 3)
{
  run<F_REF>(2, [](auto L) { return ex::when_all(L(0), L(1)); });
}
SCENARIO(refs3, 2)
{
  run<F_REF>(3, [](auto L) { return ex::when_all(L(0), L(1), L(2)); });
}
SCENARIO(values_only, 2)
{
  run<F_VALUES>(2, [](auto L) { return ex::when_all(L(0), L(1)); });
}
SCENARIO(no_errors, 2)
{
  run<F_NOERR>(2, [](auto L) { return ex::when_all(L(0), L(1)); });
}
SCENARIO(unstoppable, 2)
{
  run<F_PLAIN, true>(2, [](auto L) { return ex::when_all(L(0), L(1)); });
}
SCENARIO(unstoppable_refs, 1)
{
  run<F_REF, true>(3, [](auto L) { return ex::when_all(L(0), ex::when_all(L(1), L(2))); });
}
// values sent by reference from temporaries of the child must have been stored
SCENARIO(variant2, 1)
{
  workers  w(1 + pick(2));
  leaf_log all, l0, l1;
  l0.up = l1.up = &all;
  auto s = ex::when_all_with_variant(leaf(w, l0, leaf_mode(pick(2)), VALUE, 5), leaf(w, l1, leaf_mode(pick(2)), VALUE, 6))
         | ex::then([](auto&& a, auto&& b) {
             return token(int_of(std::get<0>(std::get<0>(a))) * 10 + int_of(std::get<0>(std::get<0>(b))));
           });
  auto o = make_op(std::move(s), ex::env<>{}, coin());
  o->out.structured = &all;
  o->start();
  o->wait();
  DSIM_CHECK(o->out.kind == VALUE && o->out.value == 56, "wrong-value", "got %s %d", name(o->out.kind), o->out.value);
}
SCENARIO(transfer, 1)
{
  workers      w(1 + pick(2));
  leaf_log     l0, l1;
  ex::run_loop loop;
  threads      t;
  int          loop_tid = -1;
  t.go([&] {
    loop_tid = dsim_tid();
    loop.run();
  });
  {
    auto s = ex::transfer_when_all(loop.get_scheduler(), leaf(w, l0, leaf_mode(pick(2)), VALUE, 5), leaf(w, l1, leaf_mode(pick(2)), VALUE, 6));
    auto o = make_op(std::move(s), ex::env<>{}, coin());
    o->start();
    o->wait();
    DSIM_CHECK(o->out.kind == VALUE && o->out.value == 11, "wrong-value", "got %s %d", name(o->out.kind), o->out.value);
    loop.finish();
    t.join();
    DSIM_CHECK(o->out.tid == loop_tid, "wrong-thread", "transfer_when_all completed on thread %d instead of %d", o->out.tid, loop_tid);
  }
}
