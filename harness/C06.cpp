// C06: exec::when_any
#include "common.hpp"
#include <exec/when_any.hpp>
using namespace h;

namespace
{
  // Ref: the children send references to values and errors whose copy may throw; storing them then
  // fails, and what is delivered is the exception instead
  template <bool Ref = false, bool Unstoppable = false, bool Nested = false, class Make>
  void run(unsigned n, Make make)
  {
    std::vector<std::unique_ptr<leaf_log>> ch;
    leaf_log                               all;
    leaf_mode                              mode[4];
    int                                    kind[4];
    bool                                   throws[4];
    for (unsigned i = 0; i < n; ++i)
    {
      ch.push_back(std::make_unique<leaf_log>());
      ch[i]->up    = &all;
      ch[i]->track = true;
      mode[i]      = leaf_mode(pick(3));
      kind[i]      = 1 + int(pick(3));
      throws[i]    = Ref && pick(3) == 0;
    }
    unsigned outer     = Unstoppable ? 0 : pick(4);
    bool     requested = outer == 1 || outer == 2;
    // all but one may hang until they are asked to stop; all of them where stop is sure to be requested
    unsigned keep = requested && pick(4) == 0 ? n : pick(n);
    for (unsigned i = 0; i < n; ++i)
      if (i != keep && pick(3) == 0)
        mode[i] = L_HANG;
    int                     base = 100;
    stop_box                src;
    workers                 w(1 + pick(2));
    auto snd = make([&](unsigned i) {
      if constexpr (Ref)
        return ref_leaf(w, *ch[i], mode[i], kind[i], base + int(i), throws[i]);
      else
        return leaf(w, *ch[i], mode[i], kind[i], base + int(i));
    });
    auto op_ = make_op(std::move(snd),
                       [&] {
                         if constexpr (Unstoppable)
                           return ex::env<>{};
                         else
                           return tok_env(src.get_token());
                       }(),
                       coin());
    op_->out.structured = &all;
    if (outer == 2)
      src.request_stop();
    if (outer == 3)
      src.dies_with(*op_);
    {
      threads t;
      if (outer == 1)
        t.go([&] { src.request_stop(); });
      op_->start();
      op_->wait();
    }
    outcome const & o = op_->out;
    require_once(o, "when_any");
    int started = 0;
    for (unsigned i = 0; i < n; ++i)
    {
      started += ch[i]->started.load();
      DSIM_CHECK(ch[i]->started.load() == ch[i]->completed.load(), "unstructured", "child %u is still running", i);
    }
    if (started == 0)
      DSIM_CHECK(o.kind == STOPPED && requested, "wrong-completion", "%s although nothing was started", name(o.kind));
    else
    {
      DSIM_CHECK(Nested || started == int(n), "not-started", "only %d of %u children were started", started, n);
      bool ok = o.kind == STOPPED && requested;
      for (unsigned i = 0; i < n && !ok; ++i)
      {
        auto& l = *ch[i];
        bool  threw = throws[i] && l.last != STOPPED;
        bool  m     = o.kind == (threw ? ERROR : l.last)
              && (o.kind == STOPPED || o.value == base + int(i) + (threw ? 1000 : 0));
        if (!m)
          continue;
        // a child that only stopped because somebody had won already cannot be the winner, nor can
        // one that completed after another one's completion was fully delivered
        if (l.by_stop && !requested)
          continue;
        bool first = true;
        for (unsigned j = 0; j < n; ++j)
          if (!Nested && j != i && ch[j]->end.load(std::memory_order_relaxed) < l.begin)
            first = false;
        ok = first;
      }
      DSIM_CHECK(ok, "not-the-first", "the result %s %d is not that of the child that completed first", name(o.kind), o.value);
    }
    op_.reset();
    int c = 0, d = 0;
    for (auto& l: ch)
      c += l->connected.load(), d += l->destroyed.load();
    DSIM_CHECK(c == d && c == int(n), "not-destroyed", "%d child operations constructed, %d destroyed", c, d);
  }
}  // namespace

SCENARIO(any1, 1)
{
  run(1, [](auto L) { return exec::when_any(L(0)); });
}
SCENARIO(any2, 3)
{
  run(2, [](auto L) { return exec::when_any(L(0), L(1)); });
}
SCENARIO(any3, 3)
{
  run(3, [](auto L) { return exec::when_any(L(0), L(1), L(2)); });
}
SCENARIO(refs2, 3)
{
  run<true>(2, [](auto L) { return exec::when_any(L(0), L(1)); });
}
SCENARIO(refs3, 1)
{
  run<true>(3, [](auto L) { return exec::when_any(L(0), L(1), L(2)); });
}
SCENARIO(unstoppable, 2)
{
  run<false, true>(2, [](auto L) { return exec::when_any(L(0), L(1)); });
}
SCENARIO(nested, 2)
{
  run<false, false, true>(3, [](auto L) { return exec::when_any(L(0), exec::when_any(L(1), L(2))); });
}
