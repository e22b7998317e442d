// Random sender expressions with a reference model of how they may complete.
//
// Every node is type-erased (exec::any_sender), so any adaptor can be applied to any subtree at run
// time.  While the expression is built, the set of outcomes it may have is computed next to it.
#pragma once
#include "model.hpp"

#include <exec/any_sender_of.hpp>
#include <exec/ensure_started.hpp>
#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/inline_scheduler.hpp>
#include <exec/into_tuple.hpp>
#include <exec/just_from.hpp>
#include <exec/materialize.hpp>
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/sequence.hpp>
#include <exec/single_thread_context.hpp>
#include <exec/split.hpp>
#include <exec/static_thread_pool.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
#include <exec/when_any.hpp>

namespace tree
{
  using namespace h;

  using sigs = ex::completion_signatures<set_value_t(token), set_error_t(my_error), set_error_t(std::exception_ptr), set_stopped_t()>;
  using qs   = exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>;
  using any  = exec::any_sender<exec::any_receiver<sigs, qs>>;

  struct world
  {
    // the threads that hand work to the pool end before it is destroyed
    unsigned                                   nw, np;
    std::optional<exec::static_thread_pool>    pool;
    std::optional<exec::single_thread_context> loop;
    workers                                    w;
    leaf_log                                 log;
    int                                      next = 1;
    int                                      budget;
    bool                                     frail = false;     // allocations may fail
    bool                                     detached = false;  // work may outlive its consumer
    std::string                              text;  // the expression, for the report

    world(unsigned nw_, unsigned np_, bool with_loop, int budget_)
      : nw(nw_)
      , np(np_)
      , pool()
      , loop()
      , w((np_ ? (void) pool.emplace(np_) : void(), with_loop ? (void) loop.emplace() : void(), nw_))
      , budget(budget_)
    {
      log.many = true;
    }
    std::atomic<int> shared{0};  // split/ensure_started operations that exist
    struct keep
    {
      world* w;
      explicit keep(world& w)
        : w(&w)
      {
        w.shared.fetch_add(1, std::memory_order_relaxed);
      }
      keep(keep const & o) noexcept
        : w(o.w)
      {
        w->shared.fetch_add(1, std::memory_order_relaxed);
      }
      ~keep()
      {
        w->shared.fetch_sub(1, std::memory_order_release);
      }
      token operator()(token t) const
      {
        return t;
      }
    };
    // work that was abandoned by its consumer has to end as well
    void settle()
    {
      for (unsigned i = 0; i < 3000 && (shared.load() != 0 || log.connected.load() != log.destroyed.load() || log.started.load() != log.completed.load()); ++i)
        dsim_sleep(1000);
      DSIM_CHECK(log.started.load() == log.completed.load(), "lost-completion", "%s: %d operations started, %d completed", text.c_str(),
                 log.started.load(), log.completed.load());
      DSIM_CHECK(log.connected.load() == log.destroyed.load(), "leak", "%s: %d operations connected, %d destroyed", text.c_str(),
                 log.connected.load(), log.destroyed.load());
      DSIM_CHECK(shared.load() == 0, "leak", "%s: %d shared operations were not destroyed", text.c_str(), shared.load());
    }
    bool in_pool() const
    {
      unsigned t = unsigned(dsim_tid());
      return t > 0 && t <= np;
    }
    bool in_loop() const
    {
      return unsigned(dsim_tid()) == np + 1;
    }
  };

  struct flags
  {
    bool may;   // stop may be requested in this environment
    bool will;  // stop will be requested, whatever the expression does
  };
  struct node
  {
    any   s;
    model m;
  };

  inline int mix(int v)
  {
    return (v * 3 + 1) % 9973;
  }
  // The environment of a type-erased receiver is an abstract class, which the scheduling adaptors do
  // not take; this gives them a plain one.
  struct calm_env
  {
    ex::inplace_stop_token t;
    auto query(ex::get_stop_token_t) const noexcept -> ex::inplace_stop_token
    {
      return t;
    }
    auto query(ex::get_start_scheduler_t) const noexcept -> exec::inline_scheduler
    {
      return {};
    }
  };
  template <class R>
  struct calm_rcvr
  {
    using receiver_concept = ex::receiver_tag;
    R* r;
    template <class... Ts>
    void set_value(Ts&&... ts) noexcept
    {
      ex::set_value(std::move(*r), static_cast<Ts&&>(ts)...);
    }
    template <class E>
    void set_error(E&& e) noexcept
    {
      ex::set_error(std::move(*r), static_cast<E&&>(e));
    }
    void set_stopped() noexcept
    {
      ex::set_stopped(std::move(*r));
    }
    auto get_env() const noexcept -> calm_env
    {
      return {ex::get_stop_token(ex::get_env(*r))};
    }
  };
  template <class S, class R>
  struct calm_op
  {
    R                                      r;
    ex::connect_result_t<S, calm_rcvr<R>>  o;
    calm_op(S&& s, R r_)
      : r(std::move(r_))
      , o(ex::connect(std::move(s), calm_rcvr<R>{&r}))
    {}
    calm_op(calm_op&&) = delete;
    void start() & noexcept
    {
      ex::start(o);
    }
  };
  template <class S>
  struct calm
  {
    using sender_concept = ex::sender_tag;
    S s;
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::completion_signatures_of_t<S, calm_env>{};
    }
    template <class R>
    auto connect(R r) && -> calm_op<S, R>
    {
      return calm_op<S, R>(std::move(s), std::move(r));
    }
  };
  template <class S>
  any wrap(S s)
  {
    return any(std::move(s));
  }
  template <class S>
  any wrap_calm(S s)
  {
    return any(calm<S>{std::move(s)});
  }

  node make(world& W, flags f, int depth);
  // the kinds of node are spread over several translation units: tree_parts.hpp
  node part1(world& W, flags f, int depth, int v, unsigned kind);
  node part2(world& W, flags f, int depth, int v, unsigned kind);
  node part3(world& W, flags f, int depth, int v, unsigned kind);
  node part4(world& W, flags f, int depth, int v, unsigned kind);
  node part5(world& W, flags f, int depth, int v, unsigned kind);
  node part6(world& W, flags f, int depth, int v, unsigned kind);
  node part7(world& W, flags f, int depth, int v, unsigned kind);
  node part8(world& W, flags f, int depth, int v, unsigned kind);


  inline node make_leaf(world& W, flags f, bool hang)
  {
    int  v = W.next++;
    node n{any(ex::just_stopped()), {}};
    --W.budget;
    switch (hang ? 9 : pick(8))
    {
    case 0:
      W.text += "just ";
      n.s = wrap(ex::just(token(v)));
      n.m.add(VALUE, v);
      return n;
    case 1:
      switch (pick(3))
      {
      case 0:
        W.text += "just_error ";
        n.s = wrap(ex::just_error(my_error{v}));
        n.m.add(ERROR, v);
        break;
      case 1:
        W.text += "just_stopped ";
        n.m.add(STOPPED, 0);
        break;
      default:
        W.text += "just_from ";
        n.s = wrap(exec::just_from([v](auto sink) { return sink(token(v)); }));
        n.m.add(VALUE, v);
      }
      return n;
    default:
    {
      auto mode = hang ? L_HANG : leaf_mode(pick(3));
      int  k    = pick(5);
      k         = k == 4 ? ERROR : k == 3 ? STOPPED : VALUE;
      W.text += std::string("leaf") + "IRSH"[mode] + "(" + name(k) + std::to_string(v) + ") ";
      n.s = wrap(leaf(W.w, W.log, mode, k, v));
      if (hang)
      {
        n.m.mute = true;
        n.m.add(STOPPED, 0);
        return n;
      }
      n.m.add(k, v);
      if (f.may && mode == L_REMOTE_STOP)
        n.m.add(STOPPED, 0);
      return n;
    }
    }
  }

}  // namespace tree
