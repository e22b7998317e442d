// The kinds of inner node of a random expression; TREE_PART selects some of them.
#pragma once
#include "tree.hpp"

namespace tree
{
#if TREE_PART == 1
  node make(world& W, flags f, int depth)
  {
    if (depth <= 0 || W.budget <= 1)
      return make_leaf(W, f, f.will && pick(3) == 0);
    int v = W.next++;
    unsigned kind = pick(33);
    switch (kind)
    {
    case 0:
    case 1:
    case 2:
    case 3:
    case 4:
    case 5:
    case 6: return part1(W, f, depth, v, kind);
    case 7:
    case 8:
    case 9:
    case 10:
    case 11:
    case 12:
    case 13: return part2(W, f, depth, v, kind);
    case 14:
    case 15: return part3(W, f, depth, v, kind);
    case 16:
    case 17: return part4(W, f, depth, v, kind);
    case 18:
    case 19:
    case 20:
    case 21: return part5(W, f, depth, v, kind);
    case 22:
    case 23:
    case 24:
    case 25: return part6(W, f, depth, v, kind);
    case 30:
    case 31:
    case 32: return part8(W, f, depth, v, kind);
    default: return part7(W, f, depth, v, kind);
    }
  }
  node part1(world& W, flags f, int depth, int v, unsigned kind)
  {
    (void) v;
    switch (kind)
    {
    case 0:
    case 1: return make_leaf(W, f, f.will && pick(4) == 0);
    case 2:
    {
      bool boom = pick(3) == 0;
      W.text += boom ? "then!(" : "then(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      if (boom)
        return {wrap(std::move(a.s) | ex::then([v](token) -> token { throw my_error{v}; })),
                a.m.map(VALUE, [v](int) { return std::pair(int(ERROR), v); })};
      return {wrap(std::move(a.s) | ex::then([](token t) { return token(mix(t.id)); })),
              a.m.map(VALUE, [](int x) { return std::pair(int(VALUE), mix(x)); })};
    }
    case 3:
    {
      W.text += "upon_error(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      return {wrap(std::move(a.s) | ex::upon_error([](auto const & e) { return token(mix(int_of(e))); })),
              a.m.map(ERROR, [](int x) { return std::pair(int(VALUE), mix(x)); })};
    }
    case 4:
    {
      W.text += "upon_stopped(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      return {wrap(std::move(a.s) | ex::upon_stopped([v] { return token(v); })),
              a.m.map(STOPPED, [v](int) { return std::pair(int(VALUE), v); })};
    }
    case 5:
    case 6:
    {
      bool boom = pick(5) == 0;
      W.text += boom ? "let_value!(" : "let_value(";
      node a = make(W, f, depth - 1);
      W.text += ", ";
      node b = make(W, f, depth - 1);
      W.text += ") ";
      node r{any(ex::just_stopped()), {}};
      r.m.join_not(a.m, VALUE);
      if (boom)
      {
        if (a.m.can(VALUE))
          r.m.add(ERROR, v);
        r.s = wrap(std::move(a.s)
                   | ex::let_value(
                     [v, s = std::move(b.s)](token&) mutable
                     {
                       if (v)
                         throw my_error{v};
                       return std::move(s);
                     }));
        return r;
      }
      for (auto& x: a.m.s)
        if (x.first == VALUE)
          r.m.join(b.m.map(VALUE, [&](int y) { return std::pair(int(VALUE), (x.second + y) % 9973); }));
      r.m.wild |= a.m.wild;
      r.s = wrap(std::move(a.s)
                 | ex::let_value(
                   [s = std::move(b.s)](token& t) mutable
                   {
                     return std::move(s) | ex::then([&t](token u) { return token((int_of(t) + u.id) % 9973); });
                   }));
      return r;
    }
    default: return make_leaf(W, f, false);
    }
  }
#endif
#if TREE_PART == 2
  static node make_when_all(world& W, flags f, int depth)
  {
    unsigned n = 2 + pick(2);
    W.text += "when_all(";
    // a failing child stops the others
    flags inner{true, f.will};
    node  a = make(W, inner, depth - 1);
    node  b = make(W, inner, depth - 1);
    model r;
    auto  both = [](model const & x, model const & y)
    {
      model r;
      r.wild = x.wild || y.wild;
      for (auto& p: x.s)
        for (auto& q: y.s)
          if (p.first == VALUE && q.first == VALUE)
            r.add(VALUE, (p.second + q.second) % 9973);
      return r;
    };
    auto add = [](token x, token y) { return token((x.id + y.id) % 9973); };
    model v  = both(a.m, b.m);
    r.join_not(a.m, VALUE);
    r.join_not(b.m, VALUE);
    if (f.may)
      r.add(STOPPED, 0);
    node res{any(ex::just_stopped()), {}};
    if (n == 2)
      res.s = wrap(ex::when_all(std::move(a.s), std::move(b.s)) | ex::then(add));
    else
    {
      node c = make(W, inner, depth - 1);
      v      = both(v, c.m);
      r.join_not(c.m, VALUE);
      res.s = wrap(ex::when_all(std::move(a.s), std::move(b.s), std::move(c.s))
                   | ex::then([add](token x, token y, token z) { return add(add(std::move(x), std::move(y)), std::move(z)); }));
    }
    r.join(v);
    res.m = r;
    W.text += ") ";
    return res;
  }
  static node make_when_any(world& W, flags f, int depth)
  {
    W.text += "when_any(";
    // the first child completes by itself; then the second is stopped
    node  a = make(W, flags{true, f.will}, depth - 1);
    bool  h = !a.m.mute && pick(4) == 0;
    node  b = h ? make_leaf(W, flags{true, true}, true) : make(W, flags{true, !a.m.mute || f.will}, depth - 1);
    W.text += ") ";
    node r{any(ex::just_stopped()), {}};
    r.m.join(a.m);
    if (!h)
      r.m.join(b.m);
    if (f.may)
      r.m.add(STOPPED, 0);
    if (coin())
      r.s = wrap(exec::when_any(std::move(a.s), std::move(b.s)));
    else
      r.s = wrap(exec::when_any(std::move(b.s), std::move(a.s)));
    return r;
  }

  node part2(world& W, flags f, int depth, int v, unsigned kind)
  {
    (void) v;
    switch (kind)
    {
    case 7:
    {
      W.text += "let_error(";
      node a = make(W, f, depth - 1);
      W.text += ", ";
      node b = make(W, f, depth - 1);
      W.text += ") ";
      node r{any(ex::just_stopped()), {}};
      r.m.join_not(a.m, ERROR);
      for (auto& x: a.m.s)
        if (x.first == ERROR)
          r.m.join(b.m.map(VALUE, [&](int y) { return std::pair(int(VALUE), (x.second + y) % 9973); }));
      r.m.wild |= a.m.wild;
      r.s = wrap(std::move(a.s)
                 | ex::let_error(
                   [s = std::move(b.s)](auto& e) mutable
                   {
                     return std::move(s) | ex::then([&e](token u) { return token((int_of(e) + u.id) % 9973); });
                   }));
      return r;
    }
    case 8:
    {
      W.text += "let_stopped(";
      node a = make(W, f, depth - 1);
      W.text += ", ";
      node b = make(W, f, depth - 1);
      W.text += ") ";
      node r{wrap(std::move(a.s) | ex::let_stopped([s = std::move(b.s)]() mutable { return std::move(s); })), {}};
      r.m.join_not(a.m, STOPPED);
      if (a.m.can(STOPPED))
        r.m.join(b.m);
      return r;
    }
    case 9:
    case 10:
    case 11: return make_when_all(W, f, depth);
    case 12:
    case 13: return make_when_any(W, f, depth);
    default: return make_leaf(W, f, false);
    }
  }
#endif
#if TREE_PART == 3
  // a sender of nothing that completes with value, for the adaptors that want one
  inline auto unit(world& W)
  {
    return leaf(W.w, W.log, leaf_mode(pick(2)), VALUE, 0) | ex::then([](token) {});
  }

  template <class S, class F>
  auto on_where(world& W, S s, F where, char const * what)
  {
    (void) W;
    return std::move(s)
         | ex::then(
             [where, what](token t)
             {
               DSIM_CHECK(where(), "wrong-context", "the value of a %s arrived on T%d", what, dsim_tid());
               return t;
             });
  }
  template <class Sch, class F>
  node transfer(world& W, flags f, int depth, Sch sch, F where, char const * nm, bool stoppable)
  {
    model extra;
    if (f.may && stoppable)
      extra.add(STOPPED, 0);
    switch (pick(4))
    {
    case 0:
    {
      W.text += std::string("continues_on.") + nm + "(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      node r{wrap_calm(on_where(W, ex::continues_on(std::move(a.s), sch), where, "continues_on")), a.m};
      r.m.join(extra);
      return r;
    }
    case 1:
    {
      W.text += std::string("starts_on.") + nm + "(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      node r{wrap_calm(ex::starts_on(sch,
                                ex::just()
                                  | ex::let_value(
                                    [where, s = std::move(a.s)]() mutable
                                    {
                                      DSIM_CHECK(where(), "wrong-context", "starts_on started its sender on T%d", dsim_tid());
                                      return std::move(s);
                                    }))),
             a.m};
      r.m.join(extra);
      return r;
    }
    case 2:
    {
      W.text += std::string("on.") + nm + "(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      auto inner = ex::on(sch,
                          ex::just()
                            | ex::let_value(
                              [where, s = std::move(a.s)]() mutable
                              {
                                DSIM_CHECK(where(), "wrong-context", "on(scheduler, sender) started its sender on T%d", dsim_tid());
                                return std::move(s);
                              }));
      node r{any(ex::just_stopped()), a.m};
      if (W.loop && coin())
      {
        // comes back to where it was started
        auto home = W.loop->get_scheduler();
        r.s       = wrap_calm(ex::starts_on(home, on_where(W, std::move(inner), [&W] { return W.in_loop(); }, "on")));
        if (f.may)
          r.m.add(STOPPED, 0);
      }
      else
        r.s = wrap_calm(std::move(inner));
      r.m.join(extra);
      return r;
    }
    default:
    {
      W.text += std::string("schedule.") + nm + "|let_value(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      node r{wrap_calm(ex::schedule(sch)
                  | ex::let_value(
                    [where, s = std::move(a.s)]() mutable
                    {
                      DSIM_CHECK(where(), "wrong-context", "schedule completed on T%d", dsim_tid());
                      return std::move(s);
                    })),
             a.m};
      r.m.join(extra);
      return r;
    }
    }
  }

  node part3(world& W, flags f, int depth, int v, unsigned kind)
  {
    (void) v;
    switch (kind)
    {
    case 14:
    case 15:
      if (W.pool)
        return transfer(W, f, depth, W.pool->get_scheduler(), [&W] { return W.in_pool(); }, "pool", true);
      return make(W, f, depth - 1);
    default: return make_leaf(W, f, false);
    }
  }
#endif
#if TREE_PART == 4
  // a sender of nothing that completes with value, for the adaptors that want one
  inline auto unit(world& W)
  {
    return leaf(W.w, W.log, leaf_mode(pick(2)), VALUE, 0) | ex::then([](token) {});
  }

  template <class S, class F>
  auto on_where(world& W, S s, F where, char const * what)
  {
    (void) W;
    return std::move(s)
         | ex::then(
             [where, what](token t)
             {
               DSIM_CHECK(where(), "wrong-context", "the value of a %s arrived on T%d", what, dsim_tid());
               return t;
             });
  }
  template <class Sch, class F>
  node transfer(world& W, flags f, int depth, Sch sch, F where, char const * nm, bool stoppable)
  {
    model extra;
    if (f.may && stoppable)
      extra.add(STOPPED, 0);
    switch (pick(4))
    {
    case 0:
    {
      W.text += std::string("continues_on.") + nm + "(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      node r{wrap_calm(on_where(W, ex::continues_on(std::move(a.s), sch), where, "continues_on")), a.m};
      r.m.join(extra);
      return r;
    }
    case 1:
    {
      W.text += std::string("starts_on.") + nm + "(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      node r{wrap_calm(ex::starts_on(sch,
                                ex::just()
                                  | ex::let_value(
                                    [where, s = std::move(a.s)]() mutable
                                    {
                                      DSIM_CHECK(where(), "wrong-context", "starts_on started its sender on T%d", dsim_tid());
                                      return std::move(s);
                                    }))),
             a.m};
      r.m.join(extra);
      return r;
    }
    case 2:
    {
      W.text += std::string("on.") + nm + "(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      auto inner = ex::on(sch,
                          ex::just()
                            | ex::let_value(
                              [where, s = std::move(a.s)]() mutable
                              {
                                DSIM_CHECK(where(), "wrong-context", "on(scheduler, sender) started its sender on T%d", dsim_tid());
                                return std::move(s);
                              }));
      node r{any(ex::just_stopped()), a.m};
      if (W.loop && coin())
      {
        // comes back to where it was started
        auto home = W.loop->get_scheduler();
        r.s       = wrap_calm(ex::starts_on(home, on_where(W, std::move(inner), [&W] { return W.in_loop(); }, "on")));
        if (f.may)
          r.m.add(STOPPED, 0);
      }
      else
        r.s = wrap_calm(std::move(inner));
      r.m.join(extra);
      return r;
    }
    default:
    {
      W.text += std::string("schedule.") + nm + "|let_value(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      node r{wrap_calm(ex::schedule(sch)
                  | ex::let_value(
                    [where, s = std::move(a.s)]() mutable
                    {
                      DSIM_CHECK(where(), "wrong-context", "schedule completed on T%d", dsim_tid());
                      return std::move(s);
                    })),
             a.m};
      r.m.join(extra);
      return r;
    }
    }
  }

  node part4(world& W, flags f, int depth, int v, unsigned kind)
  {
    (void) v;
    switch (kind)
    {
    case 16:
      if (W.loop)
        return transfer(W, f, depth, W.loop->get_scheduler(), [&W] { return W.in_loop(); }, "loop", true);
      return make(W, f, depth - 1);
    case 17: return transfer(W, f, depth, exec::inline_scheduler{}, [] { return true; }, "inline", false);
    default: return make_leaf(W, f, false);
    }
  }
#endif
#if TREE_PART == 5
  node part5(world& W, flags f, int depth, int v, unsigned kind)
  {
    (void) v;
    switch (kind)
    {
    case 18:
    {
      W.text += "finally(";
      node a = make(W, f, depth - 1);
      W.text += ", ";
      node b = make(W, f, depth - 1);
      W.text += ") ";
      node r{wrap_calm(exec::finally(std::move(a.s), std::move(b.s) | ex::then([](token) {}))), {}};
      r.m.join_not(b.m, VALUE);
      if (b.m.can(VALUE))
        r.m.join(a.m);
      return r;
    }
    case 19:
    {
      W.text += "stopped_as_optional(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      return {wrap_calm(ex::stopped_as_optional(std::move(a.s))
                   | ex::then([v](std::optional<token> o) { return o ? std::move(*o) : token(v); })),
              a.m.map(STOPPED, [v](int) { return std::pair(int(VALUE), v); })};
    }
    case 20:
    {
      W.text += "stopped_as_error(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      return {wrap_calm(ex::stopped_as_error(std::move(a.s), my_error{v})),
              a.m.map(STOPPED, [v](int) { return std::pair(int(ERROR), v); })};
    }
    case 21:
    {
      W.text += "materialize(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      return {wrap_calm(exec::dematerialize(exec::materialize(std::move(a.s)))), a.m};
    }
    default: return make_leaf(W, f, false);
    }
  }
#endif
#if TREE_PART == 6
  node part6(world& W, flags f, int depth, int v, unsigned kind)
  {
    (void) v;
    switch (kind)
    {
    case 22:
    {
      bool eager = coin();
      W.text += eager ? "ensure_started(" : "split(";
      W.detached = true;
      // started in an environment of its own
      node a = make(W, flags{f.may, f.will}, depth - 1);
      W.text += ") ";
      node r{any(ex::just_stopped()), a.m};
      if (f.may)
        r.m.add(STOPPED, 0);
      if (eager)
        r.s = wrap_calm(exec::ensure_started(std::move(a.s) | ex::then(world::keep(W))) | ex::then([](token t) { return t; }));
      else
        r.s = wrap_calm(exec::split(std::move(a.s) | ex::then(world::keep(W))) | ex::then([](token const & t) { return t; }));
      return r;
    }
    case 23:
    {
      unsigned n = pick(4);
      W.text += "repeat_n(";
      // every repetition connects the leaf anew
      auto mode = leaf_mode(pick(3));
      int  k    = pick(6) == 0 ? STOPPED : VALUE;
      W.text += std::to_string(n) + ") ";
      node r{wrap_calm(exec::repeat_n(leaf(W.w, W.log, mode, k, v) | ex::then([](token) {}), n) | ex::then([v] { return token(v); })), {}};
      r.m.add(n == 0 ? VALUE : k, n == 0 || k == VALUE ? v : 0);
      if (f.may)
        r.m.add(STOPPED, 0);
      return r;
    }
    case 24:
    {
      unsigned n = 1 + pick(3);
      W.text += "repeat_until(" + std::to_string(n) + ") ";
      node r{wrap_calm(exec::repeat_until(leaf(W.w, W.log, leaf_mode(pick(3)), VALUE, v)
                                     | ex::then([n](token) mutable -> bool { return n <= 1; }))
                  | ex::then([v] { return token(v); })),
             {}};
      // 'n' is copied into every repetition, so use a shared countdown instead
      auto left = std::make_shared<unsigned>(n);
      r.s       = wrap_calm(exec::repeat_until(leaf(W.w, W.log, leaf_mode(pick(3)), VALUE, v)
                                    | ex::then([left](token) { return --*left == 0; }))
                 | ex::then([v] { return token(v); }));
      r.m.add(VALUE, v);
      if (f.may)
        r.m.add(STOPPED, 0);
      return r;
    }
    case 25:
    {
      W.text += "bulk(";
      unsigned n = pick(4);
      node     a = make(W, f, depth - 1);
      W.text += ") ";
      auto seen = std::make_shared<std::atomic<unsigned>>(0);
      return {wrap_calm(std::move(a.s)
                   | ex::bulk(ex::par, n,
                              [seen](unsigned i, token& t)
                              {
                                int_of(t);
                                seen->fetch_add(1u << (4 * i), std::memory_order_relaxed);
                              })
                   | ex::then(
                     [seen, n](token t)
                     {
                       DSIM_CHECK(seen->load(std::memory_order_relaxed) == (0x1111u & ((1u << (4 * n)) - 1)), "bulk-calls",
                                  "bulk(%u) made the calls %x", n, seen->load(std::memory_order_relaxed));
                       return t;
                     })),
              a.m};
    }
    default: return make_leaf(W, f, false);
    }
  }
#endif
#if TREE_PART == 7
  node part7(world& W, flags f, int depth, int v, unsigned kind)
  {
    (void) v;
    switch (kind)
    {
    case 26:
    {
      switch (pick(3))
      {
      case 0:
      {
        W.text += "into_variant(";
        node a = make(W, f, depth - 1);
        W.text += ") ";
        return {wrap_calm(ex::into_variant(std::move(a.s))
                     | ex::then([](std::variant<std::tuple<token>> x) { return std::get<0>(std::get<0>(std::move(x))); })),
                a.m};
      }
      case 1:
      {
        W.text += "into_tuple(";
        node a = make(W, f, depth - 1);
        W.text += ") ";
        return {wrap_calm(exec::into_tuple(std::move(a.s)) | ex::then([](std::tuple<token> x) { return std::get<0>(std::move(x)); })), a.m};
      }
      default:
      {
        W.text += "variant_sender(";
        node a = make(W, f, depth - 1);
        W.text += ") ";
        using J = decltype(ex::just(token(0)));
        exec::variant_sender<any, J> x{ex::just(token(v))};
        if (coin())
          return {wrap_calm(std::move(x)), [&] {
                    model m;
                    m.add(VALUE, v);
                    return m;
                  }()};
        x.template emplace<any>(std::move(a.s));
        return {wrap_calm(std::move(x)), a.m};
      }
      }
    }
    case 27:
    {
      W.text += "unstoppable(";
      node a = make(W, flags{false, false}, depth - 1);
      W.text += ") ";
      return {wrap_calm(ex::write_env(std::move(a.s), ex::prop{ex::get_stop_token, ex::never_stop_token{}})), a.m};
    }
    case 28:
    {
      W.text += "unless_stop_requested(";
      node a = make(W, f, depth - 1);
      W.text += ") ";
      if (f.may)
        a.m.add(STOPPED, 0);
      return {wrap_calm(exec::unless_stop_requested(std::move(a.s))), a.m};
    }
    default:
      switch (pick(2))
      {
      case 0:
      {
        W.text += "sequence(";
        node a = make(W, f, depth - 1);
        W.text += ", ";
        node b = make(W, f, depth - 1);
        W.text += ") ";
        node r{wrap_calm(exec::sequence(std::move(a.s) | ex::then([](token) {}), std::move(b.s))), {}};
        r.m.join_not(a.m, VALUE);
        if (a.m.can(VALUE))
          r.m.join(b.m);
        return r;
      }
      default:
      {
        W.text += "fork_join(";
        node a = make(W, f, depth - 1);
        W.text += ") ";
        node r{wrap_calm(exec::fork_join(std::move(a.s), ex::then([](token const & t) { return token(t.id); }),
                                    ex::then([](token const & t) { return token(mix(t.id)); }))
                    | ex::then([](token x, token y) { return token((x.id + y.id) % 9973); })),
               a.m.map(VALUE, [](int x) { return std::pair(int(VALUE), (x + mix(x)) % 9973); })};
        if (f.may)
          r.m.add(STOPPED, 0);
        return r;
      }
      }
    }
  }
#endif
#if TREE_PART == 8
  // A value whose copies and moves throw once a countdown has run out
  struct fuse
  {
    std::atomic<int> left;
    int              code;
  };
  struct fragile
  {
    std::shared_ptr<fuse> f;
    token                 t;
    fragile(std::shared_ptr<fuse> f, token t) noexcept
      : f(std::move(f))
      , t(std::move(t))
    {}
    fragile(fragile const & o)
      : f((o.burn(), o.f))
      , t(o.t)
    {}
    fragile(fragile&& o) noexcept(false)
      : f((o.burn(), o.f))
      , t(std::move(o.t))
    {}
    void burn() const
    {
      if (f->left.fetch_sub(1, std::memory_order_relaxed) == 1)
        throw my_error{f->code};
    }
  };
  struct thaw
  {
    token operator()(fragile const & x) const
    {
      return token(int_of(x.t));
    }
  };

  node part8(world& W, flags f, int depth, int v, unsigned)
  {
    auto fu   = std::make_shared<fuse>();
    int  when = int(pick(5));
    fu->left.store(when, std::memory_order_relaxed);
    fu->code      = v;
    unsigned what = pick(11);
    char const * names[] = {"continues_on", "when_all", "let_value", "split", "ensure_started", "when_any", "finally", "materialize", "into_tuple", "into_variant", "bulk"};
    W.text += std::string("fragile") + std::to_string(when) + "." + names[what] + "(";
    node a = make(W, what == 5 || what == 1 ? flags{true, f.will} : f, depth - 1);
    W.text += ") ";
    auto  s = std::move(a.s) | ex::then(world::keep(W)) | ex::then([fu](token t) { return fragile(fu, std::move(t)); });
    node  r{any(ex::just_stopped()), a.m};
    if (when && a.m.can(VALUE))
      r.m.add(ERROR, v);
    switch (what)
    {
    case 0:
      if (f.may)
        r.m.add(STOPPED, 0);
      if (W.pool && coin())
        r.s = wrap_calm(ex::continues_on(std::move(s), W.pool->get_scheduler()) | ex::then(thaw()));
      else if (W.loop)
        r.s = wrap_calm(ex::continues_on(std::move(s), W.loop->get_scheduler()) | ex::then(thaw()));
      else
        r.s = wrap_calm(ex::continues_on(std::move(s), exec::inline_scheduler()) | ex::then(thaw()));
      break;
    case 1:
      if (f.may)
        r.m.add(STOPPED, 0);
      r.s = wrap_calm(ex::when_all(std::move(s), ex::just(1)) | ex::then([](fragile const & x, int) { return thaw()(x); }));
      break;
    case 2: r.s = wrap_calm(std::move(s) | ex::let_value([](fragile& x) { return ex::just(thaw()(x)); })); break;
    case 3:
      W.detached = true;
      if (f.may)
        r.m.add(STOPPED, 0);
      r.s = wrap_calm(exec::split(std::move(s)) | ex::then(thaw()));
      break;
    case 4:
      W.detached = true;
      if (f.may)
        r.m.add(STOPPED, 0);
      r.s = wrap_calm(exec::ensure_started(std::move(s)) | ex::then(thaw()));
      break;
    case 5:
      if (f.may)
        r.m.add(STOPPED, 0);
      r.s = wrap_calm(exec::when_any(std::move(s)) | ex::then(thaw()));
      break;
    case 6: r.s = wrap_calm(exec::finally(std::move(s), ex::just()) | ex::then(thaw())); break;
    case 7: r.s = wrap_calm(exec::dematerialize(exec::materialize(std::move(s))) | ex::then(thaw())); break;
    case 8: r.s = wrap_calm(exec::into_tuple(std::move(s)) | ex::then([](std::tuple<fragile> const & x) { return thaw()(std::get<0>(x)); })); break;
    case 9:
      r.s = wrap_calm(ex::into_variant(std::move(s))
                      | ex::then([](std::variant<std::tuple<fragile>> const & x) { return thaw()(std::get<0>(std::get<0>(x))); }));
      break;
    default:
      // (the pool's bulk wants values that move without throwing)
      r.s = wrap_calm(std::move(s) | ex::bulk(ex::par, 2, [](int, fragile&) {}) | ex::then(thaw()));
    }
    return r;
  }
#endif
}  // namespace tree
