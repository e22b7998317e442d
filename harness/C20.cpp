// C20: finally, let_*, sequence, repeat_*, fork_join: one operation after another
#include "common.hpp"

#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/sequence.hpp>
using namespace h;

namespace
{
  // ---- leaves that send nothing, or a bool-like value
  struct send_void
  {
    using value_sig = set_value_t();
    using error_sig = set_error_t(my_error);
    template <class R>
    void value(R&& r, int, bool)
    {
      ex::set_value(std::move(r));
    }
    template <class R>
    void error(R&& r, int v, bool)
    {
      ex::set_error(std::move(r), my_error{v});
    }
  };
  struct send_void_ref
  {
    using value_sig = set_value_t();
    using error_sig = set_error_t(touchy_error&);
    std::optional<touchy_error> e;
    template <class R>
    void value(R&& r, int, bool)
    {
      ex::set_value(std::move(r));
    }
    template <class R>
    void error(R&& r, int v, bool throws)
    {
      ex::set_error(std::move(r), e.emplace(v, throws));
    }
  };
  using void_leaf     = leaf_sender<true, true, send_void>;
  using void_ref_leaf = leaf_sender<true, true, send_void_ref>;

  int leaf_kind()
  {
    unsigned k = pick(6);
    return k < 4 ? VALUE : k == 4 ? ERROR : STOPPED;
  }
  template <class L>
  L mk(workers& w, leaf_log& log, int val, bool throws = false, bool hang = false)
  {
    return L{&w, &log, leaf_mode(pick(hang ? 4 : 3)), leaf_kind(), val, throws};
  }

  struct result
  {
    int kind, value;
  };
  // how a leaf really ended
  result end_of(leaf_log const & log, int kind, int val)
  {
    if (log.by_stop)
      return {STOPPED, 0};
    return {kind, kind == STOPPED ? 0 : val};
  }

  // The stop source of the consumer: stop may be requested at any time.
  struct stopper
  {
    stop_box src;
    bool     req = coin();
    threads  ts;
    // what has to be destroyed when the whole completes
    leaf_log* parts = nullptr;
    bool      late  = false;
    void      done()
    {
      if (parts && parts->alive.load() != 0)
        late = true;
      if (!req)
        src.src.reset();
    }
    template <class O>
    void run(O& o)
    {
      unsigned when = pick(3);
      o.on_done     = [](void* p) { static_cast<stopper*>(p)->done(); };
      o.on_done_arg = this;
      if (req && when == 0)
        src.request_stop();
      else if (req && when == 1)
        ts.go([this] { src.request_stop(); });
      o.start();
      if (req && when == 2)
        src.request_stop();
      o.wait();
      ts.join();
    }
  };

  void expect(outcome const & o, result r, char const * what)
  {
    require_once(o, what);
    DSIM_CHECK(o.kind == r.kind && (r.kind == STOPPED || o.value == r.value), "wrong-completion",
               "%s should complete with %s %d, it completed with %s %d", what, name(r.kind), r.value, name(o.kind), o.value);
  }
  void expect_quiet(leaf_log const & l, char const * what)
  {
    DSIM_CHECK(l.started.load() == 0, "started-wrongly", "%s was started", what);
  }
  void expect_gone(leaf_log const & l, char const * what)
  {
    DSIM_CHECK(l.connected.load() == l.destroyed.load(), "leak", "%s: %d operations connected, %d destroyed", what, l.connected.load(),
               l.destroyed.load());
    DSIM_CHECK(l.started.load() == l.completed.load(), "lost-completion", "%s: %d operations started, %d completed", what,
               l.started.load(), l.completed.load());
  }

  // A sender that notes the start of the sender it wraps, in the calling thread.
  template <class S, class F>
  struct watched_sender
  {
    using sender_concept = ex::sender_tag;
    S s;
    F f;
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::get_completion_signatures<S, Env...>();
    }
    template <class R>
    struct wop
    {
      ex::connect_result_t<S, R> o;
      F                          f;
      wop(S&& s, F f, R r)
        : o(ex::connect(std::move(s), std::move(r)))
        , f(f)
      {}
      void start() & noexcept
      {
        f();
        ex::start(o);
      }
    };
    template <class R>
    auto connect(R r) && -> wop<R>
    {
      return wop<R>(std::move(s), f, std::move(r));
    }
    template <class R>
    auto connect(R r) const& -> wop<R>
    {
      return wop<R>(S(s), f, std::move(r));
    }
  };
  template <class S, class F>
  watched_sender<S, F> watched(S s, F f)
  {
    return {std::move(s), f};
  }

  // ------------------------------------------------------------------ finally
  template <class L, bool Ends = true>
  void finally_run()
  {
    workers  w(1 + pick(2));
    stopper  st;
    leaf_log li, lf;
    auto     i = mk<L>(w, li, 5, coin(), st.req);
    auto     f = mk<void_leaf>(w, lf, 7, false, st.req);
    unsigned bad = pick(8);  // 1: connecting the initial sender throws, 2: the final one
    bool     by_lvalue = coin();
    bool     first_gone = true;
    auto     last = watched(risky(owning(f), 32, bad == 2), [&] {
      // the initial operation is over and destroyed by now
      if (li.alive.load() != 0 || li.completed.load() != 1)
        first_gone = false;
    });
    auto     s    = [&] {
      if constexpr (Ends)
        return exec::finally(risky(owning(i), 31, bad == 1), std::move(last));
      else  // a final sender that never completes with a value
        return exec::finally(risky(owning(i), 31, bad == 1), std::move(last) | ex::let_value([]() noexcept { return ex::just_error(my_error{8}); }));
    }();
    try
    {
      auto run = [&](auto o) {
        DSIM_CHECK(bad != 1 && bad != 2, "lost-exception", "the exception thrown by connect did not reach the caller");
        if (pick(8) == 7)
        {
          o.reset();  // never started
          expect_quiet(li, "the initial sender of a finally that was not started");
          expect_quiet(lf, "the final sender of a finally that was not started");
          return;
        }
        st.run(*o);
        auto ri = end_of(li, i.kind_, i.val);
        if (i.throws && (ri.kind == VALUE || ri.kind == ERROR) && !std::is_same_v<L, leaf_sender<>>)
          ri = {ERROR, 1000 + i.val};
        DSIM_CHECK(lf.started.load() == 1, "final-lost", "the initial sender completed with %s but the final sender was started %d times",
                   name(end_of(li, i.kind_, 0).kind), lf.started.load());
        auto rf = end_of(lf, f.kind_, f.val);
        if (!Ends && rf.kind == VALUE)
          rf = {ERROR, 8};
        expect(o->out, rf.kind == VALUE ? ri : rf, "finally");
        DSIM_CHECK(first_gone, "final-early", "the final sender was started before the initial operation was over and destroyed");
      };
      if (by_lvalue)
      {
        auto const & cs = s;
        run(make_op(cs, tok_env(st.src.get_token()), coin()));
      }
      else
        run(make_op(std::move(s), tok_env(st.src.get_token()), coin()));
    }
    catch (my_error const & e)
    {
      DSIM_CHECK(bad == e.code - 30, "wrong-error", "got %d", e.code);
      expect_quiet(li, "the initial sender of a finally whose connect failed");
      expect_quiet(lf, "the final sender of a finally whose connect failed");
    }
    expect_gone(li, "initial sender");
    expect_gone(lf, "final sender");
  }

  // ------------------------------------------------------------------ let_*
  // moving it throws at some time
  struct wobbly
  {
    int* left;
    explicit wobbly(int& n)
      : left(&n)
    {}
    wobbly(wobbly&& o)
      : left(o.left)
    {
      if (--*left == 0)
        throw my_error{43};
    }
    wobbly(wobbly const & o)
      : wobbly(static_cast<wobbly&&>(const_cast<wobbly&>(o)))
    {}
  };
  struct plan
  {
    unsigned bad;  // 1: the function throws, 2: connecting its sender throws
    int      calls = 0;
  };
  template <class L, class Tag>
  void let_run(Tag let, int which)
  {
    workers  w(1 + pick(2));
    stopper  st;
    leaf_log l1, l2;
    bool     refs = !std::is_same_v<L, leaf_sender<>>;
    auto     a    = mk<L>(w, l1, 5, false, st.req);
    auto     b    = mk<leaf_sender<>>(w, l2, 9, false, st.req);
    if (refs && a.kind_ == which)
      a.throws = pick(3) == 2;
    plan     p{pick(6)};
    bool     gone = false;
    unsigned bad = pick(10);
    int      moves = 0;
    auto     fn   = [&, shaky = wobbly(moves), own = token(88)](auto&... args) mutable {
      if (!own.intact(88))
        dsim_fail("dead-object", "the function given to let is called although it was moved from");
      ++p.calls;
      DSIM_CHECK(((int_of(args) == 5) && ...), "wrong-value", "the function given to let was called with a wrong value");
      if (p.bad == 1)
        throw my_error{41};
      // the arguments have to live until the returned sender has completed
      auto keep = std::tuple<decltype(&args)...>(&args...);
      return risky(owning(b), 42, p.bad == 2) | ex::then([keep, &gone](token t) noexcept {
               std::apply([](auto*... q) { ((int_of(*q) == 5 ? void() : dsim_fail("dead-object", "the value given to the function of let changed before its sender completed")), ...); }, keep);
               gone = true;
               return t;
             });
    };
    moves  = coin() ? int(1 + pick(12)) : 0;
    bool shaking = moves != 0;
    try
    {
      auto s = let(risky(owning(a), 31, bad == 1), std::move(fn));
      auto o = make_op(std::move(s), tok_env(st.src.get_token()), coin());
      DSIM_CHECK(bad != 1, "lost-exception", "the exception thrown by connect did not reach the caller");
      if (pick(8) == 7)
      {
        o.reset();
        expect_quiet(l1, "the predecessor of a let that was not started");
      }
      else
      {
        st.run(*o);
        auto r1 = end_of(l1, a.kind_, a.val);
        if (r1.kind != which)
        {
          DSIM_CHECK(p.calls == 0, "started-wrongly", "the function given to let was called for %s", name(r1.kind));
          expect(o->out, r1, "let");
        }
        else if (a.throws && which != STOPPED)
        {
          DSIM_CHECK(p.calls == 0, "started-wrongly", "the function given to let was called although its argument could not be stored");
          expect(o->out, {ERROR, 1000 + a.val}, "let");
        }
        else
        {
          DSIM_CHECK(p.calls == 1, "call-count", "the function given to let was called %d times", p.calls);
          if (p.bad == 1)
            expect(o->out, {ERROR, 41}, "let");
          else if (p.bad == 2)
            expect(o->out, {ERROR, 42}, "let");
          else
            expect(o->out, end_of(l2, b.kind_, b.val), "let");
        }
        if (p.calls == 0 || p.bad == 1 || p.bad == 2)
          expect_quiet(l2, "the sender of a let");
      }
    }
    catch (my_error const & e)
    {
      DSIM_CHECK((bad == 1 && e.code == 31) || (shaking && e.code == 43), "wrong-error", "got %d", e.code);
      expect_quiet(l1, "the predecessor of a let whose connect failed");
    }
    expect_gone(l1, "predecessor of let");
    expect_gone(l2, "successor in let");
  }

  // ------------------------------------------------------------------ sequence
  template <class A>
  struct seq_run
  {
    workers  w{1 + pick(2)};
    stopper  st;
    leaf_log l[4];
    int      at = 0;
    bool     order = true;
    unsigned bad = pick(8);  // connecting the sender of that number throws (1: with the whole)
    auto     part(int i, auto s)
    {
      return watched(risky(owning(s), 30 + i, int(bad) == i + 1), [this, i] {
        if (at != i || (i && (l[i - 1].completed.load() != 1 || l[i - 1].alive.load() != 0)))
          order = false;
        at = i + 1;
      });
    }
    template <class S, class... K>
    void go(S s, A const & last, int n, K const &... k)
    {
      int kinds[] = {k.kind_..., last.kind_};
      int vals[]  = {k.val..., last.val};
      try
      {
        auto o = make_op(std::move(s), tok_env(st.src.get_token()), coin());
        DSIM_CHECK(bad != 1, "lost-exception", "the exception thrown by connect did not reach the caller");
        if (pick(8) == 7)
        {
          o.reset();
          expect_quiet(l[0], "the first sender of a sequence that was not started");
        }
        else
        {
          st.run(*o);
          DSIM_CHECK(order, "wrong-order", "a sender of a sequence was started too early, too late or twice");
          for (int i = 0;; ++i)
          {
            if (int(bad) == i + 1)
            {
              expect(o->out, {ERROR, 30 + i}, "sequence");
              for (int j = i; j < n; ++j)
                expect_quiet(l[j], "a sender of a sequence after one that could not be connected");
              break;
            }
            DSIM_CHECK(l[i].started.load() == 1, "lost-start", "sender %d of the sequence was not started", i);
            auto r = end_of(l[i], kinds[i], vals[i]);
            if (r.kind != VALUE || i + 1 == n)
            {
              expect(o->out, r, "sequence");
              for (int j = i + 1; j < n; ++j)
                expect_quiet(l[j], "a sender of a sequence after one that did not complete with a value");
              break;
            }
          }
        }
      }
      catch (my_error const & e)
      {
        DSIM_CHECK(bad == 1 && e.code == 30, "wrong-error", "got %d", e.code);
      }
      for (auto& x: l)
        expect_gone(x, "sender of a sequence");
    }
    void run()
    {
      auto a = mk<void_leaf>(w, l[0], 5, false, st.req);
      auto b = mk<void_leaf>(w, l[1], 6, false, st.req);
      if (coin())
      {
        auto z = mk<A>(w, l[1], 8, false, st.req);
        go(exec::sequence(part(0, a), part(1, z)), z, 2, a);
      }
      else
      {
        auto z = mk<A>(w, l[2], 8, false, st.req);
        go(exec::sequence(part(0, a), part(1, b), part(2, z)), z, 3, a, b);
      }
    }
  };

  // ------------------------------------------------------------------ repeat_until, repeat_n, repeat
  template <class L, bool N>
  void repeat_run()
  {
    workers  w(1 + pick(2));
    stopper  st;
    leaf_log log;
    leaf_log all;
    log.up = &all;
    all.many = true;
    int      want = pick(4) ? int(pick(5)) : int(pick(60));
    if (!N)
      ++want;
    int      trouble = pick(3) ? -1 : int(pick(unsigned(want) + 1));  // the round in which something fails
    unsigned what    = pick(4);                                        // ... and what
    int      rounds = 0;
    auto     mode   = leaf_mode(pick(st.req ? 4 : 3));
    if (want > 12 && pick(2))
      mode = L_INLINE;
    bool throws = coin();
    int  depth = 0, deepest = 0;
    // each round connects a copy of the child, so the function decides what this round does
    auto child = ex::just() | ex::let_value([&]() {
                   int r = rounds++;
                   ++depth;
                   deepest = depth > deepest ? depth : deepest;
                   bool t = r == trouble;
                   if (t && what == 0)
                     throw my_error{50};
                   return risky(L{&w, &log, mode, t && what == 1 ? ERROR : t && what == 2 ? STOPPED : VALUE, 5, throws}, 51, t && what == 3);
                 });
    auto judge = [&](outcome const & o) {
      bool failed = trouble >= 0 && trouble < want && !log.by_stop;
      if (failed)
      {
        DSIM_CHECK(rounds == trouble + 1, "wrong-count", "round %d failed, but %d rounds were run", trouble, rounds);
        int err = what == 0 ? 50 : what == 3 ? 51 : !std::is_same_v<L, void_leaf> && throws ? 1005 : 5;
        expect(o, what == 2 ? result{STOPPED, 0} : result{ERROR, err}, "repeat");
      }
      else if (o.kind == STOPPED && st.req)
      {
        // the trampoline or the leaf noticed the request
        DSIM_CHECK(rounds <= want, "wrong-count", "%d rounds were run instead of at most %d", rounds, want);
      }
      else
      {
        DSIM_CHECK(rounds == want, "wrong-count", "%d rounds were run instead of %d", rounds, want);
        expect(o, {VALUE, 0}, "repeat");
      }
    };
    auto run = [&](auto s) {
      auto o   = make_op(std::move(s), tok_env(st.src.get_token()), coin());
      st.parts = &all;
      st.run(*o);
      DSIM_CHECK(!st.late || (o->out.kind == ERROR && o->out.value == 1005), "late-destruction",
                 "repeat completed before the operation of its last round was destroyed");
      if (o->out.kind == STOPPED && st.req && log.last != STOPPED)
        DSIM_CHECK(rounds <= want, "wrong-count", "%d rounds were run instead of at most %d", rounds, want);
      else
        judge(o->out);
      require_once(o->out, "repeat");
    };
    if constexpr (N)
      run(exec::repeat_n(std::move(child), std::size_t(want)));
    else
      run(exec::repeat_until(std::move(child) | ex::then([&] {
                               return rounds == want;
                             })));
    expect_gone(all, "child of repeat");
  }
  // the condition may throw; the stack does not grow with the number of rounds
  void repeat_deep()
  {
    int      rounds = 0, depth = 0, deepest = 0;
    int      want = 1 + int(pick(400));
    bool     bad  = coin();
    struct lazy
    {
      int  r, want;
      bool bad;
      operator bool() const
      {
        if (bad && r == want)
          throw my_error{61};
        return r == want;
      }
    };
    struct nest
    {
      int* d;
      ~nest()
      {
        --*d;
      }
    };
    auto child = ex::just() | ex::then([&] {
                   ++rounds;
                   return lazy{rounds, want, bad};
                 });
    auto w = watched(std::move(child), [&] {
      char here;
      static char* first;
      if (rounds == 0)
        first = &here;
      auto d  = first > &here ? first - &here : &here - first;
      deepest = int(d) > deepest ? int(d) : deepest;
    });
    auto o = make_op(exec::repeat_until(std::move(w)), ex::env<>{}, coin());
    (void) depth;
    o->start();
    o->wait();
    expect(o->out, bad ? result{ERROR, 61} : result{VALUE, 0}, "repeat_until");
    DSIM_CHECK(rounds == want, "wrong-count", "%d rounds were run instead of %d", rounds, want);
    DSIM_CHECK(deepest < 32 * 1024, "stack-growth", "%d rounds used %d bytes of stack", want, deepest);
  }

  // copying it throws at some time
  struct bomb
  {
    int* left;
    explicit bomb(int& n)
      : left(&n)
    {}
    bomb(bomb&&) noexcept = default;
    bomb(bomb const & o)
      : left(o.left)
    {
      if (--*left == 0)
        throw my_error{44};
    }
  };
  template <class S>
  struct bomb_sender
  {
    using sender_concept = ex::sender_tag;
    S    s;
    bomb b;
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::get_completion_signatures<S, Env...>();
    }
    template <class R>
    auto connect(R r) && noexcept -> ex::connect_result_t<S, R>
    {
      return ex::connect(std::move(s), std::move(r));
    }
    template <class R>
    auto connect(R r) const& -> ex::connect_result_t<S, R>
    {
      bomb mine(b);
      return ex::connect(S(s), std::move(r));
    }
  };
  // some number of false, then true: which of them is known at compile time
  struct verdicts
  {
    using sender_concept = ex::sender_tag;
    int* left;
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::completion_signatures<set_value_t(std::false_type), set_value_t(std::true_type), set_value_t(bool)>{};
    }
    template <class R>
    struct vop
    {
      R    r;
      int* left;
      void start() & noexcept
      {
        bool same = coin();
        if (--*left > 0)
          same ? ex::set_value(std::move(r), false) : ex::set_value(std::move(r), std::false_type{});
        else
          same ? ex::set_value(std::move(r), true) : ex::set_value(std::move(r), std::true_type{});
      }
    };
    template <class R>
    auto connect(R r) const noexcept -> vop<R>
    {
      return {std::move(r), left};
    }
  };
  // each round connects a copy of the sender
  template <int Which>
  void repeat_copies()
  {
    workers  w(1);
    stopper  st;
    leaf_log log, all;
    log.up   = &all;
    all.many = true;
    int want = 1 + int(pick(6));
    int left = want;
    int n    = 0;
    auto mode = leaf_mode(pick(3));
    auto leaf = void_leaf{&w, &log, mode, Which == 2 ? ERROR : VALUE, 5};
    auto s    = [&] {
      if constexpr (Which == 0)
        return exec::repeat_n(bomb_sender<void_leaf>{leaf, bomb(n)}, std::size_t(want));
      else if constexpr (Which == 1)
      {
        auto child = leaf | ex::let_value([&left]() noexcept { return verdicts{&left}; });
        return exec::repeat_until(bomb_sender<decltype(child)>{std::move(child), bomb(n)});
      }
      else  // ends with an error
        return exec::repeat(bomb_sender<void_leaf>{leaf, bomb(n)});
    }();
    bool by_lvalue = coin();
    n              = int(pick(unsigned(want) + 6));
    int  armed     = n;
    auto judge     = [&](auto o) {
      st.parts = &all;
      if (pick(6) == 5)
      {
        o.reset();
        expect_quiet(all, "child of a repeat that was not started");
        return;
      }
      st.run(*o);
      require_once(o->out, "repeat");
      DSIM_CHECK(!st.late || (armed && n <= 0), "late-destruction", "repeat completed before the operation of its last round was destroyed");
      if (armed && n <= 0)
        DSIM_CHECK(o->out.kind == ERROR && o->out.value == 44, "wrong-completion", "copying the sender threw, repeat completed with %s %d",
                   name(o->out.kind), o->out.value);
      else if (o->out.kind == STOPPED && st.req)
        ;  // a trampoline noticed
      else
      {
        DSIM_CHECK(all.started.load() == (Which == 2 ? 1 : want), "wrong-count", "%d rounds were run instead of %d", all.started.load(), want);
        expect(o->out, Which == 2 ? result{ERROR, 5} : result{VALUE, 0}, "repeat");
      }
    };
    try
    {
      if (by_lvalue)
      {
        auto const & cs = s;
        judge(make_op(cs, tok_env(st.src.get_token()), coin()));
      }
      else
        judge(make_op(std::move(s), tok_env(st.src.get_token()), coin()));
    }
    catch (my_error const & e)
    {
      DSIM_CHECK(armed && n <= 0 && e.code == 44, "wrong-error", "got %d", e.code);
      expect_quiet(all, "child of a repeat whose connect failed");
    }
    expect_gone(all, "child of repeat");
  }

  // ------------------------------------------------------------------ fork_join
  template <class L>
  void fork_run()
  {
    workers  w(1 + pick(2));
    stopper  st;
    leaf_log l1, lb[2];
    auto     a   = mk<L>(w, l1, 5, coin(), st.req);
    if (std::is_same_v<L, leaf_sender<>>)
      a.throws = false;
    unsigned bad = pick(8);
    unsigned boom = pick(6);
    int      calls[2] = {0, 0};
    leaf_sender<> br[2] = {mk<leaf_sender<>>(w, lb[0], 7, false, st.req), mk<leaf_sender<>>(w, lb[1], 9, false, st.req)};
    auto branch = [&](int i) {
      return ex::let_value([&, i](auto& v) {
        ++calls[i];
        DSIM_CHECK(int_of(v) == 5, "wrong-value", "a branch of fork_join got a wrong value");
        if (int(boom) == i + 1)
          throw my_error{70 + i};
        return br[i];
      });
    };
    try
    {
      auto o = make_op(exec::fork_join(risky(owning(a), 31, bad == 1), branch(0), branch(1)), tok_env(st.src.get_token()), coin());
      DSIM_CHECK(bad != 1, "lost-exception", "the exception thrown by connect did not reach the caller");
      if (pick(8) == 7)
      {
        o.reset();
        expect_quiet(l1, "the child of a fork_join that was not started");
      }
      else
      {
        st.run(*o);
        require_once(o->out, "fork_join");
        auto r1 = end_of(l1, a.kind_, a.val);
        if (a.throws && r1.kind != STOPPED)
          r1 = {ERROR, 1000 + a.val};
        if (r1.kind != VALUE)
        {
          DSIM_CHECK(calls[0] + calls[1] == 0, "started-wrongly", "a branch of fork_join ran although its input did not arrive");
          if (!(o->out.kind == STOPPED && st.req))
            expect(o->out, r1, "fork_join");
        }
        else
        {
          // what each branch did
          bool any_err = false, any_stop = false;
          int  e[2] = {0, 0};
          for (int i = 0; i < 2; ++i)
          {
            if (calls[i] == 0)
            {
              // only possible when the whole was asked to stop before
              DSIM_CHECK(st.req || o->out.kind != VALUE, "lost-start", "a branch of fork_join was not run");
              continue;
            }
            DSIM_CHECK(calls[i] == 1, "call-count", "a branch of fork_join ran %d times", calls[i]);
            auto r = int(boom) == i + 1 ? result{ERROR, 70 + i} : end_of(lb[i], br[i].kind_, br[i].val);
            if (r.kind == ERROR)
              any_err = true, e[i] = r.value;
            if (r.kind == STOPPED)
              any_stop = true;
          }
          auto& q = o->out;
          if (q.kind == VALUE)
            DSIM_CHECK(!any_err && !any_stop && q.value == 16, "wrong-completion", "fork_join completed with value %d", q.value);
          else if (q.kind == ERROR)
            DSIM_CHECK(any_err && (q.value == e[0] || q.value == e[1]), "wrong-completion", "fork_join completed with error %d", q.value);
          else
            DSIM_CHECK(any_stop || st.req, "wrong-completion", "fork_join completed with stopped, but nothing stopped");
        }
      }
    }
    catch (my_error const & e)
    {
      DSIM_CHECK(bad == 1 && e.code == 31, "wrong-error", "got %d", e.code);
    }
    expect_gone(l1, "child of fork_join");
    for (auto& x: lb)
      expect_gone(x, "branch of fork_join");
  }
}  // namespace

SCENARIO(finally_values, 3)
{
  finally_run<leaf_sender<>>();
}
SCENARIO(finally_refs, 3)
{
  finally_run<touchy_leaf>();
}
SCENARIO(finally_fails, 2)
{
  finally_run<leaf_sender<>, false>();
}
SCENARIO(let_value, 2)
{
  let_run<leaf_sender<>>(ex::let_value, VALUE);
}
SCENARIO(let_value_refs, 2)
{
  let_run<touchy_leaf>(ex::let_value, VALUE);
}
SCENARIO(let_error, 2)
{
  let_run<leaf_sender<>>(ex::let_error, ERROR);
}
SCENARIO(let_error_refs, 2)
{
  let_run<touchy_leaf>(ex::let_error, ERROR);
}
SCENARIO(let_stopped, 2)
{
  let_run<leaf_sender<>>(ex::let_stopped, STOPPED);
}
SCENARIO(sequence, 4)
{
  seq_run<leaf_sender<>>{}.run();
}
SCENARIO(repeat_until, 3)
{
  repeat_run<void_leaf, false>();
}
SCENARIO(repeat_until_refs, 2)
{
  repeat_run<void_ref_leaf, false>();
}
SCENARIO(repeat_n, 3)
{
  repeat_run<void_leaf, true>();
}
SCENARIO(repeat_n_refs, 2)
{
  repeat_run<void_ref_leaf, true>();
}
SCENARIO(repeat_n_copies, 2)
{
  repeat_copies<0>();
}
SCENARIO(repeat_until_copies, 2)
{
  repeat_copies<1>();
}
SCENARIO(repeat_copies, 1)
{
  repeat_copies<2>();
}
SCENARIO(repeat_deep, 1)
{
  repeat_deep();
}
SCENARIO(fork_join, 3)
{
  fork_run<leaf_sender<>>();
}
SCENARIO(fork_join_refs, 3)
{
  fork_run<touchy_leaf>();
}
