// C21: where work runs and what it sees: starts_on, continues_on, on, affine, reschedule, let_*, environments
#include "common.hpp"

#include <exec/finally.hpp>
#include <exec/into_tuple.hpp>
#include <exec/reschedule.hpp>
#include <exec/sequence.hpp>
#include <exec/single_thread_context.hpp>
#include <exec/static_thread_pool.hpp>
#include <exec/when_any.hpp>
using namespace h;

namespace
{
  // a query of the user's own
  struct get_tag_t : ex::forwarding_query_t
  {
    template <class Env>
      requires requires(Env const & e, get_tag_t q) { e.query(q); }
    auto operator()(Env const & e) const noexcept
    {
      return e.query(*this);
    }
    static constexpr auto query(ex::forwarding_query_t) noexcept -> bool
    {
      return true;
    }
  };
  constexpr get_tag_t get_tag{};

  struct loop_ctx
  {
    ex::run_loop loop;
    int          tid = -1;
    std::thread  t;
    loop_ctx()
      : t([this] {
        tid = dsim_tid();
        loop.run();
      })
    {}
    ~loop_ctx()
    {
      loop.finish();
      t.join();
    }
    auto sched()
    {
      return loop.get_scheduler();
    }
    bool here() const
    {
      return std::this_thread::get_id() == t.get_id();
    }
  };
  struct pool_ctx
  {
    exec::static_thread_pool pool;
    // one scheduler for the run: those that different threads obtain compare unequal
    exec::static_thread_pool::scheduler s;
    unsigned                            first, n;
    explicit pool_ctx(unsigned n)
      : pool(n)
      , s(pool.get_scheduler())
      , first(1)
      , n(n)
    {}
    auto sched()
    {
      return s;
    }
    bool here() const
    {
      unsigned t = unsigned(dsim_tid());
      return t >= first && t < first + n;
    }
  };
  using loop_sched = decltype(std::declval<ex::run_loop&>().get_scheduler());
  using pool_sched = decltype(std::declval<exec::static_thread_pool&>().get_scheduler());

  // the consumer's environment
  struct home_env
  {
    loop_sched             s;
    ex::inplace_stop_token t;
    int                    tag;
    auto                   query(ex::get_start_scheduler_t) const noexcept
    {
      return s;
    }
    auto query(ex::get_stop_token_t) const noexcept
    {
      return t;
    }
    auto query(get_tag_t) const noexcept
    {
      return tag;
    }
  };

  struct spot
  {
    int  n    = 0;   // times passed
    bool a, b, c;    // where
    int  tag = 0;
    template <class W>
    void note(W& w)
    {
      ++n;
      a = w.A.here();
      b = w.B.here();
      c = w.C.here();
    }
  };

  struct world
  {
    // the pool comes first: its threads have the first numbers
    pool_ctx C{1 + pick(2)};
    loop_ctx A, B;
    workers  w{1};
    leaf_log log, log2;
    stop_box src;
    bool     req = coin();
    bool     main_start = coin();
    int      tag = int(pick(100)) + 1;
    threads  ts;
    spot     begin, mid, mid2, end;

    leaf_sender<> any(leaf_log& l, int v, bool hang = true)
    {
      return any_leaf(w, l, v, req && hang);
    }
    // notes where a sender is started and what environment it sees there
    template <class S>
    struct probe
    {
      using sender_concept = ex::sender_tag;
      S      s;
      spot*  at;
      world* w;
      template <class Self, class... Env>
      static consteval auto get_completion_signatures()
      {
        return ex::get_completion_signatures<S, Env...>();
      }
      template <class R>
      struct pop
      {
        spot*                      at;
        world*                     w;
        int                        tag;
        ex::connect_result_t<S, R> o;
        pop(S&& s, spot* at, world* w, R r)
          : at(at)
          , w(w)
          , tag(get_tag(ex::get_env(r)))
          , o(ex::connect(std::move(s), std::move(r)))
        {}
        void start() & noexcept
        {
          at->tag = tag;
          at->note(*w);
          DSIM_CHECK(tag == w->tag, "lost-query", "a step sees %d for a query of the consumer's environment, which says %d", tag, w->tag);
          ex::start(o);
        }
      };
      template <class R>
      auto connect(R r) && -> pop<R>
      {
        return pop<R>(std::move(s), at, w, std::move(r));
      }
      template <class R>
      auto connect(R r) const& -> pop<R>
      {
        return pop<R>(S(s), at, w, std::move(r));
      }
    };
    template <class S>
    probe<S> watch(spot& at, S s)
    {
      return {std::move(s), &at, this};
    }
    auto pass(spot& at)
    {
      return ex::then([this, &at](auto&&... vs) noexcept {
        at.note(*this);
        if constexpr (sizeof...(vs) == 1)
          return (std::decay_t<decltype(vs)>(static_cast<decltype(vs)&&>(vs)), ...);
      });
    }

    template <class S>
    outcome run(S s)
    {
      // what the consumer sees
      auto noted = [this](auto&& snd) {
        return static_cast<decltype(snd)&&>(snd);
      };
      auto o = make_op(noted(std::move(s)), home_env{A.sched(), src.get_token(), tag}, coin());
      struct hook
      {
        world* w;
        bool   req;
      } hk{this, req};
      o->on_done = [](void* p) {
        auto* h = static_cast<hook*>(p);
        h->w->end.note(*h->w);
        if (!h->req)
          h->w->src.src.reset();
      };
      o->on_done_arg = &hk;
      unsigned when  = pick(3);
      if (req && when == 0)
        src.request_stop();
      else if (req && when == 1)
        ts.go([this] { src.request_stop(); });
      if (main_start)
        o->start();
      else
        ex::sync_wait(ex::schedule(A.sched()) | ex::then([&] { o->start(); }));
      if (req && when == 2)
        src.request_stop();
      o->wait();
      ts.join();
      require_once(o->out, "operation");
      outcome out = o->out;
      return out;
    }
    bool plain(leaf_log const & l) const
    {
      return !l.by_stop;
    }
    void is(outcome const & o, int k, int v, char const * what)
    {
      if (o.kind == STOPPED && req)
        return;
      DSIM_CHECK(o.kind == k && (k == STOPPED || o.value == v), "wrong-completion", "%s should complete with %s %d, it completed with %s %d", what,
                 name(k), v, name(o.kind), o.value);
    }
    void gone()
    {
      for (auto* l: {&log, &log2})
      {
        DSIM_CHECK(l->connected.load() == l->destroyed.load(), "leak", "%d operations connected, %d destroyed", l->connected.load(),
                   l->destroyed.load());
        DSIM_CHECK(l->started.load() == l->completed.load(), "lost-completion", "%d operations started, %d completed", l->started.load(),
                   l->completed.load());
      }
    }
  };

#define AT(cond, what) DSIM_CHECK(cond, "wrong-context", "%s", what)

  // the third context is a loop or a pool
  template <class F>
  void with_sched(world& W, F f)
  {
    if (coin())
      f(W.B.sched(), [&](spot const & s) { return s.b; });
    else
      f(W.C.sched(), [&](spot const & s) { return s.c; });
  }
}  // namespace

SCENARIO(starts_on, 2)
{
  world W;
  with_sched(W, [&](auto sch, auto on) {
    auto l = W.any(W.log, 5);
    auto o = W.run(ex::starts_on(sch, W.watch(W.begin, owning(l))));
    if (W.begin.n)
    {
      AT(on(W.begin), "a sender given to starts_on was started elsewhere");
      if (l.mode == L_INLINE)
        AT(on(W.end), "a sender that completes inline was started by starts_on but completed elsewhere");
      W.is(o, l.kind_, 5, "starts_on");
    }
    else
      DSIM_CHECK(W.req && o.kind == STOPPED, "lost-start", "starts_on completed with %s without starting its sender", name(o.kind));
  });
  W.gone();
}

SCENARIO(continues_on, 2)
{
  world W;
  with_sched(W, [&](auto sch, auto on) {
    auto l = W.any(W.log, 5);
    auto o = W.run(W.watch(W.begin, owning(l)) | ex::continues_on(sch));
    DSIM_CHECK(W.begin.n == 1, "lost-start", "the child of continues_on was not started");
    AT(on(W.end), "continues_on completed elsewhere");
    W.is(o, l.kind_, 5, "continues_on");
  });
  W.gone();
}
SCENARIO(continues_on_refs, 2)
{
  world W;
  with_sched(W, [&](auto sch, auto on) {
    auto l = ref_leaf(W.w, W.log, leaf_mode(pick(W.req ? 4 : 3)), 1 + int(pick(3)), 5, coin());
    auto o = W.run(W.watch(W.begin, owning(l)) | ex::continues_on(sch));
    bool threw = l.throws && l.kind_ != STOPPED && W.plain(W.log);
    if (!threw)
      AT(on(W.end), "continues_on completed elsewhere");
    W.is(o, threw ? ERROR : l.kind_, threw ? 1005 : 5, "continues_on");
  });
  W.gone();
}
// there and back
SCENARIO(on_whole, 3)
{
  world W;
  with_sched(W, [&](auto sch, auto on) {
    auto l = W.any(W.log, 5);
    auto o = W.run(ex::on(sch, W.watch(W.begin, owning(l))));
    if (W.begin.n)
      AT(on(W.begin), "a sender given to on was started elsewhere");
    else
      DSIM_CHECK(W.req && o.kind == STOPPED, "lost-start", "on completed with %s without starting its sender", name(o.kind));
    AT(W.end.a, "on(sched, sender) did not come back to the scheduler it was started on");
    W.is(o, l.kind_, 5, "on");
  });
  W.gone();
}
SCENARIO(on_nested, 2)
{
  world W;
  auto  l = W.any(W.log, 5);
  auto  o = W.run(ex::on(W.B.sched(), W.watch(W.mid, ex::on(W.C.sched(), W.watch(W.begin, owning(l))) | W.pass(W.mid2))));
  if (W.begin.n)
    AT(W.begin.c && W.mid.b, "a sender given to a nested on was started elsewhere");
  if (W.mid2.n)
    AT(W.mid2.b, "a nested on did not come back to the scheduler of the outer one");
  AT(W.end.a, "on(sched, sender) did not come back to the scheduler it was started on");
  W.is(o, l.kind_, 5, "on");
  W.gone();
}
SCENARIO(on_closure, 3)
{
  world W;
  auto  l = W.any(W.log, 5);
  bool  from_pool = coin();
  auto  go = [&](auto first, auto second, auto in_first, auto in_second) {
    auto o = W.run(ex::schedule(first) | W.pass(W.mid) | ex::on(second, ex::let_value([&] {
                                                                         W.mid2.note(W);
                                                                         return W.watch(W.begin, owning(l));
                                                                       })));
    if (W.mid.n)
      AT(in_first(W.mid), "the sender before on(sched, closure) ran elsewhere");
    if (W.mid2.n)
      AT(in_second(W.mid2) && in_second(W.begin), "the closure given to on ran elsewhere");
    else
      DSIM_CHECK(W.req && o.kind == STOPPED, "lost-start", "on completed with %s without running its closure", name(o.kind));
    AT(in_first(W.end), "on(sched, closure) did not come back to the completion scheduler of its sender");
    W.is(o, l.kind_, 5, "on");
  };
  auto b = [](spot const & s) { return s.b; };
  auto c = [](spot const & s) { return s.c; };
  if (from_pool)
    go(W.C.sched(), W.B.sched(), c, b);
  else
    go(W.B.sched(), W.C.sched(), b, c);
  W.gone();
}
// completes on the start scheduler, even when asked to stop
SCENARIO(affine, 3)
{
  world W;
  with_sched(W, [&](auto sch, auto) {
    auto l = W.any(W.log, 5);
    auto o = W.run(ex::affine(ex::starts_on(sch, W.watch(W.begin, owning(l)))));
    AT(W.end.a, "affine completed elsewhere than on the start scheduler");
    // the hop itself cannot be stopped
    if (W.begin.n)
      DSIM_CHECK(o.kind == (W.plain(W.log) ? l.kind_ : STOPPED), "wrong-completion", "affine changed %s to %s",
                 name(W.plain(W.log) ? l.kind_ : STOPPED), name(o.kind));
    W.is(o, l.kind_, 5, "affine");
  });
  W.gone();
}
SCENARIO(affine_refs, 2)
{
  world W;
  auto  l = ref_leaf(W.w, W.log, leaf_mode(pick(W.req ? 4 : 3)), 1 + int(pick(3)), 5, coin());
  auto  o = W.run(ex::affine(W.watch(W.begin, owning(l))));
  bool  threw = l.throws && l.kind_ != STOPPED && W.plain(W.log);
  AT(W.end.a, "affine completed elsewhere than on the start scheduler");
  DSIM_CHECK(o.kind == (threw ? ERROR : W.plain(W.log) ? l.kind_ : STOPPED), "wrong-completion", "affine completed with %s", name(o.kind));
  W.is(o, threw ? ERROR : l.kind_, threw ? 1005 : 5, "affine");
  W.gone();
}
// senders that promise to complete inline in some ways only
namespace
{
  template <class R>
  struct some_op : job
  {
    workers*  w;
    leaf_log* l;
    unsigned  inl;
    int       kind;
    R         r;
    some_op(workers* w, leaf_log* l, unsigned inl, int kind, R r)
      : w(w), l(l), inl(inl), kind(kind), r(std::move(r))
    {
      l->connected++;
    }
    some_op(some_op&&) = delete;
    ~some_op()
    {
      l->destroyed++;
    }
    void start() & noexcept
    {
      l->started++;
      if (inl & (1u << (kind == VALUE ? 0 : kind == ERROR ? 1 : 2)))
        return fire();
      run = [](job* j) { static_cast<some_op*>(j)->fire(); };
      w->post(this);
    }
    void fire() noexcept
    {
      l->completed++;
      if (kind == VALUE)
        ex::set_value(std::move(r), token(5));
      else if (kind == ERROR)
        ex::set_error(std::move(r), my_error{5});
      else
        ex::set_stopped(std::move(r));
    }
  };
  template <unsigned Inline>
  struct some_attrs
  {
    template <class Tag>
    constexpr auto query(ex::__get_completion_behavior_t<Tag>) const noexcept
    {
      constexpr unsigned bit = std::is_same_v<Tag, ex::set_value_t> ? 1 : std::is_same_v<Tag, ex::set_error_t> ? 2 : 4;
      if constexpr (Inline & bit)
        return ex::__completion_behavior::__inline_completion;
      else if constexpr (Inline & 8)
        return ex::__completion_behavior::__asynchronous;
      else
        return ex::__completion_behavior::__unknown;
    }
  };
  template <unsigned Inline>
  struct some
  {
    using sender_concept = ex::sender_tag;
    using completion_signatures =
      ex::completion_signatures<ex::set_value_t(token), ex::set_error_t(my_error), ex::set_stopped_t()>;
    workers*  w;
    leaf_log* l;
    int       kind;
    template <class R>
    auto connect(R r) const -> some_op<R>
    {
      return {w, l, Inline & 7, kind, std::move(r)};
    }
    auto get_env() const noexcept -> some_attrs<Inline>
    {
      return {};
    }
  };
  template <unsigned Inline>
  void some_affine()
  {
    world W;
    W.main_start = false;
    int  k = 1 + int(pick(3));
    auto o = pick(3) == 2 ? W.run(some<Inline>{&W.w, &W.log, k} | ex::affine()) : W.run(ex::affine(some<Inline>{&W.w, &W.log, k}));
    AT(W.end.a, "affine completed elsewhere than on the start scheduler");
    DSIM_CHECK(o.kind == k && (k == STOPPED || o.value == 5), "wrong-completion", "affine changed %s 5 to %s %d", name(k), name(o.kind),
               o.value);
    W.gone();
  }
}  // namespace
SCENARIO(affine_some, 2)
{
  using fn             = void (*)();
  static fn const all[] = {some_affine<0>,  some_affine<1>,  some_affine<2>,  some_affine<3>,  some_affine<4>,  some_affine<5>,
                           some_affine<6>,  some_affine<7>,  some_affine<9>,  some_affine<10>, some_affine<12>, some_affine<14>};
  all[pick(12)]();
}
SCENARIO(reschedule, 2)
{
  world W;
  auto  l = W.any(W.log, 5);
  auto  o = W.run(exec::reschedule(W.watch(W.begin, owning(l))));
  AT(W.end.a, "reschedule completed elsewhere than on the start scheduler");
  W.is(o, l.kind_, 5, "reschedule");
  W.gone();
}
// what a step started by another step sees as its start scheduler, and where it runs
SCENARIO(chain, 3)
{
  world W;
  auto  l = W.any(W.log, 5);
  bool  same = true;
  auto  o = W.run(ex::schedule(W.B.sched()) | ex::let_value([&] {
                   W.mid.note(W);
                   return ex::read_env(ex::get_start_scheduler) | ex::let_value([&](auto& s) {
                            same = same && s == W.B.sched();
                            return W.watch(W.begin, owning(l)) | ex::let_error([&](auto&&) {
                                     return ex::just(token(6));
                                   });
                          });
                 })
                 | ex::continues_on(W.C.sched()) | ex::let_value([&](token& t) {
                     W.mid2.note(W);
                     return ex::read_env(ex::get_start_scheduler) | ex::then([&](auto s) {
                              same = same && s == W.C.sched();
                              return int_of(t);
                            });
                   }));
  DSIM_CHECK(same, "wrong-scheduler", "a step sees another start scheduler than the one it was started on");
  if (W.mid.n)
    AT(W.mid.b && W.begin.b, "a step after schedule() ran elsewhere");
  if (W.mid2.n)
    AT(W.mid2.c, "a step after continues_on() ran elsewhere");
  if (o.kind == VALUE)
    AT(W.end.c, "a chain completed elsewhere");
  W.is(o, l.kind_ == STOPPED ? STOPPED : VALUE, l.kind_ == ERROR ? 6 : 5, "chain");
  W.gone();
}
SCENARIO(forks, 2)
{
  world W;
  auto  l = W.any(W.log, 5), m = W.any(W.log2, 6);
  auto  o = W.run(ex::when_all(ex::starts_on(W.B.sched(), W.watch(W.begin, owning(l))), ex::on(W.C.sched(), W.watch(W.mid, owning(m))))
                 | ex::continues_on(W.B.sched()));
  if (W.begin.n)
    AT(W.begin.b, "a sender given to starts_on was started elsewhere");
  if (W.mid.n)
    AT(W.mid.c, "a sender given to on was started elsewhere");
  AT(W.end.b, "continues_on completed elsewhere");
  if (l.kind_ == VALUE && m.kind_ == VALUE)
    W.is(o, VALUE, 11, "when_all");
  W.gone();
}
SCENARIO(sequences, 2)
{
  world W;
  auto  l = W.any(W.log, 5);
  bool  same = true;
  auto  o = W.run(exec::finally(exec::sequence(ex::schedule(W.B.sched()), ex::read_env(ex::get_start_scheduler) | ex::then([&](auto s) {
                                                                            same = same && s == W.B.sched();
                                                                          }),
                                               W.watch(W.begin, owning(l))),
                               ex::on(W.C.sched(), W.watch(W.mid, ex::just()) | W.pass(W.mid2))));
  DSIM_CHECK(same, "wrong-scheduler", "a step of a sequence sees another start scheduler than the one it was started on");
  if (W.begin.n)
    AT(W.begin.b, "the second sender of a sequence was not started where the first completed");
  if (W.mid.n)
    AT(W.mid.c && W.mid2.c, "the final sender ran elsewhere");
  (void) o;
  W.gone();
}

// ---- what senders say about themselves, and what adaptors change in the environment
namespace
{
  struct said
  {
    using sender_concept = ex::sender_tag;
    int v;
    struct attrs
    {
      int  v;
      auto query(get_tag_t) const noexcept -> int
      {
        return v;
      }
    };
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::completion_signatures<set_value_t(token), set_error_t(my_error), set_stopped_t()>{};
    }
    template <class R>
    struct sop
    {
      R    r;
      void start() & noexcept
      {
        ex::set_value(std::move(r), token(5));
      }
    };
    template <class R>
    auto connect(R r) const -> sop<R>
    {
      return {std::move(r)};
    }
    auto get_env() const noexcept -> attrs
    {
      return {v};
    }
  };
  template <class S>
  void says(S const & s, int v, char const * what)
  {
    if constexpr (requires { get_tag(ex::get_env(s)); })
      DSIM_CHECK(get_tag(ex::get_env(s)) == v, "lost-query", "%s answers %d to a query its child answers with %d", what, get_tag(ex::get_env(s)), v);
  }
}  // namespace
SCENARIO(attributes, 1)
{
  world W;
  int   v = 1 + int(pick(1000));
  said  s{v};
  auto  f = [](auto&&...) { return 1; };
  auto  g = [](auto&&...) { return ex::just(1); };
  says(s, v, "the sender itself");
  says(ex::then(s, f), v, "then");
  says(ex::upon_error(s, f), v, "upon_error");
  says(ex::upon_stopped(s, f), v, "upon_stopped");
  says(ex::let_value(s, g), v, "let_value");
  says(ex::let_error(s, g), v, "let_error");
  says(ex::let_stopped(s, g), v, "let_stopped");
  says(ex::continues_on(s, W.B.sched()), v, "continues_on");
  says(ex::starts_on(W.B.sched(), s), v, "starts_on");
  says(ex::on(W.B.sched(), s), v, "on");
  says(ex::bulk(s, ex::seq, 3, [](auto&&...) {}), v, "bulk");
  says(ex::into_variant(s), v, "into_variant");
  says(ex::stopped_as_optional(s), v, "stopped_as_optional");
  says(ex::stopped_as_error(s, my_error{1}), v, "stopped_as_error");
  says(ex::affine(s), v, "affine");
  says(ex::write_env(s, ex::prop{get_tag, v + 1}), v, "write_env");
  says(ex::unstoppable(s), v, "unstoppable");
  says(exec::into_tuple(s), v, "into_tuple");
  says(exec::reschedule(s), v, "reschedule");
  says(ex::schedule_from(s), v, "schedule_from");
  says(exec::when_any(s), v, "when_any");
  // schedulers complete where they say they do
  DSIM_CHECK(ex::get_completion_scheduler<set_value_t>(ex::get_env(ex::schedule(W.B.sched()))) == W.B.sched(), "wrong-scheduler",
             "schedule() names another scheduler");
  DSIM_CHECK(ex::get_completion_scheduler<set_value_t>(ex::get_env(ex::schedule(W.C.sched()))) == W.C.sched(), "wrong-scheduler",
             "schedule() names another scheduler");
  DSIM_CHECK(ex::get_completion_scheduler<set_value_t>(ex::get_env(ex::continues_on(s, W.B.sched()))) == W.B.sched(), "wrong-scheduler",
             "continues_on names another scheduler");
  auto names_itself = [](auto sch, char const * what) {
    DSIM_CHECK(ex::get_completion_scheduler<set_value_t>(ex::get_env(ex::schedule(sch))) == sch, "wrong-scheduler",
               "schedule() on %s names another scheduler", what);
  };
  exec::single_thread_context one;
  exec::nodemask              mask = exec::nodemask::any();
  names_itself(one.get_scheduler(), "a single_thread_context");
  names_itself(W.C.pool.get_scheduler_on_thread(pick(W.C.n)), "one thread of a pool");
  names_itself(W.C.pool.get_constrained_scheduler(&mask), "the nodes of a pool");
  DSIM_CHECK(!(W.A.sched() == W.B.sched()), "wrong-scheduler", "two loops compare equal");
  // write_env changes what its child sees, and only that
  int seen = 0, around = 0;
  auto o = W.run(ex::read_env(get_tag) | ex::let_value([&](int t) {
                   around = t;
                   return ex::read_env(get_tag) | ex::then([&](int u) {
                            seen = u;
                            return token(5);
                          })
                        | ex::write_env(ex::prop{get_tag, v + 7});
                 }));
  DSIM_CHECK(seen == v + 7 && around == W.tag, "lost-query", "write_env: inside %d instead of %d, outside %d instead of %d", seen, v + 7, around,
             W.tag);
  W.is(o, VALUE, 5, "read_env");
}
// no stop request passes unstoppable
SCENARIO(unstoppable, 1)
{
  world W;
  W.req  = true;
  auto l = leaf(W.w, W.log, leaf_mode(pick(3)), VALUE, 5);
  auto o = W.run(ex::unstoppable(W.watch(W.begin, owning(l))));
  DSIM_CHECK(o.kind == VALUE && W.log.stop_seen.load() == 0, "stopped-wrongly", "a stop request passed unstoppable");
  W.gone();
}
