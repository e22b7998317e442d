// C19: type-erased senders and schedulers: any_sender, any_scheduler, function, task_scheduler
#ifndef PART
#  define PART 0  // C19_1.cpp and C19_2.cpp define others: the scenarios are compiled in parallel
#endif
#include "common.hpp"
#include "model.hpp"
#include <exec/any_sender_of.hpp>
#include <exec/function.hpp>
#include <exec/single_thread_context.hpp>
#include <exec/static_thread_pool.hpp>
using namespace h;

namespace
{
  struct level_t
    : ex::__query<level_t>
  {
    static constexpr bool query(ex::forwarding_query_t) noexcept
    {
      return true;
    }
  };
  inline constexpr level_t level{};

  struct world
  {
    workers  w;
    leaf_log log;
    bool     query = false;  // the level query passes through
    world()
      : w(1 + pick(2))
    {}
  };

  // a leaf carrying N bytes, with alignment A, in its sender and in its operation state
  template <int N, int A, bool Copy, bool Quiet>
  struct fat
  {
    using sender_concept = ex::sender_tag;
    using lf             = leaf_sender<>;
    world*               wd;
    token                t;
    alignas(A) unsigned char pad[N];
    lf                   l;

    fat(world& w, leaf_mode m, int kind, int val)
      : wd(&w)
      , t(val)
      , l{&w.w, &w.log, m, kind, val}
    {
      for (auto& c: pad)
        c = (unsigned char) val;
    }
    fat(fat&& o) noexcept(Quiet)
      : wd(o.wd)
      , t(std::move(o.t))
      , l(o.l)
    {
      std::memcpy(pad, o.pad, N);
    }
    fat(fat const & o)
      requires Copy
      : wd(o.wd)
      , t(o.t)
      , l(o.l)
    {
      std::memcpy(pad, o.pad, N);
    }

    template <class R>
    struct opstate
    {
      using operation_state_concept = ex::operation_state_tag;
      world*                       wd;
      token                        t;
      alignas(A) unsigned char     pad[N];
      R*                           none = nullptr;
      ex::connect_result_t<lf, R>  inner;
      int                          got = -1;
      opstate(fat& f, R r)
        : wd(f.wd)
        , t(std::move(f.t))
        , inner(ex::connect(f.l, std::move(r)))
      {
        std::memcpy(pad, f.pad, N);
      }
      opstate(opstate&&) = delete;
      void start() & noexcept
      {
        DSIM_CHECK(reinterpret_cast<std::uintptr_t>(this) % alignof(opstate) == 0, "misaligned",
                   "an operation state of alignment %zu lives at %p", alignof(opstate), (void*) this);
        DSIM_CHECK(t.intact(inner.val), "payload-corrupt", "the erased sender's state is damaged");
        for (auto c: pad)
          DSIM_CHECK(c == (unsigned char) inner.val, "payload-corrupt", "the erased sender's state is damaged");
        if constexpr (requires { level(ex::get_env(inner.r)); })
          got = level(ex::get_env(inner.r));
        if (wd->query)
          DSIM_CHECK(got == 42, "query-lost", "the receiver's environment answers %d instead of 42", got);
        ex::start(inner);
      }
    };
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::completion_signatures<set_value_t(token), set_error_t(my_error), set_stopped_t()>{};
    }
    template <class R>
    auto connect(R r) && -> opstate<R>
    {
      DSIM_CHECK(t.intact(l.val), "payload-corrupt", "the erased sender is damaged");
      return opstate<R>{*this, std::move(r)};
    }
    template <class R>
      requires Copy
    auto connect(R r) const & -> opstate<R>
    {
      return fat(*this).connect(std::move(r));
    }
  };

  using sigs    = ex::completion_signatures<set_value_t(token), set_error_t(my_error), set_stopped_t()>;
  using q_stop  = ex::inplace_stop_token(ex::get_stop_token_t) noexcept;
  using q_level = int(level_t) noexcept;
  using any_s   = exec::any_sender<exec::any_receiver<sigs, exec::queries<q_stop>>>;
  using any_sl  = exec::any_sender<exec::any_receiver<sigs, exec::queries<q_stop, q_level>>>;
  using any_n   = exec::any_sender<exec::any_receiver<sigs>>;

  template <class Tok>
  struct lenv
  {
    Tok  t;
    auto query(ex::get_stop_token_t) const noexcept -> Tok
    {
      return t;
    }
    auto query(level_t) const noexcept -> int
    {
      return 42;
    }
  };

  struct plan
  {
    bool may = false, will = false;
    int  kind = VALUE, val = 0;
    bool deaf = false;  // an unstoppable layer is in between
  };
  inline leaf_mode draw_mode(plan& p)
  {
    auto m = leaf_mode(pick(p.will && !p.deaf ? 4 : 3));
    p.kind = m == L_HANG ? STOPPED : 1 + int(pick(3));
    p.val  = 1 + int(pick(100));
    return m;
  }
  inline void judge(outcome const & o, plan const & p, world& W, bool levels)
  {
    require_once(o, "an erased sender");
    if (o.kind == STOPPED && p.may && !p.deaf)
      return;
    DSIM_CHECK(o.kind == p.kind && (o.kind == STOPPED || o.value == p.val), "wrong-completion",
               "the erased sender completed with %s %d, the erasing one with %s %d", name(p.kind), p.val, name(o.kind), o.value);
  }
  template <class S, class Env>
  void drive(world& W, S s, stop_box& src, Env e, plan const & p, bool levels)
  {
    auto o            = make_op(std::move(s), e, coin());
    o->out.structured = &W.log;
    threads  ts;
    unsigned how = p.may ? p.will ? pick(3) : pick(4) : 3;
    if (!p.may)
      src.dies_with(*o);
    if (how == 0)
      src.request_stop();
    else if (how == 1)
      ts.go([&] { src.request_stop(); });
    o->start();
    if (how == 2)
      src.request_stop();
    o->wait();
    ts.join();
    judge(o->out, p, W, levels);
  }
  template <class S>
  void tokens(world& W, S s, plan const & p, bool levels)
  {
    stop_box src;
    if (!p.may && coin())
      drive(W, std::move(s), src, lenv<ex::never_stop_token>{}, p, levels);
    else if (coin())
      drive(W, std::move(s), src, lenv<ex::inplace_stop_token>{src.get_token()}, p, levels);
    else
      drive(W, std::move(s), src, lenv<tree::odd_token>{tree::odd_token{src.get_token()}}, p, levels);
  }
}  // namespace

#if PART == 0
namespace
{
  template <class Any>
  Any wrap(world& W, plan& p)
  {
    auto m = draw_mode(p);
    switch (pick(7))
    {
    case 0: return Any(leaf(W.w, W.log, m, p.kind, p.val));
    case 1: return Any(fat<1, 1, true, true>(W, m, p.kind, p.val));
    case 2: return Any(fat<200, 1, true, true>(W, m, p.kind, p.val));
    case 3: return Any(fat<200, 1, false, true>(W, m, p.kind, p.val));
    case 4: return Any(fat<8, 1, true, false>(W, m, p.kind, p.val));
    case 5: return Any(fat<64, 64, false, true>(W, m, p.kind, p.val));
    default: return Any(fat<1, 1, false, true>(W, m, p.kind, p.val) | ex::then([](token t) noexcept { return t; }));
    }
  }
  template <class Any>
  Any layers(world& W, plan& p)
  {
    if constexpr (std::is_same_v<Any, any_s>)
    {
      if (pick(4) == 0)
      {
        p.deaf  = true;
        W.query = false;
        return Any(wrap<any_n>(W, p) | ex::then([](token t) noexcept { return t; }));
      }
      if (pick(4) == 0)
      {
        W.query = false;
        return Any(Any(wrap<any_s>(W, p)) | ex::then([](token t) noexcept { return t; }));
      }
    }
    if constexpr (std::is_same_v<Any, any_sl>)
      if (pick(3) == 0)
        return Any(wrap<any_sl>(W, p) | ex::then([](token t) noexcept { return t; }));
    return wrap<Any>(W, p);
  }
  template <class Any>
  void erased()
  {
    world W;
    plan  p;
    p.may   = coin();
    p.will  = p.may && coin();
    W.query = std::is_same_v<Any, any_sl>;
    p.deaf  = std::is_same_v<Any, any_n>;
    bool faults = pick(3) == 0;
    std::optional<Any> a;
    if (faults)
    {
      dsim_alloc_faults(150);
    }
    try
    {
      a.emplace(layers<Any>(W, p));
      // move it about
      for (unsigned k = pick(3); k-- > 0;)
      {
        if (coin())
        {
          Any b = std::move(*a);
          a.emplace(std::move(b));
        }
        else
        {
          plan q  = p;
          q.may = q.will = false;
          q.deaf  = p.deaf;
          bool keep = W.query;
          Any  b    = wrap<Any>(W, q);
          W.query   = keep;
          if (coin())
            std::swap(*a, b);
          else
          {
            Any c = std::move(*a);
            *a    = std::move(b);
            b     = std::move(c);
          }
          *a = std::move(b);
        }
      }
      if (pick(10) == 0)
        return;  // never connected
      if (pick(10) == 0)
      {
        stop_box src;
        auto     o = make_op(std::move(*a), lenv<tree::odd_token>{tree::odd_token{src.get_token()}}, false);
        return;  // never started
      }
    }
    catch (std::bad_alloc const &)
    {
      return;
    }
    dsim_alloc_faults(0);
    tokens(W, std::move(*a), p, std::is_same_v<Any, any_sl>);
  }
}  // namespace
SCENARIO(sender, 5)
{
  switch (pick(3))
  {
  case 0: erased<any_s>(); break;
  case 1: erased<any_sl>(); break;
  case 2: erased<any_n>(); break;
  }
}

namespace
{
  using fsigs = ex::completion_signatures<set_value_t(token), set_error_t(my_error), set_stopped_t()>;
  template <class F, int N, int A>
  auto fn(world& W, plan& p, int& ref)
  {
    struct both
    {
      world* w;
      plan*  p;
    };
    return F(token(9), ref,
             [b = both{&W, &p}](token t, int& r)
             {
               DSIM_CHECK(t.intact(9), "payload-corrupt", "an argument of the function is damaged");
               r++;
               auto m = draw_mode(*b.p);
               if (b.p->val == 13)
                 throw my_error{13};
               return fat<N, A, true, true>(*b.w, m, b.p->kind, b.p->val);
             });
  }
}  // namespace
// exec::function: the erased sender is made when it is connected
SCENARIO(function, 2)
{
  world W;
  plan  p;
  p.deaf  = true;
  int ref = 0;
  W.query = coin();
  using F0 = exec::function<ex::sender_tag(token, int&), fsigs>;
  using F1 = exec::function<ex::sender_tag(token, int&), fsigs, exec::queries<q_level>>;
  auto go  = [&](auto f)
  {
    auto     g = std::move(f);
    if (pick(8) == 0)
      return;
    stop_box src;
    try
    {
      if (pick(8) == 0)
      {
        auto o = make_op(std::move(g), lenv<ex::never_stop_token>{}, false);
        return;
      }
      auto o = make_op(std::move(g), lenv<ex::never_stop_token>{}, coin());
      DSIM_CHECK(ref == 1, "wrong-completion", "the factory was invoked %d times", ref);
      o->out.structured = &W.log;
      o->start();
      o->wait();
      judge(o->out, p, W, false);
    }
    catch (my_error const & e)
    {
      DSIM_CHECK(p.val == 13, "wrong-completion", "connect threw");
    }
  };
  if (W.query)
    coin() ? go(fn<F1, 1, 1>(W, p, ref)) : go(fn<F1, 300, 64>(W, p, ref));
  else
    coin() ? go(fn<F0, 1, 1>(W, p, ref)) : go(fn<F0, 300, 64>(W, p, ref));
}

// ---------------------------------------------------------------- any_scheduler
namespace
{
  using ssigs  = ex::completion_signatures<ex::set_value_t(), set_error_t(std::exception_ptr), set_stopped_t()>;
  using any_ss = exec::any_sender<exec::any_receiver<ssigs, exec::queries<q_stop>>>;
  using any_sc = exec::any_scheduler<any_ss>;
}  // namespace
SCENARIO(scheduler, 3)
{
  exec::single_thread_context a, b;
  exec::static_thread_pool    c(1);
  auto                        where = [](auto sch) { return std::get<0>(*ex::sync_wait(ex::schedule(sch) | ex::then([] { return dsim_tid(); }))); };
  std::vector<any_sc>         base;
  base.emplace_back(a.get_scheduler());
  base.emplace_back(b.get_scheduler());
  base.emplace_back(c.get_scheduler());
  int  at[3] = {where(a.get_scheduler()), where(b.get_scheduler()), where(c.get_scheduler())};
  auto body  = [&]
  {
    std::vector<any_sc> mine;
    std::vector<int>    id;
    for (unsigned i = 0; i < 2; ++i)
    {
      int k = int(pick(3));
      mine.push_back(base[k]);
      id.push_back(k);
    }
    for (unsigned i = 0; i < 3; ++i)
    {
      unsigned x = pick(2), y = pick(2);
      switch (pick(4))
      {
      case 0:
        mine[x] = mine[y];
        id[x]   = id[y];
        break;
      case 1:
        std::swap(mine[x], mine[y]);
        std::swap(id[x], id[y]);
        break;
      case 2: DSIM_CHECK((mine[x] == mine[y]) == (id[x] == id[y]), "equality", "erased schedulers compare wrongly"); break;
      case 3:
      {
        auto     s   = ex::schedule(mine[x]);
        int      who = at[id[x]];
        DSIM_CHECK(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s)) == base[id[x]], "equality",
                   "the completion scheduler of an erased schedule-sender is a different one");
        stop_box src;
        bool     may = coin();
        if (coin())
          mine[x] = mine[y], id[x] = id[y];  // the sender does not depend on the scheduler object
        auto go = [&](auto env)
        {
          auto    o = make_op(std::move(s) | ex::then([] { return token(5); }), env, coin());
          threads ts;
          if (may && coin())
            ts.go([&] { src.request_stop(); });
          else if (!may)
            src.dies_with(*o);
          o->start();
          o->wait();
          ts.join();
          require_once(o->out, "an erased schedule()");
          DSIM_CHECK(o->out.kind == VALUE || (may && o->out.kind == STOPPED), "wrong-completion", "schedule() completed with %s", name(o->out.kind));
          if (o->out.kind == VALUE)
            DSIM_CHECK(o->out.tid == who, "wrong-thread", "schedule() completed on T%d instead of T%d", o->out.tid, who);
        };
        switch (pick(3))
        {
        case 0:
          may = false;
          go(ex::env<>{});
          break;
        case 1: go(tok_env(src.get_token())); break;
        case 2: go(tok_env(tree::odd_token{src.get_token()})); break;
        }
      }
      }
    }
  };
  threads ts;
  if (coin())
    ts.go(body);
  body();
}
#else
// ---------------------------------------------------------------- task_scheduler
namespace
{
  constexpr int MAXN = 64;
  struct tally
  {
    int              hits[MAXN] = {};
    std::atomic<int> calls{0}, running{0}, thrown{0};
    int              n = 0, id = 0, bad1 = -1, bad2 = -1;
    bool             seq = false, cold = false;
    void             one(long i, token& t)
    {
      DSIM_CHECK(i >= 0 && i < n, "bad-index", "bulk of %d invoked with index %ld", n, i);
      DSIM_CHECK(t.intact(id), "payload-corrupt", "the bulk function received a damaged value");
      hits[i]++;
      calls.fetch_add(1, std::memory_order_relaxed);
      if (i == bad1 || i == bad2)
      {
        thrown.fetch_add(1, std::memory_order_relaxed);
        throw my_error{int(1000 + i)};
      }
    }
  };
  struct guard
  {
    tally& t;
    guard(tally& t_)
      : t(t_)
    {
      int r = t.running.fetch_add(1, std::memory_order_relaxed) + 1;
      if (t.seq)
        DSIM_CHECK(r == 1, "parallel-sequenced", "two invocations of a sequenced bulk overlap");
    }
    ~guard()
    {
      t.running.fetch_sub(1, std::memory_order_release);
    }
  };
  struct each
  {
    tally* t;
    void   operator()(int i, token& v) const
    {
      guard g(*t);
      if (pick(4) == 0)
        dsim_point();
      t->one(long(i), v);
    }
  };
  struct chunk
  {
    tally* t;
    void   operator()(int b, int e, token& v) const
    {
      guard g(*t);
      for (int i = b; i != e; ++i)
        t->one(long(i), v);
    }
  };
  void judge_bulk(outcome const & o, tally const & t, int pre, bool may)
  {
    require_once(o, "bulk");
    DSIM_CHECK(t.running.load(std::memory_order_acquire) == 0, "unstructured", "bulk completed while its function was running");
    if (o.kind == STOPPED && (may || pre == STOPPED))
    {
      for (int i = 0; i < t.n; ++i)
        DSIM_CHECK(t.hits[i] <= 1, "index-twice", "index %d of %d ran %d times", i, t.n, t.hits[i]);
      return;
    }
    if (pre != VALUE)
    {
      DSIM_CHECK(o.kind == pre && (pre == STOPPED || o.value == t.id), "wrong-completion", "the predecessor sent %s, bulk completed with %s %d",
                 name(pre), name(o.kind), o.value);
      DSIM_CHECK(t.calls.load() == 0, "ran-without-value", "the bulk function ran %d times though its predecessor sent %s", t.calls.load(),
                 name(pre));
      return;
    }
    bool bad = (t.bad1 >= 0 && t.bad1 < t.n) || (t.bad2 >= 0 && t.bad2 < t.n);
    for (int i = 0; i < t.n; ++i)
      if (bad)
        DSIM_CHECK(t.hits[i] <= 1, "index-twice", "index %d of %d ran %d times", i, t.n, t.hits[i]);
      else
        DSIM_CHECK(t.hits[i] == 1, t.hits[i] ? "index-twice" : "index-lost", "index %d of %d ran %d times", i, t.n, t.hits[i]);
    if (!bad)
      DSIM_CHECK(o.kind == VALUE && o.value == t.id, "wrong-completion", "bulk completed with %s %d, expected value %d", name(o.kind), o.value, t.id);
    else
    {
      DSIM_CHECK(o.kind == ERROR, "lost-error", "the function threw %d times but bulk completed with %s", t.thrown.load(), name(o.kind));
      DSIM_CHECK((t.bad1 >= 0 && o.value == 1000 + t.bad1 && t.hits[t.bad1]) || (t.bad2 >= 0 && o.value == 1000 + t.bad2 && t.hits[t.bad2]),
                 "wrong-error", "error %d was reported, which no invocation threw", o.value);
    }
  }

  struct contexts
  {
    exec::static_thread_pool            pool;
    exec::single_thread_context         one;
    ex::run_loop                        loop;
    std::thread                         driver{[this] { loop.run(); }};
    std::optional<ex::task_scheduler>   s[3];
    bool                                onpool[3] = {true, false, false};
    contexts()
      : pool(1 + pick(2), exec::bwos_params{1 + pick(3), 1 + pick(3)})
    {
      s[0].emplace(pool.get_scheduler());
      s[1].emplace(one.get_scheduler());
      s[2].emplace(loop.get_scheduler());
    }
    ~contexts()
    {
      loop.finish();
      driver.join();
    }
  };
}  // namespace

#  if PART == 1
SCENARIO(task_scheduler, 4)
{
  contexts c;
  auto     body = [&]
  {
    int               k = int(pick(3));
    ex::task_scheduler sch = *c.s[k];
    for (unsigned i = 1 + pick(2); i-- > 0;)
    {
      if (coin())
      {
        int j = int(pick(3));
        sch   = *c.s[j];
        k     = j;
      }
      DSIM_CHECK(sch == *c.s[k] && sch != *c.s[(k + 1) % 3], "equality", "task_schedulers compare wrongly");
      int      me = dsim_tid();
      stop_box src;
      bool     may = coin();
      auto     go  = [&](auto env)
      {
        unsigned how = may ? pick(3) : 3;
        auto     o   = make_op(ex::schedule(sch) | ex::then([] { return token(5); }), env, coin());
        if (pick(8) == 0)
          return;
        threads ts;
        if (how == 0)
          src.request_stop();
        else if (how == 1)
          ts.go([&] { src.request_stop(); });
        else if (how == 3)
          src.dies_with(*o);
        o->start();
        o->wait();
        ts.join();
        require_once(o->out, "schedule()");
        if (how == 0)
          DSIM_CHECK(o->out.kind == STOPPED, "stop-ignored", "stop was requested before start(), but schedule() completed with %s", name(o->out.kind));
        else
          DSIM_CHECK(o->out.kind == VALUE || (may && o->out.kind == STOPPED), "wrong-completion", "schedule() completed with %s", name(o->out.kind));
        DSIM_CHECK(o->out.kind != VALUE || o->out.tid != me, "wrong-thread", "schedule() completed on the calling thread");
      };
      switch (pick(3))
      {
      case 0:
        may = false;
        go(ex::env<>{});
        break;
      case 1: go(tok_env(src.get_token())); break;
      case 2: go(tok_env(tree::odd_token{src.get_token()})); break;
      }
    }
  };
  threads ts;
  if (coin())
    ts.go(body);
  body();
}
#  else
namespace
{
  template <class S>
  void run_bulk(S s, tally& t, int pre)
  {
    bool     nomem = t.bad1 < 0 && !t.cold && pick(3) == 0;
    stop_box src;
    auto     go = [&](auto env, bool may)
    {
      auto o = make_op(std::move(s), env, coin());
      if (pick(10) == 0)
        return;
      threads ts;
      if (may && coin())
        ts.go([&] { src.request_stop(); });
      else if (may)
        src.request_stop();
      if (nomem)
        dsim_alloc_faults(200);
      o->start();
      o->wait();
      ts.join();
      dsim_alloc_faults(0);
      if (nomem && o->out.kind == ERROR && o->out.value == -12)
      {
        // an allocation failed: nothing ran twice, and everything is over
        require_once(o->out, "bulk");
        DSIM_CHECK(t.running.load(std::memory_order_acquire) == 0, "unstructured", "bulk completed while its function was running");
        for (int i = 0; i < t.n; ++i)
          DSIM_CHECK(t.hits[i] <= 1, "index-twice", "index %d of %d ran %d times", i, t.n, t.hits[i]);
        return;
      }
      judge_bulk(o->out, t, pre, may);
    };
    switch (pick(4))
    {
    case 0: go(tok_env(src.get_token()), coin()); break;
    default: go(ex::env<>{}, false);
    }
  }
  template <class Pred>
  void variants(Pred pred, tally& t, int pre)
  {
    switch (pick(5))
    {
    case 0: run_bulk(std::move(pred) | ex::bulk(ex::par, t.n, each{&t}), t, pre); break;
    case 1: run_bulk(std::move(pred) | ex::bulk_unchunked(ex::par, t.n, each{&t}), t, pre); break;
    case 2: run_bulk(std::move(pred) | ex::bulk_chunked(ex::par, t.n, chunk{&t}), t, pre); break;
    case 3:
      t.seq = true;
      run_bulk(std::move(pred) | ex::bulk_unchunked(ex::seq, t.n, each{&t}), t, pre);
      break;
    case 4:
      t.seq = true;
      run_bulk(std::move(pred) | ex::bulk_chunked(ex::seq, t.n, chunk{&t}), t, pre);
      break;
    }
  }
}  // namespace
SCENARIO(task_scheduler_bulk, 4)
{
  contexts         c;
  int              k       = int(pick(3));
  static const int sizes[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 0, 30};
  tally            t;
  t.n  = sizes[pick(12)];
  t.id = 6;
  if (t.n && pick(4) == 0)
  {
    t.bad1 = int(pick(t.n));
    if (coin())
      t.bad2 = int(pick(t.n));
  }
  auto sch = *c.s[k];
  if (coin())
    variants(ex::schedule(sch)
               | ex::then(
                 [&c, k]
                 {
                   // a thread's first use of a static_thread_pool allocates in noexcept functions
                   int was = dsim_alloc_faults_thread(0);
                   if (c.onpool[k])
                     (void) c.pool.get_scheduler();
                   dsim_alloc_faults_thread(was);
                   return token(6);
                 }),
             t, VALUE);
  else
  {
    t.cold = c.onpool[k];
    workers  w(1);
    leaf_log log;
    int      pre = 1 + int(pick(3));
    variants(leaf(w, log, leaf_mode(pick(2)), pre, 6) | ex::continues_on(sch), t, pre);
  }
}
#  endif
#endif
