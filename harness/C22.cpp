// C22: work nobody awaits: start_detached, start_now, submit; when_empty
#include "common.hpp"

#include <exec/async_scope.hpp>
#include <exec/just_from.hpp>
#include <exec/start_detached.hpp>
#include <exec/start_now.hpp>
using namespace h;

namespace
{
  struct get_tag_t : ex::forwarding_query_t
  {
    template <class Env>
      requires requires(Env const & e, get_tag_t q) { e.query(q); }
    auto operator()(Env const & e) const noexcept
    {
      return e.query(*this);
    }
    static constexpr auto query(ex::forwarding_query_t) noexcept -> bool
    {
      return true;
    }
  };
  constexpr get_tag_t get_tag{};

  // a memory resource that keeps books
  struct books
  {
    std::atomic<int>  taken{0}, given{0};
    std::atomic<long> bytes{0};
    int               deny = 0;  // the allocation of that number fails
  };
  template <class T>
  struct arena
  {
    using value_type = T;
    books* b;
    explicit arena(books* b)
      : b(b)
    {}
    template <class U>
    arena(arena<U> const & o)
      : b(o.b)
    {}
    T* allocate(std::size_t n)
    {
      if (b->taken.fetch_add(1) + 1 == b->deny)
      {
        b->given.fetch_add(1);
        throw std::bad_alloc();
      }
      b->bytes.fetch_add(long(n * sizeof(T)));
      return static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
    }
    void deallocate(T* p, std::size_t n)
    {
      b->bytes.fetch_sub(long(n * sizeof(T)));
      b->given.fetch_add(1);
      ::operator delete(p, std::align_val_t(alignof(T)));
    }
    friend bool operator==(arena const & a, arena const & c)
    {
      return a.b == c.b;
    }
  };

  using leaf_t = leaf_sender<false, true>;
  leaf_t mk(workers& w, leaf_log& l, bool stoppable)
  {
    return {&w, &l, leaf_mode(pick(stoppable ? 4 : 3)), pick(4) == 3 ? STOPPED : VALUE, 5};
  }

  // the sender's own way to be submitted: nothing of it is left with the caller
  template <class S>
  struct own_submit
  {
    using sender_concept = ex::sender_tag;
    S    s;
    int* submits;
    int* saw = nullptr;  // whether the environment given was there, and intact
    template <class R>
    void look(R const & r) const
    {
      if (saw)
      {
        if constexpr (requires { get_tag(ex::get_env(r)); })
          *saw = get_tag(ex::get_env(r)).intact(77) ? 1 : 2;
        else
          *saw = 0;
      }
    }
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::get_completion_signatures<S, Env...>();
    }
    template <class R>
    auto connect(R r) const -> ex::connect_result_t<S, R>
    {
      look(r);
      return ex::connect(S(s), std::move(r));
    }
    template <class R>
    struct base
    {
      R r;
      explicit base(R r_)
        : r(std::move(r_))
      {}
      virtual ~base() = default;
    };
    template <class R>
    struct self_rcvr
    {
      using receiver_concept = ex::receiver_tag;
      base<R>* o;
      template <class... Ts>
      void set_value(Ts&&... ts) noexcept
      {
        std::tuple<std::decay_t<Ts>...> own(static_cast<Ts&&>(ts)...);
        R                               r = std::move(o->r);
        delete o;
        std::apply([&](auto&... t) { ex::set_value(std::move(r), std::move(t)...); }, own);
      }
      void set_stopped() noexcept
      {
        R r = std::move(o->r);
        delete o;
        ex::set_stopped(std::move(r));
      }
      auto get_env() const noexcept -> ex::env_of_t<R>
      {
        return ex::get_env(o->r);
      }
    };
    template <class R>
    struct self_op : base<R>
    {
      ex::connect_result_t<S, self_rcvr<R>> o;
      self_op(S s, R r_)
        : base<R>(std::move(r_))
        , o(ex::connect(std::move(s), self_rcvr<R>{this}))
      {}
    };
    template <class R>
    void submit(R r) const
    {
      ++*submits;
      look(r);
      auto* o = new self_op<R>(s, std::move(r));
      ex::start(o->o);
    }
  };

  void check(leaf_log const & l, bool started, char const * what)
  {
    DSIM_CHECK(l.started.load() == (started ? 1 : 0), started ? "lost-work" : "started-wrongly", "%s: its sender was started %d times",
               what, l.started.load());
    DSIM_CHECK(l.completed.load() == l.started.load(), "lost-completion", "%s: its sender completed %d times", what, l.completed.load());
    DSIM_CHECK(l.connected.load() == l.destroyed.load(), "leak", "%s: %d operations connected, %d destroyed", what, l.connected.load(),
               l.destroyed.load());
  }

  struct item
  {
    leaf_log         log;
    std::atomic<int> ran{0};
    bool             refused = false;
    int              tag     = 0;
    leaf_mode        mode    = L_INLINE;
    int              kind    = VALUE;
  };

  template <bool Stoppable>
  struct books_env
  {
    using tok_t = std::conditional_t<Stoppable, ex::inplace_stop_token, ex::never_stop_token>;
    books*                 b;
    ex::inplace_stop_token t;
    token                  tag;
    auto query(ex::get_allocator_t) const noexcept -> arena<char>
    {
      return arena<char>(b);
    }
    auto query(ex::get_stop_token_t) const noexcept -> tok_t
    {
      if constexpr (Stoppable)
        return t;
      else
        return {};
    }
    auto query(get_tag_t) const noexcept -> token const &
    {
      return tag;
    }
  };
  struct tag_env
  {
    token tag;
    auto  query(get_tag_t) const noexcept -> token const &
    {
      return tag;
    }
  };
  // one sender is given to start_detached
  template <int Env>
  void detach(workers& w, item& it, books& b, ex::inplace_stop_token tok)
  {
    auto     l    = mk(w, it.log, Env == 2);
    unsigned bad  = pick(6);  // 1: connecting throws
    bool     copy = coin();
    int      tag  = it.tag;
    it.mode       = l.mode;
    it.kind       = l.kind_;
    auto with     = [&](auto s) {
      auto go = [&](auto&& x) {
        if constexpr (Env == 0)
          exec::start_detached(static_cast<decltype(x)>(x));
        else
        {
          using env = books_env<Env == 2>;
          if (coin())
            exec::start_detached(static_cast<decltype(x)>(x), env{&b, tok, token(tag)});
          else
          {
            // the environment given may be gone before the work is over
            std::optional<env> e(env{&b, tok, token(tag)});
            exec::start_detached(static_cast<decltype(x)>(x), *e);
            e.reset();
          }
        }
      };
      try
      {
        if (copy)
        {
          auto const & cs = s;
          go(cs);
        }
        else
          go(std::move(s));
        DSIM_CHECK(bad != 1, "lost-exception", "the exception thrown by connect did not reach the caller");
      }
      catch (my_error const & e)
      {
        DSIM_CHECK(bad == 1 && e.code == 31, "wrong-error", "got %d", e.code);
        it.refused = true;
      }
      catch (std::bad_alloc const &)
      {
        DSIM_CHECK(b.deny != 0 && b.taken.load() >= b.deny, "wrong-error", "an allocation failed that should not");
        it.refused = true;
      }
    };
    auto base = risky(owning(l), 31, bad == 1);
    if constexpr (Env == 0)
      with(std::move(base) | ex::then([&it](token t) noexcept {
             if (!t.intact(5))
               dsim_fail("wrong-value", "the value changed");
             it.ran.fetch_add(1);
           }));
    else  // what the sender sees of the environment, at its end
      with(std::move(base) | ex::let_value([&it, tag](token& t) noexcept {
             if (!t.intact(5))
               dsim_fail("wrong-value", "the value changed");
             return ex::read_env(get_tag) | ex::then([&it, tag](token const & seen) noexcept {
                      if (!seen.intact(tag))
                        dsim_fail("lost-query", "the environment given to start_detached changed");
                      it.ran.fetch_add(1);
                    });
           }));
  }
  template <int Env>
  void detached()
  {
    auto                     n = 1 + pick(4);
    std::vector<item>        its(n);
    books                    b;
    ex::inplace_stop_source  src;
    bool                     will = Env == 2;
    b.deny                        = Env && pick(4) == 3 ? int(1 + pick(n)) : 0;
    {
      workers w(1 + pick(2));
      threads ts;
      for (unsigned i = 0; i < n; ++i)
      {
        its[i].tag = int(100 + i);
        if (coin())
          ts.go([&, i] { detach<Env>(w, its[i], b, src.get_token()); });
        else
          detach<Env>(w, its[i], b, src.get_token());
      }
      if (will)
        src.request_stop();
    }
    int lost = 0;
    for (auto& it: its)
    {
      check(it.log, !it.refused, "start_detached");
      if (!it.refused && it.log.last == VALUE)
        DSIM_CHECK(it.ran.load() == 1, "lost-work", "the end of a detached sender ran %d times", it.ran.load());
      else
        DSIM_CHECK(it.ran.load() == 0, "started-wrongly", "the end of a detached sender ran although it was not reached");
      lost += it.refused;
    }
    DSIM_CHECK(b.taken.load() == b.given.load() && b.bytes.load() == 0, "leak", "the allocator gave %d blocks and got %d back, %ld bytes",
               b.taken.load(), b.given.load(), b.bytes.load());
    if (Env)
      DSIM_CHECK(b.taken.load() >= int(n), "wrong-allocator", "%d of %u operations asked the allocator of their environment", b.taken.load(), n);
    if (b.deny)
      DSIM_CHECK(lost >= 1, "lost-exception", "the exception thrown by the allocator did not reach the caller");
  }
}  // namespace

SCENARIO(detached, 3)
{
  detached<0>();
}
SCENARIO(detached_env, 3)
{
  detached<1>();
}
SCENARIO(detached_stop, 2)
{
  detached<2>();
}
// a sender that knows how to submit itself
SCENARIO(detached_submit, 1)
{
  item it;
  int  submits = 0;
  bool nested  = coin();
  int   saw    = -1;
  bool  given  = false;
  books b;
  {
    workers w(1 + pick(2));
    auto    l = mk(w, it.log, false);
    auto    s = own_submit<leaf_t>{l, &submits, &saw};
    if (pick(3) == 2)
    {
      nested = false;
      given  = true;
      if (coin())
        exec::start_detached(s, tag_env{token(77)});
      else
        exec::start_detached(std::move(s), books_env<false>{&b, {}, token(77)});
    }
    else if (nested)
      exec::start_detached(ex::just() | ex::let_value([s]() noexcept { return s; }) | ex::then([&](token t) noexcept {
                             if (!t.intact(5))
                               dsim_fail("wrong-value", "the value changed");
                             it.ran.fetch_add(1);
                           }));
    else if (coin())
      exec::start_detached(s);
    else
    {
      auto o = make_op(ex::just() | ex::let_value([s]() noexcept { return s; }), ex::env<>{}, coin());
      if (pick(6) == 5)
      {
        o.reset();
        DSIM_CHECK(submits == 0, "started-wrongly", "a sender was submitted by an operation that was not started");
        return;
      }
      o->start();
      o->wait();
      require_once(o->out, "let_value");
      DSIM_CHECK(o->out.kind == l.kind_ && (l.kind_ == STOPPED || o->out.value == 5), "wrong-completion", "let_value completed with %s %d",
                 name(o->out.kind), o->out.value);
    }
  }
  check(it.log, true, "a submitted sender");
  DSIM_CHECK(submits <= 1, "double-start", "a sender was submitted %d times", submits);
  if (given)
    DSIM_CHECK(saw == 1, "lost-query", "a submitted sender did not see the environment given to start_detached (%d)", saw);
  DSIM_CHECK(b.taken.load() == b.given.load() && b.bytes.load() == 0, "leak", "the allocator gave %d blocks and got %d back, %ld bytes",
             b.taken.load(), b.given.load(), b.bytes.load());
  if (nested)
    DSIM_CHECK(it.ran.load() == (it.log.last == VALUE), "lost-work", "the end of a submitted sender ran %d times", it.ran.load());
}

// a factory, which submits itself without an operation state of its own
namespace
{
  struct now_fn
  {
    int* calls;
    template <class Sink>
    auto operator()(Sink sink) const noexcept
    {
      ++*calls;
      return sink(token(5));
    }
  };
}  // namespace
SCENARIO(submit_factory, 1)
{
  int calls = 0, ran = 0;
  auto s = exec::just_from(now_fn{&calls});
  auto f = [&](token t) noexcept {
    DSIM_CHECK(t.intact(5), "wrong-value", "the value changed");
    ++ran;
  };
  switch (pick(4))
  {
  case 0:
    exec::start_detached(s);
    ran = 1;
    break;
  case 1:
    exec::start_detached(std::move(s));
    ran = 1;
    break;
  case 2: exec::start_detached(ex::just() | ex::let_value([s]() noexcept { return s; }) | ex::then(f)); break;
  default: exec::start_detached(ex::just() | ex::let_value([s]() noexcept -> decltype(auto) { return (s); }) | ex::then(f)); break;
  }
  DSIM_CHECK(calls == 1 && ran == 1, "lost-work", "the factory ran %d times, what follows it %d", calls, ran);
}

namespace
{
  // start_now: an operation state for several senders, in a scope
  template <bool WithEnv>
  void now_run()
  {
    exec::async_scope scope;
    item              its[3];
    leaf_log          all;
    all.many    = true;
    unsigned n  = pick(4);
    unsigned bad = pick(8);
    int      tag = int(1 + pick(100));
    bool     req = coin();
    bool     threw = false;
    {
      workers w(1 + pick(2));
      threads ts;
      auto    child = [&](unsigned i) {
        item& it    = its[i];
        it.log.up   = &all;
        auto l      = mk(w, it.log, req);
        it.kind     = l.kind_;
        auto base   = risky(owning(l), int(31 + i), bad == i + 1);
        if constexpr (WithEnv)
          return std::move(base) | ex::let_value([&it, tag](token& t) noexcept {
                   if (!t.intact(5))
                     dsim_fail("wrong-value", "the value changed");
                   return ex::read_env(get_tag) | ex::then([&it, tag](token const & seen) noexcept {
                            if (!seen.intact(tag))
                              dsim_fail("lost-query", "the environment given to start_now changed");
                            it.ran.fetch_add(1);
                          });
                 });
        else
          return std::move(base) | ex::then([&it](token t) noexcept {
                   if (!t.intact(5))
                     dsim_fail("wrong-value", "the value changed");
                   it.ran.fetch_add(1);
                 });
      };
      auto use = [&](auto make) {
        using storage = decltype(make());
        struct holder
        {
          storage s;
          explicit holder(decltype(make)& m)
            : s(m())
          {}
        };
        try
        {
          auto h = std::unique_ptr<holder>(new holder(make));
          DSIM_CHECK(bad == 0 || bad > n, "lost-exception", "the exception thrown by connect did not reach the caller");
          unsigned when = pick(3);
          if (req && when == 0)
            h->s.request_stop();
          if (req && when == 1)
            ts.go([&] { h->s.request_stop(); });
          auto o            = make_op(h->s.async_wait(), ex::env<>{}, coin());
          o->out.structured = &all;
          if (req && when == 2)
          {
            o->start();
            h->s.request_stop();
          }
          else
            o->start();
          o->wait();
          ts.join();
          require_once(o->out, "async_wait");
          DSIM_CHECK(o->out.kind == VALUE, "wrong-completion", "async_wait completed with %s", name(o->out.kind));
          DSIM_CHECK(h->s.get_token().stop_requested() == req, "stopped-wrongly", "the stop token of start_now says stop: %d", !req);
          // everything is over: the storage may go
          h.reset();
          if (coin())
            o.reset();
        }
        catch (my_error const & e)
        {
          DSIM_CHECK(bad >= 1 && bad <= n && e.code == int(30 + bad), "wrong-error", "got %d", e.code);
          threw = true;
        }
      };
      auto launch = [&](auto&&... s) {
        if constexpr (WithEnv)
          return exec::start_now(tag_env{token(tag)}, scope, static_cast<decltype(s)>(s)...);
        else
          return exec::start_now(scope, static_cast<decltype(s)>(s)...);
      };
      switch (n)
      {
      case 0: use([&] { return launch(); }); break;
      case 1: use([&] { return launch(child(0)); }); break;
      case 2: use([&] { return launch(child(0), child(1)); }); break;
      default: use([&] { return launch(child(0), child(1), child(2)); });
      }
    }
    for (unsigned i = 0; i < n; ++i)
    {
      check(its[i].log, !threw, "start_now");
      DSIM_CHECK(its[i].ran.load() == (!threw && its[i].log.last == VALUE), "lost-work", "the end of a sender of start_now ran %d times",
                 its[i].ran.load());
    }
    auto e = make_op(scope.on_empty());
    e->start();
    e->wait();
    require_once(e->out, "on_empty after start_now");
  }
}  // namespace
SCENARIO(start_now, 3)
{
  now_run<false>();
}
SCENARIO(start_now_env, 2)
{
  now_run<true>();
}

// when_empty starts its sender only once the scope has become empty
SCENARIO(when_empty, 2)
{
  leaf_log          work[3], all, then;
  exec::async_scope scope;
  all.many   = true;
  unsigned n = pick(4);
  {
    workers                 w(1 + pick(2));
    ex::inplace_stop_source src;
    bool                    req = coin();
    bool                    early = true;
    auto                    l   = leaf_sender<>{&w, &then, leaf_mode(pick(req ? 4 : 3)), int(pick(4) == 0 ? ERROR : pick(4) == 1 ? STOPPED : VALUE), 5};
    unsigned                bad = pick(6);
    threads                 ts;
    for (unsigned i = 0; i < n; ++i)
    {
      work[i].up = &all;
      scope.spawn(leaf_t{&w, &work[i], leaf_mode(pick(3)), coin() ? VALUE : STOPPED, 5} | ex::then([](token) noexcept {}));
    }
    try
    {
      auto s = scope.when_empty(risky(owning(l), 31, bad == 1) | ex::then([&](token t) {
                                  return t;
                                }));
      auto o = make_op(std::move(s), tok_env(src.get_token()), coin());
      DSIM_CHECK(bad != 1, "lost-exception", "the exception thrown by connect did not reach the caller");
      o->out.structured = &all;
      if (pick(6) == 5)
        o.reset();
      else
      {
        if (req)
          ts.go([&] { src.request_stop(); });
        o->start();
        o->wait();
        ts.join();
        require_once(o->out, "when_empty");
        int want = then.by_stop ? STOPPED : l.kind_;
        DSIM_CHECK(o->out.kind == want && (want == STOPPED || o->out.value == 5), "wrong-completion", "when_empty completed with %s %d",
                   name(o->out.kind), o->out.value);
      }
    }
    catch (my_error const & e)
    {
      DSIM_CHECK(bad == 1 && e.code == 31, "wrong-error", "got %d", e.code);
    }
    (void) early;
    auto e = make_op(scope.on_empty());
    e->start();
    e->wait();
  }
  for (unsigned i = 0; i < n; ++i)
    check(work[i], true, "spawn");
  DSIM_CHECK(then.started.load() <= 1 && then.started.load() == then.completed.load() && then.connected.load() == then.destroyed.load(),
             "leak", "the sender of when_empty was started %d times", then.started.load());
}
