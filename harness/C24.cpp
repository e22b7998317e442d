// C24: Asio operations as senders (completion_token, use_sender)
#include "common.hpp"

#include <exec/asio/completion_token.hpp>
#include <exec/asio/use_sender.hpp>

#include <algorithm>
#include <functional>
using namespace h;
namespace asio = exec::asio::asio_impl;
using exec::asio::error_code;

namespace boost::system
{
  inline int int_of(error_code const & e)
  {
    return 100000 + 100 * e.value();
  }
}
namespace std
{
  inline int int_of(error_code const & e)
  {
    return 200000 + 100 * e.value();
  }
}

namespace
{
  int decode() noexcept
  {
    try
    {
      throw;
    }
    catch (boost::system::system_error const & e)
    {
      return 300000 + 100 * e.code().value();
    }
    catch (std::system_error const & e)
    {
      return 400000 + 100 * e.code().value();
    }
    catch (...)
    {
      return -98;
    }
  }
  struct set_decode
  {
    set_decode()
    {
      other_exception = &decode;
    }
  } set_decode_;

  // an allocator one can recognise
  template <class T>
  struct marked
  {
    using value_type = T;
    int id;
    explicit marked(int i)
      : id(i)
    {}
    template <class U>
    marked(marked<U> const & o)
      : id(o.id)
    {}
    T* allocate(std::size_t n)
    {
      return std::allocator<T>().allocate(n);
    }
    void deallocate(T* p, std::size_t n)
    {
      std::allocator<T>().deallocate(p, n);
    }
    friend bool operator==(marked const & a, marked const & b)
    {
      return a.id == b.id;
    }
  };

  struct my_env
  {
    ex::inplace_stop_token tok;
    auto                   query(ex::get_stop_token_t) const noexcept -> ex::inplace_stop_token
    {
      return tok;
    }
    auto query(ex::get_allocator_t) const noexcept -> marked<int>
    {
      return marked<int>(33);
    }
  };

  // What one strand of the composed operation does when its hops are over
  enum act : int
  {
    ARRIVE,  // done
    THROW,   // done, and throws (from a handler run by the operation's executor)
    LOSE,    // drops everything without being done
    NACTS
  };

  struct world
  {
    workers* w;
    outcome* out = nullptr;
    // the plan
    unsigned nstrands = 0;
    unsigned hops[4]  = {};
    act      acts[4]  = {};
    bool     invoke   = true;   // the last strand to be done invokes the handler
    int      park     = -1;     // this strand waits for something that can be cancelled
    bool     hang     = false;  // ... which otherwise never happens
    bool     with_slot = false;
    unsigned ref      = 0;      // how the value is sent: rvalue, lvalue, const lvalue
    bool     copy_throws = false;
    int      ec       = 0;
    unsigned submit_fails = 0;  // the submission of this number fails

    // what happened
    std::mutex                            m;
    int                                   threw   = 0;  // first exception
    std::atomic<int>                      submits{0};
    int                                   guarded = 0;  // plain on purpose: handlers and cancellation take turns
    std::atomic<int>                      depth[16] = {};
    int                                   cancelled = 0;
    std::atomic<int>                      initiated{0}, invoked{0}, aborted{0};
    std::function<void(bool)>             parked;
    bool                                  parked_set = false, parked_done = false;
    void note(int code)
    {
      std::lock_guard l(m);
      if (!threw)
        threw = code;
    }
    // handlers running on other threads than this one and the one that invokes the handler proper
    std::atomic<int> finisher{-1};
    int              others()
    {
      int n = 0;
      for (int i = 0; i < 16; ++i)
        if (i != dsim_tid() && i != finisher.load(std::memory_order_relaxed))
          n += depth[i].load(std::memory_order_relaxed);
      return n;
    }
    void resume(bool by_cancel)
    {
      std::function<void(bool)> f;
      {
        std::lock_guard l(m);
        if (parked_done || !parked_set)
          return;
        parked_done = true;
        f           = std::move(parked);
        parked      = nullptr;
      }
      f(by_cancel);
    }
    void cancel()
    {
      ++guarded;
      DSIM_CHECK(others() == 0, "overlap", "cancellation is emitted while a handler of the operation runs on another thread");
      DSIM_CHECK(!out || out->count == 0, "late-cancel", "cancellation is emitted after the operation completed");
      dsim_event("cancel", 0, 0);
      {
        std::lock_guard l(m);
        ++cancelled;
      }
      resume(true);
    }
  };

  // An executor over the workers: what it is given may run at once or on any of them
  struct exec_t
  {
    world* w;
    bool   mayfail = false;
    bool   never   = false;  // may not run it at once
    exec_t require(asio::execution::blocking_t::never_t) const
    {
      return {w, mayfail, true};
    }
    template <class F>
    struct task : job
    {
      F f;
      explicit task(F&& f_)
        : f(std::move(f_))
      {
        run = [](job* j)
        {
          std::unique_ptr<task> self(static_cast<task*>(j));
          self->f();
        };
      }
    };
    template <class F>
    void execute(F f) const
    {
      if (mayfail && unsigned(w->submits.fetch_add(1, std::memory_order_relaxed)) + 1 == w->submit_fails)
      {
        dsim_fault_note("submit-failed");
        w->note(77);
        throw my_error{77};
      }
      if (!never && pick(4) == 3)
      {
        f();
        return;
      }
      w->w->post(new task<F>(std::move(f)));
    }
    friend bool operator==(exec_t const & a, exec_t const & b) noexcept
    {
      return a.w == b.w;
    }
    friend bool operator!=(exec_t const & a, exec_t const & b) noexcept
    {
      return a.w != b.w;
    }
  };

  struct body
  {
    world* w;
    bool   wrapped;
    body(world* w_, bool wr)
      : w(w_)
      , wrapped(wr)
    {
      if (wrapped)
      {
        ++w->guarded;
        w->depth[dsim_tid()].fetch_add(1, std::memory_order_relaxed);
      }
    }
    ~body()
    {
      if (wrapped)
      {
        w->depth[dsim_tid()].fetch_sub(1, std::memory_order_relaxed);
      }
    }
  };

  template <class EC, class H>
  struct shared
  {
    world*                               w;
    H                                    h;
    std::atomic<int>                     pending;
    asio::cancellation_slot              slot;
    touchy                               v;
    bool                                 aborted = false;
    shared(world* w_, H&& h_)
      : w(w_)
      , h(std::move(h_))
      , pending(int(w_->nstrands) + 1)
      , slot(asio::get_associated_cancellation_slot(h))
      , v(5, w_->copy_throws)
    {}
    EC code() const
    {
      int c = aborted ? ECANCELED : w->ec;
      if constexpr (std::is_same_v<EC, error_code>)
        return c ? error_code(c, pick(2) ? boost::system::system_category() : boost::system::generic_category()) : error_code();
      else
        return c ? std::error_code(c, std::generic_category()) : std::error_code();
    }
    void call()
    {
      w->invoked.fetch_add(1, std::memory_order_relaxed);
      w->finisher.store(dsim_tid(), std::memory_order_relaxed);
      touchy local(std::move(v));
      v.throws = false;
      EC e     = code();
      switch (w->ref)
      {
      case 0: std::move(h)(e, std::move(local)); break;
      case 1: h(std::move(e), local); break;
      default: std::move(h)(std::as_const(e), std::as_const(local)); break;
      }
    }
  };

  template <class EC, class H>
  struct strand
  {
    using assoc_t = decltype(asio::get_associated_executor(std::declval<H&>(), std::declval<exec_t>()));
    std::shared_ptr<shared<EC, H>> s;
    assoc_t                        assoc;
    int                            id;
    unsigned                       hops;
    bool                           waits = false;

    void arrive()
    {
      if (s->pending.fetch_sub(1, std::memory_order_acq_rel) == 1 && s->w->invoke)
        s->call();
    }
    static void go(strand st, bool wrapped)
    {
      world* w = st.s->w;
      if (st.waits)
      {
        st.waits = false;
        auto p = std::make_shared<strand>(std::move(st));
        bool now = false;
        {
          std::lock_guard l(w->m);
          w->parked_set = true;
          w->parked     = [p](bool by)
          {
            p->s->aborted = by;
            if (by)
              p->s->w->aborted.fetch_add(1, std::memory_order_relaxed);
            strand q = std::move(*p);
            // never inside the cancellation: as real operations do
            struct resumed : job
            {
              strand q;
              explicit resumed(strand&& q_)
                : q(std::move(q_))
              {
                run = [](job* j)
                {
                  std::unique_ptr<resumed> self(static_cast<resumed*>(j));
                  hop(std::move(self->q), false);
                };
              }
            };
            auto* wk = q.s->w->w;
            wk->post(new resumed(std::move(q)));
          };
          now = w->cancelled != 0;
        }
        p.reset();
        if (now)
          w->resume(true);
        else if (!w->hang)
        {
          // the world itself: an event on a worker, at any time
          struct event : job
          {
            world* w;
          };
          auto* e = new event;
          e->w    = w;
          e->run  = [](job* j)
          {
            std::unique_ptr<event> self(static_cast<event*>(j));
            self->w->resume(false);
          };
          w->w->post(e);
        }
        return;
      }
      if (st.hops)
      {
        --st.hops;
        hop(std::move(st), wrapped);
        return;
      }
      switch (w->acts[st.id])
      {
      case ARRIVE: st.arrive(); break;
      case THROW:
        if (!wrapped)
        {
          via(std::move(st));
          return;
        }
        w->note(60 + st.id);
        {
          // whoever invokes the handler now has to wait until this handler is over
          int left = st.s->pending.fetch_sub(1, std::memory_order_acq_rel);
          (void) left;
          if (pick(2))
            dsim_point();
          if (pick(2))
            st.s.reset();
        }
        throw my_error{60 + st.id};
      default: break;
      }
    }
    static void via(strand st)
    {
      auto a = st.assoc;
      auto f = [w = st.s->w, st = std::move(st)]() mutable
      {
        body b(w, true);
        go(std::move(st), true);
      };
      switch (pick(4))
      {
      case 0: asio::post(a, std::move(f)); break;
      case 1: asio::dispatch(a, std::move(f)); break;
      case 2: asio::defer(a, std::move(f)); break;
      default: a.execute(std::move(f)); break;
      }
    }
    static void hop(strand st, bool wrapped)
    {
      world* w = st.s->w;
      if (wrapped && w->with_slot && !w->hang && pick(6) == 5)
      {
        // handlers may use the slot: cancellation waits for them
        if (pick(2))
          st.s->slot.clear();
        else
          st.s->slot.assign([w](asio::cancellation_type) { w->cancel(); });
      }
      switch (pick(3))
      {
      case 0:
        // not through the operation's executor
        exec_t{w}.execute([st = std::move(st)]() mutable { go(std::move(st), false); });
        break;
      default: via(std::move(st)); break;
      }
    }
  };

  template <class EC>
  struct initiation
  {
    world** cur;
    template <class H>
    void operator()(H h, token const & a) &&
    {
      world* w = *cur;
      body   b(w, true);
      DSIM_CHECK(a.intact(8), "payload-corrupt", "the argument of the initiating function arrived damaged");
      DSIM_CHECK(w->initiated.fetch_add(1) == 0, "double-start", "the operation was initiated twice");
      marked<char> al = asio::get_associated_allocator(h);
      DSIM_CHECK(al.id == 33, "wrong-env", "the handler's allocator is not the receiver's");
      if (w->nstrands == 0 && w->acts[3] == LOSE && pick(2))
        return;
      using st = strand<EC, H>;
      auto s   = std::make_shared<shared<EC, H>>(w, std::move(h));
      auto ex  = asio::get_associated_executor(s->h, exec_t{w, true});
      if (w->with_slot)
        s->slot.assign([w](asio::cancellation_type) { w->cancel(); });
      for (unsigned i = 0; i < w->nstrands; ++i)
      {
        st one{s, ex, int(i), w->hops[i], w->park == int(i)};
        if (pick(4) == 0 && w->acts[i] != THROW)
          st::go(std::move(one), true);
        else
          st::hop(std::move(one), true);
      }
      st last{std::move(s), ex, 3, 0};
      // the initiating function is itself one of the strands
      st::go(std::move(last), true);
    }
  };

  template <class EC, class Token>
  auto async_thing(world** cur, Token const & t, token a)
  {
    return asio::async_initiate<Token const &, void(EC, touchy)>(initiation<EC>{cur}, t, std::move(a));
  }

  // connects from an lvalue
  template <class S>
  struct by_ref
  {
    using sender_concept = ex::sender_tag;
    S const * s;
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::get_completion_signatures<S, Env...>();
    }
    template <class R>
    auto connect(R r) const -> ex::connect_result_t<S const &, R>
    {
      return ex::connect(*s, std::move(r));
    }
  };

  void plan(world& w, bool req)
  {
    w.nstrands = pick(4);
    w.ref      = pick(3);
    w.copy_throws = pick(5) == 4 && w.ref;
    w.invoke   = pick(4) != 3;
    w.with_slot = pick(3) != 2;
    int const codes[] = {0, 0, ECANCELED, ECONNRESET, 0};
    w.ec       = codes[pick(5)];
    for (unsigned i = 0; i < 4; ++i)
    {
      w.hops[i] = i == 3 ? 0 : pick(3);
      unsigned a = pick(8);
      w.acts[i] = a == 6 ? THROW : a == 7 ? LOSE : ARRIVE;
    }
    if (w.nstrands && pick(2))
    {
      w.park = int(pick(w.nstrands));
      w.hang = req && w.with_slot && coin();
    }
    if (pick(6) == 5)
      w.submit_fails = 1 + pick(5);
  }

  template <bool UseSender, class EC>
  void check(world& w, outcome const & o)
  {
    require_once(o, "the operation");
    DSIM_CHECK(w.initiated.load() == 1, "not-started", "the operation was initiated %d times", w.initiated.load());
    int kind, val = 0;
    if (w.threw)
      kind = ERROR, val = w.threw;
    else if (!w.invoked.load())
      kind = STOPPED;
    else if (w.copy_throws)
      kind = ERROR, val = 1005;
    else
    {
      int c = w.aborted.load() ? ECANCELED : w.ec;
      bool std_ec = std::is_same_v<EC, std::error_code>;
      if (!UseSender)
        kind = VALUE, val = (std_ec ? 200000 : 100000) + 100 * c + 5;
      else if (c == 0)
        kind = VALUE, val = 5;
      else if (c == ECANCELED)
        kind = STOPPED;
      else
        kind = ERROR, val = (std_ec ? 400000 : 300000) + 100 * c;
    }
    DSIM_CHECK(o.kind == kind && o.value == val, "wrong-completion", "completed with %s %d, not with %s %d", name(o.kind), o.value, name(kind),
               val);
    bool all = true;
    for (unsigned i = 0; i < 4; ++i)
      if ((i < w.nstrands || i == 3) && w.acts[i] != ARRIVE)
        all = false;
    if (all && w.invoke && !w.threw)
      DSIM_CHECK(w.invoked.load() == 1, "lost-handler", "the handler was invoked %d times", w.invoked.load());
  }

  struct watch
  {
    world*    w;
    stop_box* box;
    bool      req;
    static void done(void* p)
    {
      auto* me = static_cast<watch*>(p);
      DSIM_CHECK(me->w->others() == 0, "unstructured", "the operation completed while a handler of it runs on another thread");
      if (!me->req && me->box)
        me->box->src.reset();
    }
  };

  template <bool UseSender, class EC, class Token>
  void run(Token const & t)
  {
    bool     req   = coin();
    unsigned shots = 1 + (pick(3) == 2);
    world*   cur   = nullptr;
    auto     s     = async_thing<EC>(&cur, t, token(8));
    for (unsigned i = 0; i < shots; ++i)
    {
      stop_box src;
      {
        world   wd;
        workers w(1 + pick(3));
        wd.w = &w;
        plan(wd, req);
        cur = &wd;
        watch wt{&wd, &src, req};
        auto  go = [&](auto snd)
        {
          threads ts;
          auto    o      = make_op(std::move(snd), my_env{src.get_token()}, coin());
          wd.out         = &o->out;
          o->on_done     = &watch::done;
          o->on_done_arg = &wt;
          if (req && coin())
            ts.go([&] { src.request_stop(); });
          else if (req && coin())
            src.request_stop();
          o->start();
          if (req)
            src.request_stop();
          o->wait();
          if (req)
            src.request_stop();
          ts.join();
          wd.out = nullptr;
          check<UseSender, EC>(wd, o->out);
          if (wd.hang && wd.cancelled)
            dsim_cover("cancelled");
        };
        if (i + 1 < shots || coin())
          go(by_ref<decltype(s)>{&s});
        else
          go(std::move(s));
      }
    }
  }
}  // namespace

SCENARIO(completion_token, 3)
{
  run<false, error_code>(exec::asio::completion_token);
}
SCENARIO(use_sender, 3)
{
  run<true, error_code>(exec::asio::use_sender);
}
SCENARIO(use_sender_std, 2)
{
  run<true, std::error_code>(exec::asio::use_sender);
}
