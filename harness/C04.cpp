// C04: inplace_stop_source / inplace_stop_token / inplace_stop_callback
#include "common.hpp"
using namespace h;

namespace
{
  struct world;
  struct slot;
  struct fn
  {
    slot* s;
    void  operator()() noexcept;
  };
  using cb_t = ex::inplace_stop_callback<fn>;

  enum action
  {
    A_PLAIN,
    A_SELF_DESTROY,   // destroys its own registration
    A_KILL_OTHER,     // destroys another registration of the same owner thread's group
    A_REGISTER,       // registers another callback
    A_REQUEST,        // requests stop again
    A_SLOW,           // takes a while
    A_N
  };

  struct payload
  {
    int written = 0;
  };

  struct slot
  {
    world*                  w      = nullptr;
    action                  act    = A_PLAIN;
    slot*                   victim = nullptr;
    std::unique_ptr<cb_t>   cb;
    std::unique_ptr<int>    state = std::make_unique<int>(0);  // freed once deregistered
    int                     runs  = 0;
    int                     tid   = -1;
    std::atomic<int>        runs_sync{0};
    bool                    destroyed = false;
    bool                    running   = false;
    // the callback destroys its registration by itself (or another callback does it)
    bool                    other_destroys = false;
  };

  struct world
  {
    std::unique_ptr<ex::inplace_stop_source> src = std::make_unique<ex::inplace_stop_source>();
    payload                                  data[2];
    std::atomic<int>                         wins{0};
  };

  void fn::operator()() noexcept
  {
    slot* sl = s;
    if (sl->runs++ != 0)
      dsim_fail("double-invocation", "a stop callback was invoked twice");
    if (sl->destroyed)
      dsim_fail("invoked-after-deregistration", "a stop callback was invoked after its deregistration completed");
    ++*sl->state;
    sl->tid     = dsim_tid();
    sl->running = true;
    // what the requester wrote before requesting stop is visible here
    if (sl->w->data[0].written + sl->w->data[1].written == 0)
      dsim_fail("not-visible", "a stop callback does not see what was written before request_stop()");
    if (!sl->w->src->stop_requested())
      dsim_fail("not-requested", "a stop callback ran while stop_requested() is false");
    sl->runs_sync.fetch_add(1, std::memory_order_relaxed);
    switch (sl->act)
    {
    case A_SELF_DESTROY:
      sl->running = false;
      sl->cb.reset();
      sl->destroyed = true;
      sl->state.reset();
      dsim_cover("self-deregistration");
      return;
    case A_KILL_OTHER:
      sl->victim->cb.reset();
      sl->victim->destroyed = true;
      sl->victim->state.reset();
      break;
    case A_REGISTER:
    {
      slot extra;
      extra.w  = sl->w;
      extra.cb = std::make_unique<cb_t>(sl->w->src->get_token(), fn{&extra});
      DSIM_CHECK(extra.runs == 1, "not-invoked", "a callback registered after the stop request ran %d times", extra.runs);
      extra.cb.reset();
      dsim_cover("register-in-callback");
      break;
    }
    case A_REQUEST:
      DSIM_CHECK(!sl->w->src->request_stop(), "second-win", "request_stop() inside a callback returned true");
      break;
    case A_SLOW:
      for (unsigned i = pick(4); i-- > 0;)
        std::this_thread::yield();
      break;
    default: break;
    }
    sl->running = false;
    ++*sl->state;
  }

}  // namespace

SCENARIO(race, 4)
{
  world    w;
  unsigned owners = 1 + pick(3), per = 1 + pick(3), cycles = 1 + pick(2);
  unsigned nreq   = pick(4);  // 3 means: requests happen before everything
  bool     before = nreq == 3;
  std::atomic<int> over{0};  // some winning request_stop returned
  auto     request = [&](int) {
    if (w.data[0].written == 0)
      w.data[0].written = 1;
    bool r = w.src->request_stop();
    if (r)
    {
      w.wins.fetch_add(1);
      over.store(1, std::memory_order_release);
    }
    DSIM_CHECK(w.src->stop_requested(), "forgotten-request", "stop_requested() is false after request_stop() returned");
    return r;
  };
  // a single requester writes on its own thread, right before it requests
  bool requester_writes = nreq == 1 && coin();
  if (!requester_writes)
    w.data[0].written = 1;
  if (before)
    DSIM_CHECK(request(0), "lost-request", "the first request_stop() returned false");
  auto owner = [&](unsigned) {
    for (unsigned c = 0; c < cycles; ++c)
    {
      std::vector<std::unique_ptr<slot>> s(per);
      for (unsigned i = 0; i < per; ++i)
      {
        s[i]      = std::make_unique<slot>();
        s[i]->w   = &w;
        s[i]->act = action(pick(A_N));
        if (s[i]->act == A_KILL_OTHER || s[i]->act == A_SELF_DESTROY)
          s[i]->act = A_PLAIN;  // those need a single-threaded owner; see the other scenario
        bool seen = over.load(std::memory_order_acquire) != 0;
        bool seen2 = w.src->get_token().stop_requested();
        s[i]->cb  = std::make_unique<cb_t>(w.src->get_token(), fn{s[i].get()});
        if (seen || seen2)
          DSIM_CHECK(s[i]->runs == 1 && s[i]->tid == dsim_tid(), "not-invoked",
                     "a callback registered after stop was requested ran %d times in its constructor", s[i]->runs);
      }
      for (unsigned k = pick(3); k-- > 0;)
        std::this_thread::yield();
      for (unsigned i = 0; i < per; ++i)
      {
        unsigned j    = coin() ? i : per - 1 - i;
        if (!s[j]->cb)
          j = i;
        if (!s[j]->cb)
          for (j = 0; !s[j]->cb; ++j)
            ;
        bool seen = over.load(std::memory_order_acquire) != 0;
        if (seen)
          DSIM_CHECK(s[j]->runs_sync.load(std::memory_order_relaxed) == 1, "not-invoked",
                     "a callback registered across a completed request_stop() ran %d times", s[j]->runs);
        s[j]->cb.reset();
        DSIM_CHECK(!s[j]->running, "still-running", "deregistration returned while the callback was running");
        s[j]->destroyed = true;
        s[j]->state.reset();
      }
    }
  };
  {
    threads t;
    for (unsigned i = 0; i < owners; ++i)
      t.go([&, i] { owner(i); });
    if (!before)
      for (unsigned i = 0; i < nreq; ++i)
        t.go([&, i] { request(int(i)); });
    if (coin())
      t.go([&] {
        bool a = w.src->stop_requested();
        bool b = w.src->stop_requested();
        DSIM_CHECK(!a || b, "forgotten-request", "stop_requested() went back to false");
      });
  }
  int want = nreq ? 1 : 0;
  DSIM_CHECK(w.wins.load() == want, "request-winners", "%d of the request_stop() calls returned true, expected %d", w.wins.load(), want);
  DSIM_CHECK(w.src->stop_requested() == (want != 0), "wrong-state", "stop_requested() is %d", w.src->stop_requested());
}

// Callbacks that deregister themselves or each other while being notified, against a concurrent
// owner of further callbacks.
SCENARIO(reentrant, 3)
{
  world    w;
  unsigned n = 2 + pick(3);
  std::vector<std::unique_ptr<slot>> s(n);
  w.data[0].written = 1;
  for (unsigned i = 0; i < n; ++i)
  {
    s[i]    = std::make_unique<slot>();
    s[i]->w = &w;
  }
  for (unsigned i = 0; i < n; ++i)
  {
    auto a = action(pick(A_N));
    if (s[i]->other_destroys && a == A_SELF_DESTROY)
      a = A_PLAIN;
    if (a == A_KILL_OTHER)
    {
      unsigned v = pick(n);
      // at most one killer per victim, and victims do not destroy themselves
      if (v == i || s[v]->other_destroys || s[v]->act == A_SELF_DESTROY)
        a = A_PLAIN;
      else
      {
        s[i]->victim         = s[v].get();
        s[v]->other_destroys = true;
      }
    }
    s[i]->act = a;
  }
  for (unsigned i = 0; i < n; ++i)
    s[i]->cb = std::make_unique<cb_t>(w.src->get_token(), fn{s[i].get()});
  slot far_;
  far_.w = &w;
  threads t;
  t.go([&] {
    for (int i = 0; i < 2; ++i)
    {
      slot x;
      x.w  = &w;
      x.cb = std::make_unique<cb_t>(w.src->get_token(), fn{&x});
      x.cb.reset();
      x.destroyed = true;
    }
  });
  // one callback owned (and destroyed) by another thread
  bool far_too = coin();
  if (far_too)
  {
    far_.act = coin() ? A_SLOW : A_REGISTER;
    far_.cb  = std::make_unique<cb_t>(w.src->get_token(), fn{&far_});
    t.go([&] {
      far_.cb.reset();
      DSIM_CHECK(!far_.running, "still-running", "deregistration returned while the callback was running");
      far_.destroyed = true;
      far_.state.reset();
    });
  }
  bool requester_elsewhere = coin();
  if (requester_elsewhere)
  {
    threads r;
    r.go([&] { DSIM_CHECK(w.src->request_stop(), "lost-request", "the only request_stop() returned false"); });
  }
  else
    DSIM_CHECK(w.src->request_stop(), "lost-request", "the only request_stop() returned false");
  for (unsigned i = 0; i < n; ++i)
  {
    if (s[i]->other_destroys)
      DSIM_CHECK(s[i]->runs <= 1, "double-invocation", "ran %d times", s[i]->runs);
    else
      DSIM_CHECK(s[i]->runs == 1, "not-invoked", "a callback registered throughout request_stop() ran %d times", s[i]->runs);
    // a callback whose killer ran before it must not have run afterwards: fn checks that
    s[i]->cb.reset();
    s[i]->destroyed = true;
  }
  t.join();
  w.src.reset();
}

// The usual pattern in operations: completion deregisters, then frees everything the callback uses,
// and the source goes away right after.
SCENARIO(lifetime, 2)
{
  unsigned rounds = 1 + pick(2);
  for (unsigned r = 0; r < rounds; ++r)
  {
    world w;
    w.data[0].written = 1;
    auto* s = new slot;
    s->w    = &w;
    s->act  = coin() ? A_SLOW : A_PLAIN;
    s->cb   = std::make_unique<cb_t>(w.src->get_token(), fn{s});
    threads t;
    t.go([&] { w.src->request_stop(); });
    s->cb.reset();
    if (coin())
    {
      delete s;
      s = nullptr;
    }
    t.join();
    w.src.reset();
    delete s;
  }
}

// Tokens are values: copied, moved, assigned, swapped and compared, they keep referring to the
// source they came from, and all ways to ask agree.
namespace
{
  struct counting_fn
  {
    int* runs;
    bool boom;
    counting_fn(int* r, bool b)
      : runs(r)
      , boom(b)
    {
      if (boom)
      {
        dsim_fault_note("callback-construction-throws");
        throw 1;
      }
    }
    void operator()() noexcept
    {
      ++*runs;
    }
  };
  struct make_counting
  {
    int* runs;
    bool boom;
    operator counting_fn() const
    {
      return counting_fn(runs, boom);
    }
  };
}  // namespace
SCENARIO(tokens, 2)
{
  ex::inplace_stop_source src[2];
  using tok = ex::inplace_stop_token;
  tok                  t[4];
  int                  of[4] = {-1, -1, -1, -1};
  std::atomic<int>     over[2] = {0, 0};
  int                  requested = int(pick(3));  // 2: nobody requests
  threads              th;
  if (requested < 2)
    th.go([&] {
      DSIM_CHECK(src[requested].request_stop(), "lost-request", "the only request_stop() returned false");
      over[requested].store(1, std::memory_order_release);
    });
  auto check = [&](unsigned i) {
    bool known = of[i] >= 0 && over[of[i]].load(std::memory_order_acquire);
    bool r     = t[i].stop_requested();
    DSIM_CHECK(t[i].stop_possible() == (of[i] >= 0), "wrong-token", "stop_possible() is %d", t[i].stop_possible());
    DSIM_CHECK(!r || of[i] == requested, "wrong-token", "a token says stop was requested of another source");
    DSIM_CHECK(!known || r, "forgotten-request", "a token says stop was not requested after request_stop() returned");
    for (unsigned j = 0; j < 4; ++j)
      DSIM_CHECK((t[i] == t[j]) == (of[i] == of[j]), "wrong-token", "comparison of two tokens");
    int  runs   = 0;
    bool boom   = pick(4) == 0;
    bool before = of[i] >= 0 && over[of[i]].load(std::memory_order_acquire);
    try
    {
      ex::inplace_stop_callback<counting_fn> cb(t[i], make_counting{&runs, boom});
      DSIM_CHECK(!boom, "internal", "did not throw");
      DSIM_CHECK(!before || runs == 1, "not-invoked", "a callback registered after stop was requested did not run");
    }
    catch (int)
    {
      DSIM_CHECK(runs == 0, "invoked", "a callback ran that was never constructed");
    }
    DSIM_CHECK(runs <= 1 && (runs == 0 || of[i] == requested), "wrong-callback", "a callback ran %d times", runs);
  };
  for (unsigned k = 4 + pick(12); k-- > 0;)
  {
    unsigned a = pick(4), b = pick(4);
    switch (pick(7))
    {
    case 0:
    case 1:
    {
      int s = int(pick(2));
      t[a]  = src[s].get_token();
      of[a] = s;
      break;
    }
    case 2:
      t[a]  = t[b];
      of[a] = of[b];
      break;
    case 3:
      if (a != b)
      {
        t[a]  = std::move(t[b]);
        of[a] = of[b];
        t[b]  = tok();
        of[b] = -1;
      }
      break;
    case 4:
    {
      tok c(t[a]);
      DSIM_CHECK(c == t[a], "wrong-token", "a copy differs");
      tok m(std::move(c));
      DSIM_CHECK(m == t[a], "wrong-token", "a moved copy differs");
      break;
    }
    case 5:
      t[a].swap(t[b]);
      std::swap(of[a], of[b]);
      break;
    case 6: check(a); break;
    }
  }
  for (unsigned i = 0; i < 4; ++i)
    check(i);
  th.join();
  for (unsigned i = 0; i < 4; ++i)
    check(i);
  for (int s = 0; s < 2; ++s)
    DSIM_CHECK(src[s].stop_requested() == (s == requested), "wrong-state", "stop_requested() of source %d", s);
}

// A callback may end the life of the source it was registered with (an operation that owns the
// source completes in it), or let another thread do so.
namespace
{
  struct suicide_state;
  struct suicide
  {
    suicide_state* s;
    void           operator()() noexcept;
  };
  struct suicide_state
  {
    std::optional<ex::inplace_stop_source>                src{std::in_place};
    std::optional<ex::inplace_stop_callback<suicide>>     cb;
    std::optional<ex::inplace_stop_callback<counting_fn>> other;
    int                                                   runs = 0;
    outcome*                                              out;
    int                                                   elsewhere = 0;
  };
  void suicide::operator()() noexcept
  {
    auto* st = s;
    auto* o  = st->out;
    if (st->elsewhere < 2)
    {
      st->other.reset();
      st->cb.reset();
    }
    if (st->elsewhere == 0)
      delete st;
    o->complete(STOPPED, 0);
    o->signal();
  }
}  // namespace
SCENARIO(source_dies, 1)
{
  outcome out;
  auto*   s  = new suicide_state;
  s->out     = &out;
  int elsewhere = s->elsewhere = int(pick(3));
  bool first = coin();
  auto add   = [&] { s->other.emplace(s->src->get_token(), make_counting{&s->runs, false}); };
  if (first)
    add();
  s->cb.emplace(s->src->get_token(), suicide{s});
  if (!first && coin())
    add();
  threads t;
  if (coin())
    t.go([&] { DSIM_CHECK(s->src->request_stop(), "lost-request", "the only request_stop() returned false"); });
  else
    DSIM_CHECK(s->src->request_stop(), "lost-request", "the only request_stop() returned false");
  out.wait();
  // the requester may still be in request_stop()
  if (elsewhere)
    delete s;
  require_once(out, "the callback");
}
