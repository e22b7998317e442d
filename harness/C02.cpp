// C02: sync_wait / sync_wait_with_variant
#include "common.hpp"
using namespace h;

namespace
{
  // Reuses the stack below the caller, so that anything that still touches the frame of the
  // sync_wait that just returned conflicts with these writes.
  [[gnu::noinline]] void scribble()
  {
    volatile char buf[6000];
    for (unsigned i = 0; i < sizeof buf; i += 8)
      buf[i] = char(i);
    dsim_point();
    for (unsigned i = 0; i < sizeof buf; i += 8)
      if (buf[i] != char(i))
        dsim_fail("stack-corruption", "memory of a returned sync_wait was written");
  }

  struct result
  {
    int kind  = NONE;
    int value = 0;
    int alts  = 0;
  };

  template <class F>
  [[gnu::noinline]] result wait_it(F make)
  {
    result r;
    try
    {
      auto v = ex::sync_wait(make());
      if (!v)
        r.kind = STOPPED;
      else
      {
        r.kind  = VALUE;
        r.value = std::apply([](auto const &... a) { return sum_of(a...); }, *v);
      }
    }
    catch (my_error const & e)
    {
      r.kind  = ERROR;
      r.value = e.code;
    }
    catch (int e)
    {
      r.kind  = ERROR;
      r.value = e;
    }
    return r;
  }

  void expect(result r, int kind, int value)
  {
    DSIM_CHECK(r.kind == kind, "wrong-completion", "sync_wait reported %s, the operation completed with %s", name(r.kind), name(kind));
    if (kind != STOPPED)
      DSIM_CHECK(r.value == value, "wrong-value", "sync_wait reported payload %d, expected %d", r.value, value);
  }

  // one sync_wait of a random shape on the calling thread
  void one(workers& w, int id)
  {
    leaf_log        log;
    log.many = true;  // shared by the leaves of one composition, which complete concurrently
    std::thread::id me   = std::this_thread::get_id();
    int             kind = 1 + int(pick(3));
    auto            mode = leaf_mode(pick(2));
    auto            L    = leaf(w, log, mode, kind, id);
    auto            V    = leaf(w, log, leaf_mode(pick(2)), VALUE, id);
    // hops through the loop that sync_wait itself is driving
    auto hop = [me] {
      return ex::read_env(ex::get_delegation_scheduler)
           | ex::let_value([me](auto sch) {
               return ex::schedule(sch) | ex::then([me] {
                        DSIM_CHECK(std::this_thread::get_id() == me, "wrong-thread",
                                   "work scheduled on the delegation scheduler of sync_wait ran on another thread");
                      });
             });
    };
    switch (pick(8))
    {
    case 0: expect(wait_it([&] { return L; }), kind, id); break;
    case 1:
      expect(wait_it([&] { return V | ex::then([](token t) { return token(t.id + 1); }); }), VALUE, id + 1);
      break;
    case 2:
      expect(wait_it([&] {
               return V | ex::then([](token t) -> token {
                        throw my_error{t.id + 5};
                      });
             }),
             ERROR, id + 5);
      break;
    case 3:
      expect(wait_it([&] {
               return V | ex::let_value([&](token& t) {
                        return hop() | ex::then([&t] { return token(t.id); });
                      });
             }),
             VALUE, id);
      break;
    case 4:  // remote thread pushes onto the loop, the last task finishes it
      expect(wait_it([&] {
               return ex::when_all(V, hop(), V | ex::let_value([&](token&) { return hop(); }));
             }),
             VALUE, id);
      break;
    case 5:
    {
      result r;
      try
      {
        auto v = ex::sync_wait_with_variant(
          L | ex::then([](token t) { return token(t.id); })
          | ex::upon_error([](auto const & e) noexcept {
              if constexpr (std::is_same_v<std::decay_t<decltype(e)>, my_error>)
                return int(e.code);
              else
                return int(-7);
            }));
        if (!v)
          expect({STOPPED, 0}, kind, 0);
        else if (kind == VALUE)
          DSIM_CHECK(v->index() == 0 && int_of(std::get<0>(std::get<0>(*v))) == id, "wrong-value", "wrong alternative or value");
        else
          DSIM_CHECK(kind == ERROR && v->index() == 1 && std::get<0>(std::get<1>(*v)) == id, "wrong-value", "wrong alternative or value");
      }
      catch (...)
      {
        dsim_fail("wrong-completion", "sync_wait_with_variant threw though errors were handled");
      }
      break;
    }
    case 6:  // stopped by a sibling's failure: every child must still have completed
      expect(wait_it([&] {
               return ex::when_all(leaf(w, log, L_HANG, VALUE, id), leaf(w, log, leaf_mode(pick(2)), ERROR, id + 3));
             }),
             ERROR, id + 3);
      break;
    case 7:  // nested sync_wait on the same thread
      expect(wait_it([&] {
               return V | ex::then([&](token t) {
                        leaf_log inner;
                        auto     v = ex::sync_wait(leaf(w, inner, L_INLINE, VALUE, t.id + 2));
                        DSIM_CHECK(v.has_value(), "wrong-completion", "nested sync_wait lost its value");
                        return std::get<0>(std::move(*v));
                      });
             }),
             VALUE, id + 2);
      break;
    }
    DSIM_CHECK(log.running.load() == 0 && log.started.load() == log.completed.load(), "returned-early",
               "sync_wait returned while %d of its operations were running", log.running.load());
    DSIM_CHECK(log.connected.load() == log.destroyed.load(), "not-destroyed",
               "%d operation states survived sync_wait", log.connected.load() - log.destroyed.load());
    scribble();
  }
}  // namespace

SCENARIO(waiters, 4)
{
  workers  w(1 + pick(2));
  unsigned n = 1 + pick(2), reps = 1 + pick(2);
  threads  t;
  for (unsigned k = 1; k < n; ++k)
    t.go([&, k] {
      for (unsigned i = 0; i < reps; ++i)
        one(w, int(100 * k + 10 * i));
    });
  for (unsigned i = 0; i < reps; ++i)
    one(w, int(10 * i));
}

// A foreign thread hands work to the waiting thread and the work finishes the wait at once.
SCENARIO(handoff, 2)
{
  workers w(1);
  for (unsigned i = 1 + pick(3); i-- > 0;)
  {
    leaf_log        log;
    std::thread::id me = std::this_thread::get_id();
    auto            r  = wait_it([&] {
      return leaf(w, log, L_REMOTE, VALUE, 7)
           | ex::let_value([me](token& t) {
               return ex::read_env(ex::get_delegation_scheduler)
                    | ex::let_value([me, &t](auto sch) {
                        return ex::schedule(sch) | ex::then([me, &t] {
                                 DSIM_CHECK(std::this_thread::get_id() == me, "wrong-thread", "delegated work ran elsewhere");
                                 return token(t.id);
                               });
                      });
             });
    });
    expect(r, VALUE, 7);
    scribble();
  }
}
