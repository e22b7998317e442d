// C10: bulk, bulk_chunked, bulk_unchunked
#include "common.hpp"
#include <exec/static_thread_pool.hpp>
#include <exec/single_thread_context.hpp>
using namespace h;

namespace
{
  constexpr int MAXN = 200;

  // what the function of one bulk did
  struct tally
  {
    int              hits[MAXN] = {};  // plain: two invocations of one index race
    std::atomic<int> calls{0}, running{0}, most{0}, thrown{0};
    int              last = -1;        // plain: only for sequenced bulks
    int              n    = 0;
    int              bad1 = -1, bad2 = -1;  // indices that throw
    bool             seq  = false;
    int              id   = 0;

    void begin()
    {
      int r = running.fetch_add(1, std::memory_order_relaxed) + 1;
      int m = most.load(std::memory_order_relaxed);
      while (m < r && !most.compare_exchange_weak(m, r))
        ;
      if (seq)
        DSIM_CHECK(r == 1, "parallel-sequenced", "two invocations of a sequenced bulk overlap");
    }
    void end()
    {
      running.fetch_sub(1, std::memory_order_release);
    }
    void one(long i, token& t)
    {
      DSIM_CHECK(i >= 0 && i < n, "bad-index", "bulk of %d invoked with index %ld", n, i);
      DSIM_CHECK(t.intact(id), "payload-corrupt", "bulk function received a damaged value");
      hits[i]++;
      calls.fetch_add(1, std::memory_order_relaxed);
      if (seq)
      {
        DSIM_CHECK(i == last + 1, "order", "sequenced bulk: index %ld after %d", i, last);
        last = int(i);
      }
      if (i == bad1 || i == bad2)
      {
        thrown.fetch_add(1, std::memory_order_relaxed);
        throw my_error{int(1000 + i)};
      }
    }
  };
  struct guard
  {
    tally& t;
    guard(tally& t_)
      : t(t_)
    {
      t.begin();
    }
    ~guard()
    {
      t.end();
    }
  };
  template <class Shape>
  struct each
  {
    tally* t;
    void   operator()(Shape i, token& v) const
    {
      guard g(*t);
      if (pick(4) == 0)
        dsim_point();
      t->one(long(i), v);
    }
  };
  template <class Shape>
  struct chunk
  {
    tally* t;
    void   operator()(Shape b, Shape e, token& v) const
    {
      guard g(*t);
      DSIM_CHECK(b < e, "bad-chunk", "chunk [%ld, %ld)", long(b), long(e));
      for (Shape i = b; i != e; ++i)
        t->one(long(i), v);
    }
  };
  template <class Shape>
  struct each_nothrow
  {
    tally* t;
    void   operator()(Shape i, token& v) const noexcept
    {
      guard g(*t);
      t->one(long(i), v);
    }
  };

  // o: how the whole completed; pre: what the predecessor sent
  void judge(outcome const & o, tally const & t, int pre, bool chunky)
  {
    require_once(o, "bulk");
    if (pre != VALUE)
    {
      DSIM_CHECK(o.kind == pre && (pre == STOPPED || o.value == t.id), "wrong-completion", "predecessor sent %s, bulk completed with %s %d",
                 name(pre), name(o.kind), o.value);
      DSIM_CHECK(t.calls.load() == 0, "ran-without-value", "the bulk function ran %d times though its predecessor sent %s", t.calls.load(),
                 name(pre));
      return;
    }
    DSIM_CHECK(t.running.load(std::memory_order_acquire) == 0, "unstructured", "bulk completed while its function was running");
    bool bad = (t.bad1 >= 0 && t.bad1 < t.n) || (t.bad2 >= 0 && t.bad2 < t.n);
    for (int i = 0; i < t.n; ++i)
    {
      if (bad)
        DSIM_CHECK(t.hits[i] <= 1, "index-twice", "index %d of %d ran %d times", i, t.n, t.hits[i]);
      else
        DSIM_CHECK(t.hits[i] == 1, t.hits[i] ? "index-twice" : "index-lost", "index %d of %d ran %d times", i, t.n, t.hits[i]);
    }
    if (!bad)
    {
      DSIM_CHECK(o.kind == VALUE && o.value == t.id, "wrong-completion", "bulk completed with %s %d, expected value %d", name(o.kind),
                 o.value, t.id);
    }
    else
    {
      DSIM_CHECK(t.thrown.load() > 0, "index-lost", "no throwing index was invoked");
      DSIM_CHECK(o.kind == ERROR, "lost-error", "the function threw %d times but bulk completed with %s", t.thrown.load(), name(o.kind));
      bool ok = (o.value == 1000 + t.bad1 && t.hits[t.bad1]) || (t.bad2 >= 0 && t.bad2 < t.n && o.value == 1000 + t.bad2 && t.hits[t.bad2]);
      DSIM_CHECK(ok, "wrong-error", "error %d was reported, which no invocation threw", o.value);
    }
  }

  void shape_it(tally& t, int id)
  {
    static const int sizes[] = {1, 2, 3, 4, 5, 7, 8, 9, 0, 12, 17, 120};
    t.n  = sizes[pick(12)];
    t.id = id;
    if (t.n && pick(4) == 3)
    {
      t.bad1 = int(pick(t.n));
      if (coin())
        t.bad2 = int(pick(t.n));
    }
  }

  template <class S>
  void finish(S s, tally& t, int pre, bool chunky)
  {
    auto o = make_op(std::move(s), ex::env<>{}, coin());
    o->start();
    o->wait();
    judge(o->out, t, pre, chunky);
  }

  template <class Shape, class Pred>
  void variants(Pred pred, tally& t, int pre)
  {
    Shape n = Shape(t.n);
    switch (pick(8))
    {
    case 0: finish(pred | ex::bulk(ex::par, n, each<Shape>{&t}), t, pre, false); break;
    case 1: finish(pred | ex::bulk_unchunked(ex::par, n, each<Shape>{&t}), t, pre, false); break;
    case 2: finish(pred | ex::bulk_chunked(ex::par, n, chunk<Shape>{&t}), t, pre, true); break;
    case 3:
      t.seq = true;
      finish(pred | ex::bulk(ex::seq, n, each<Shape>{&t}), t, pre, false);
      break;
    case 4:
      t.seq = true;
      finish(pred | ex::bulk_unchunked(ex::seq, n, each<Shape>{&t}), t, pre, false);
      break;
    case 5: finish(pred | ex::bulk(ex::par_unseq, n, each<Shape>{&t}), t, pre, false); break;
    case 6:
      t.bad1 = t.bad2 = -1;
      finish(pred | ex::bulk(ex::par, n, each_nothrow<Shape>{&t}), t, pre, false);
      break;
    case 7:
      t.bad1 = t.bad2 = -1;
      finish(pred | ex::bulk_unchunked(ex::par, n, each_nothrow<Shape>{&t}), t, pre, false);
      break;
    }
  }
  template <class Pred>
  void shapes(Pred pred, tally& t, int pre)
  {
    switch (pick(3))
    {
    case 0: variants<int>(pred, t, pre); break;
    case 1: variants<unsigned char>(pred, t, pre); break;
    case 2: variants<std::size_t>(pred, t, pre); break;
    }
  }
}  // namespace

// bulks on a pool, from several threads
SCENARIO(pool_bulk, 5)
{
  unsigned                 nt = 1 + pick(4);
  exec::static_thread_pool pool{nt, exec::bwos_params{1 + pick(3), 1 + pick(3)}};
  unsigned                 nsub = 1 + pick(2), per = 1 + pick(2);
  auto                     sch  = pool.get_scheduler();
  auto                     body = [&](int k)
  {
    for (unsigned i = 0; i < per; ++i)
    {
      tally t;
      int   id = 10 * k + int(i);
      shape_it(t, id);
      auto pred = ex::schedule(sch) | ex::then([id] { return token(id); });
      shapes(pred, t, VALUE);
    }
  };
  threads ts;
  for (unsigned k = 1; k < nsub; ++k)
    ts.go([&, k] { body(int(k)); });
  body(0);
}

// the predecessor of the bulk may fail; it arrives on the pool from somewhere else
SCENARIO(pool_transfer, 2)
{
  unsigned                 nt = 1 + pick(3);
  exec::static_thread_pool pool{nt, exec::bwos_params{1 + pick(3), 1 + pick(3)}};
  workers                  w(1);
  leaf_log                 log;
  tally                    t;
  shape_it(t, 7);
  int  pre  = 1 + int(pick(3));
  auto pred = leaf(w, log, leaf_mode(pick(2)), pre, 7) | ex::continues_on(pool.get_scheduler());
  shapes(pred, t, pre);
}

// chained bulks, and a bulk started from inside a bulk's pool
SCENARIO(pool_chain, 2)
{
  unsigned                 nt = 1 + pick(3);
  exec::static_thread_pool pool{nt, exec::bwos_params{1 + pick(3), 1 + pick(3)}};
  auto                     sch = pool.get_scheduler();
  tally                    a, b;
  shape_it(a, 3);
  shape_it(b, 3);
  a.bad1 = a.bad2 = b.bad1 = b.bad2 = -1;
  bool nested = coin();
  auto first  = ex::schedule(sch) | ex::then([] { return token(3); }) | ex::bulk(ex::par, a.n, each<int>{&a})
             | ex::then(
                 [&](token t)
                 {
                   for (int i = 0; i < a.n; ++i)
                     DSIM_CHECK(a.hits[i] == 1, "index-lost", "index %d ran %d times before the continuation", i, a.hits[i]);
                   return t;
                 });
  if (nested)
  {
    auto o = make_op(first | ex::let_value(
                       [&](token& t)
                       {
                         return ex::schedule(sch) | ex::then([&t] { return token(t.id); }) | ex::bulk(ex::par, b.n, each<int>{&b});
                       }),
                     ex::env<>{}, coin());
    o->start();
    o->wait();
    judge(o->out, a, VALUE, false);
    judge(o->out, b, VALUE, false);
  }
  else
  {
    auto o = make_op(first | ex::bulk_chunked(ex::par, b.n, chunk<int>{&b}), ex::env<>{}, coin());
    o->start();
    o->wait();
    judge(o->out, a, VALUE, false);
    judge(o->out, b, VALUE, true);
  }
}

// bulk where the default implementation applies: in order, one after the other
SCENARIO(serial, 1)
{
  tally t;
  shape_it(t, 9);
  t.seq = true;
  int pre = 1 + int(pick(3));
  workers  w(1);
  leaf_log log;
  if (coin())
    shapes(leaf(w, log, leaf_mode(pick(2)), pre, 9), t, pre);
  else
  {
    exec::single_thread_context c;
    shapes(leaf(w, log, leaf_mode(pick(2)), pre, 9) | ex::continues_on(c.get_scheduler()), t, pre);
  }
}
