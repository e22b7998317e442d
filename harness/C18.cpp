// C18: sequence senders
#include "common.hpp"
#include <exec/sequence/any_sequence_of.hpp>
#include <exec/sequence/empty_sequence.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/sequence_senders.hpp>
#include <exec/static_thread_pool.hpp>
#include <functional>
#include <memory>
#include <ranges>
using namespace h;

namespace
{
  constexpr int MAXI = 64;

  // what happened to the items of a sequence; the plain arrays are written by the item operations
  // and read at the sequence's completion, so a missing happens-before is reported as a data race
  struct ledger
  {
    leaf_log         log;
    int              seen[MAXI]    = {};  // value delivered
    int              handled[MAXI] = {};  // item operation completed
    std::atomic<int> offered{0}, delivered{0};
    std::atomic<int> item_errors{0}, item_stops{0};
    std::atomic<int> active{0};
    int              max_active = 0;  // plain: only meaningful for sequential sequences
    bool             sequential = false;
    int              order      = 0;
    int              cut        = 1000;  // the item handler of this item says "no more"
    std::atomic<int> cuts{0};
    int              offered_after_cut = 0;
    bool             drop              = false;
    workers*         w                 = nullptr;
    int              expected          = 0;
    bool             stopper           = false;
    bool             late              = false;  // the consumer starts some items later, elsewhere
    ledger()
    {
      log.many = true;
    }
  };

  // an item that the consumer starts when it likes
  template <class Item>
  struct gate
  {
    using sender_concept = ex::sender_tag;
    Item    item;
    ledger* l;
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::get_completion_signatures<Item, Env...>();
    }
    template <class R>
    struct op : job
    {
      ledger*                       l;
      ex::connect_result_t<Item, R> o;
      op(Item&& i, R r, ledger* l_)
        : l(l_)
        , o(ex::connect(static_cast<Item&&>(i), std::move(r)))
      {
        run = [](job* j) { ex::start(static_cast<op*>(j)->o); };
      }
      op(op&&) = delete;
      void start() & noexcept
      {
        if (l->late && pick(3) == 2)
          l->w->post(this);
        else
          ex::start(o);
      }
    };
    template <class R>
    auto connect(R r) && -> op<R>
    {
      return op<R>(std::move(item), std::move(r), l);
    }
  };

  struct seq_rcvr
  {
    using receiver_concept = ex::receiver_tag;
    outcome* o;
    ledger*  l;
    ex::inplace_stop_token tok;
    void (*after)(void*) = nullptr;
    void* arg            = nullptr;

    template <class Item>
    auto set_next(Item&& item) noexcept
    {
      int at = l->offered.fetch_add(1, std::memory_order_relaxed);
      (void) at;
      if (l->sequential && l->active.load(std::memory_order_relaxed) != 0)
        dsim_fail("overlapping-items", "the next item was offered before the previous one was finished");
      if (l->sequential && l->cuts.load(std::memory_order_relaxed))
        dsim_fail("item-after-stop", "an item was offered after the consumer had stopped the sequence");
      ledger* ld = l;
      return ex::upon_error(ex::let_value(ex::upon_error(gate<std::decay_t<Item>>{static_cast<Item&&>(item), l},
                                          [ld](auto&&...) noexcept
                                          {
                                            ld->item_errors.fetch_add(1, std::memory_order_relaxed);
                                            return -1;
                                          }),
                           [ld](int i) noexcept
                           {
                             ld->active.fetch_add(1, std::memory_order_relaxed);
                             if (i >= 0)
                             {
                               DSIM_CHECK(i < MAXI, "wrong-item", "an item carried %d", i);
                               ld->delivered.fetch_add(1, std::memory_order_relaxed);
                               if (ld->seen[i]++)
                                 dsim_fail("duplicate-item", "item %d was delivered twice", i);
                               if (ld->sequential && ld->order++ != i)
                                 dsim_fail("item-order", "item %d was delivered at position %d", i, ld->order - 1);
                             }
                             auto m   = leaf_mode(pick(2));
                             bool cut = i >= 0 && i == ld->cut;
                             return ex::then(leaf_sender<false, true>{ld->w, &ld->log, m, cut ? STOPPED : VALUE, i},
                                             [ld, i](token t) noexcept
                                             {
                                               DSIM_CHECK(t.intact(i), "wrong-value", "value of item %d damaged", i);
                                               if (i >= 0)
                                                 ld->handled[i]++;
                                               ld->active.fetch_sub(1, std::memory_order_relaxed);
                                             })
                                  | ex::upon_stopped([ld]() noexcept { ld->active.fetch_sub(1, std::memory_order_relaxed); })
                                  | ex::let_value(
                                      [ld, cut]() noexcept
                                      {
                                        if (cut)
                                          ld->cuts.fetch_add(1, std::memory_order_relaxed);
                                        return leaf_sender<false, true>{ld->w, &ld->log, L_INLINE, cut ? STOPPED : VALUE, 0}
                                             | ex::then([](token) noexcept { });
                                      });
                           }),
                           [](auto&&) noexcept { dsim_fail("unexpected-error", "handling an item failed"); });
    }
    void fin(int k, int v) noexcept
    {
      outcome* out = o;
      auto     a   = after;
      auto     p   = arg;
      if (l->log.running.load(std::memory_order_acquire) != 0)
        dsim_fail("unstructured", "the sequence completed while %d item operations were still running", l->log.running.load());
      // plain reads of everything the items wrote
      int n = 0;
      for (int i = 0; i < l->expected; ++i)
        n += l->handled[i];
      out->complete(k, v);
      if (k == VALUE && l->cut == 1000 && !l->stopper && l->item_errors.load() == 0)
        DSIM_CHECK(n == l->expected, "lost-item", "the sequence completed after %d of %d items", n, l->expected);
      if (a)
        a(p);
      out->signal();
    }
    void set_value() noexcept
    {
      fin(VALUE, 0);
    }
    template <class E>
    void set_error(E&& e) noexcept
    {
      fin(ERROR, int_of(e));
    }
    void set_stopped() noexcept
    {
      fin(STOPPED, 0);
    }
    auto get_env() const noexcept
    {
      return tok_env(tok);
    }
  };

  template <class S>
  struct seq_op
  {
    using Op = exec::subscribe_result_t<S, seq_rcvr>;
    struct box
    {
      Op o;
      box(S&& s, seq_rcvr r)
        : o(exec::subscribe(static_cast<S&&>(s), std::move(r)))
      {}
    };
    outcome out;
    box*    b = nullptr;
    seq_op(S s, ledger& l, ex::inplace_stop_token t, bool self)
    {
      b = new box(static_cast<S&&>(s), seq_rcvr{&out, &l, t, self ? &destroy : nullptr, this});
    }
    seq_op(seq_op&&) = delete;
    static void destroy(void* p)
    {
      auto* me = static_cast<seq_op*>(p);
      delete std::exchange(me->b, nullptr);
    }
    ~seq_op()
    {
      delete b;
    }
    void start()
    {
      ex::start(b->o);
    }
  };

  template <class S>
  int run_seq(S s, ledger& l, bool stopper, int* value = nullptr)
  {
    ex::inplace_stop_source src;
    l.stopper = stopper;
    seq_op<S>               o(std::move(s), l, src.get_token(), coin());
    {
      threads t;
      if (stopper)
        t.go([&] { src.request_stop(); });
      o.start();
      o.out.wait();
    }
    require_once(o.out, "a sequence");
    if (value)
      *value = o.out.value;
    return o.out.kind;
  }
}  // namespace

// every item on the pool
SCENARIO(pool_items, 3)
{
  unsigned                 nt = 1 + pick(3);
  exec::static_thread_pool pool{nt, exec::bwos_params{1 + pick(3), 1 + pick(3)}};
  workers                  w(1);
  ledger                   l;
  l.w        = &w;
  int n      = int(pick(7));
  l.expected = n;
  l.late     = coin();
  int k      = run_seq(exec::schedule_all(pool, std::views::iota(0, n)), l, false);
  DSIM_CHECK(k == VALUE, "wrong-completion", "schedule_all completed with %s", name(k));
  DSIM_CHECK(l.delivered.load() == n && l.offered.load() == n, "lost-item", "%d of %d items delivered", l.delivered.load(), n);
}

// items one after the other
SCENARIO(iter, 2)
{
  workers w(1);
  ledger  l;
  l.w          = &w;
  int n        = int(pick(6));
  l.expected   = n;
  l.sequential = true;
  l.late       = coin();
  if (n && pick(3) == 2)
    l.cut = int(pick(n));
  bool stopper = pick(3) == 2;
  int  k;
  if (coin())
    k = run_seq(exec::iterate(std::views::iota(0, n)), l, stopper);
  else
    k = run_seq(exec::iterate(std::views::iota(0, n)) | exec::transform_each(ex::then([](int i) noexcept { return i; })), l, stopper);
  int want = l.cut == 1000 ? n : l.cut + 1;
  if (!stopper)
  {
    DSIM_CHECK(k == VALUE, "wrong-completion", "iterate completed with %s", name(k));
    DSIM_CHECK(l.delivered.load() == want, "lost-item", "%d of %d items delivered", l.delivered.load(), want);
  }
  else
    DSIM_CHECK(k != ERROR, "wrong-completion", "iterate completed with %s", name(k));
}

// sequences running concurrently, merged
SCENARIO(merged, 3)
{
  unsigned                 nt = 1 + pick(2);
  exec::static_thread_pool pool{nt, exec::bwos_params{1 + pick(3), 1 + pick(3)}};
  workers                  w(1);
  ledger                   l;
  l.w        = &w;
  int n = int(pick(4)), m = int(pick(4));
  l.expected   = n + m;
  bool stopper = pick(3) == 2;
  auto a       = exec::iterate(std::views::iota(0, n));
  auto b       = exec::iterate(std::views::iota(n, n + m)) | exec::transform_each(ex::continues_on(pool.get_scheduler()));
  int  k       = run_seq(exec::merge(a, b), l, stopper);
  if (!stopper)
  {
    DSIM_CHECK(k == VALUE, "wrong-completion", "merge completed with %s", name(k));
    DSIM_CHECK(l.delivered.load() == n + m, "lost-item", "%d of %d items delivered", l.delivered.load(), n + m);
  }
  else
    DSIM_CHECK(k != ERROR, "wrong-completion", "merge completed with %s", name(k));
}

SCENARIO(nested, 3)
{
  unsigned                 nt = 1 + pick(2);
  exec::static_thread_pool pool{nt, exec::bwos_params{1 + pick(3), 1 + pick(3)}};
  workers                  w(1);
  ledger                   l;
  l.w        = &w;
  int outer = int(pick(4)), inner = int(pick(3));
  l.expected   = outer * inner;
  bool stopper = pick(3) == 2;
  auto make    = [inner](int i) noexcept { return exec::iterate(std::views::iota(i * inner, (i + 1) * inner)); };
  int  k;
  if (coin())
    k = run_seq(exec::merge_each(exec::schedule_all(pool, std::views::iota(0, outer)) | exec::transform_each(ex::then(make))), l, stopper);
  else
    k = run_seq(exec::merge_each(exec::iterate(std::views::iota(0, outer)) | exec::transform_each(ex::then(make))), l, stopper);
  if (!stopper)
  {
    DSIM_CHECK(k == VALUE, "wrong-completion", "merge_each completed with %s", name(k));
    DSIM_CHECK(l.delivered.load() == outer * inner, "lost-item", "%d of %d items delivered", l.delivered.load(), outer * inner);
  }
  else
    DSIM_CHECK(k != ERROR, "wrong-completion", "merge_each completed with %s", name(k));
}

// items that fail: ignore_all_values reports a failure of one of them
SCENARIO(collect, 3)
{
  unsigned                 nt = 1 + pick(3);
  exec::static_thread_pool pool{nt, exec::bwos_params{1 + pick(3), 1 + pick(3)}};
  workers                  w(1);
  leaf_log                 log;
  log.many = true;
  int n    = int(pick(6));
  int kinds[8];
  int fails = 0;
  for (int i = 0; i < n; ++i)
  {
    unsigned k = pick(6);
    kinds[i]   = k == 4 ? ERROR : k == 5 ? STOPPED : VALUE;
    fails += kinds[i] != VALUE;
  }
  auto body = [&](int i) noexcept
  {
    return leaf(w, log, leaf_mode(pick(2)), kinds[i], i);
  };
  auto judge = [&](outcome const & o)
  {
    require_once(o, "ignore_all_values");
    if (fails == 0)
      DSIM_CHECK(o.kind == VALUE, "wrong-completion", "no item failed but the whole completed with %s", name(o.kind));
    else
    {
      DSIM_CHECK(o.kind != VALUE, "lost-error", "%d items failed but the whole completed with a value", fails);
      bool ok = false;
      for (int i = 0; i < n; ++i)
        ok |= kinds[i] == o.kind && (o.kind == STOPPED || o.value == i);
      DSIM_CHECK(ok, "wrong-completion", "the whole completed with %s %d, which is what no item did", name(o.kind), o.value);
    }
    DSIM_CHECK(log.started.load() == log.completed.load(), "unstructured", "completed while items are running");
  };
  if (coin())
  {
    auto o = make_op(exec::ignore_all_values(exec::schedule_all(pool, std::views::iota(0, n)) | exec::transform_each(ex::let_value(body))),
                     ex::env<>{}, coin());
    o->out.structured = &log;
    o->start();
    o->wait();
    judge(o->out);
    DSIM_CHECK(log.started.load() == n, "lost-item", "%d of %d items ran", log.started.load(), n);
  }
  else
  {
    auto o = make_op(exec::ignore_all_values(exec::iterate(std::views::iota(0, n)) | exec::transform_each(ex::let_value(body))),
                     ex::env<>{}, coin());
    o->out.structured = &log;
    o->start();
    o->wait();
    judge(o->out);
    // sequential: it is the first failure, and nothing ran after it
    int first = 0;
    while (first < n && kinds[first] == VALUE)
      ++first;
    DSIM_CHECK(log.started.load() == (first < n ? first + 1 : n), "item-after-stop", "%d items ran, the first failure was item %d",
               log.started.load(), first);
    if (first < n)
      DSIM_CHECK(o->out.kind == kinds[first] && (o->out.kind == STOPPED || o->out.value == first), "wrong-completion",
                 "the first failure was %s %d, reported %s %d", name(kinds[first]), first, name(o->out.kind), o->out.value);
  }
}

// merge_each with failing items: the first error is delivered as an item, everything else winds down
SCENARIO(nested_fail, 3)
{
  unsigned                 nt = 1 + pick(2);
  exec::static_thread_pool pool{nt, exec::bwos_params{1 + pick(3), 1 + pick(3)}};
  workers                  w(1);
  ledger                   l;
  leaf_log                 inner_log;
  inner_log.many = true;
  l.w            = &w;
  int outer = 1 + int(pick(3)), inner = 1 + int(pick(2));
  l.expected = 0;
  l.stopper  = true;
  int bad    = int(pick(outer * inner));
  int kind   = coin() ? ERROR : STOPPED;
  auto body  = [&](int i) noexcept { return leaf(w, inner_log, leaf_mode(pick(2)), i == bad ? kind : VALUE, i) | ex::then([](token t) noexcept { return t.id; }); };
  auto make  = [inner, body](int i) noexcept
  {
    return exec::iterate(std::views::iota(i * inner, (i + 1) * inner)) | exec::transform_each(ex::let_value(body));
  };
  int k;
  if (coin())
    k = run_seq(exec::merge_each(exec::schedule_all(pool, std::views::iota(0, outer)) | exec::transform_each(ex::then(make))), l, false);
  else
    k = run_seq(exec::merge_each(exec::iterate(std::views::iota(0, outer)) | exec::transform_each(ex::then(make))), l, false);
  DSIM_CHECK(inner_log.started.load() == inner_log.completed.load(), "unstructured", "completed while items are running");
  if (kind == ERROR && inner_log.started.load() == outer * inner)
    DSIM_CHECK(l.item_errors.load() == 1, "lost-error", "an item failed but %d errors were delivered", l.item_errors.load());
  DSIM_CHECK(l.item_errors.load() <= 1, "duplicate-error", "%d errors were delivered", l.item_errors.load());
}

// ---------------------------------------------------------------------------------------------
// sequences made here: any number of items, one at a time or all at once, items that complete in
// any way, and any way of ending
namespace c18
{
  // items own what they send, so it is gone once the item's operation is
  struct send_own
  {
    static constexpr bool by_ref = true;
    using value_sig              = set_value_t(touchy&);
    using error_sig              = set_error_t(touchy_error);
    std::optional<touchy>       v;
    std::optional<touchy_error> e;
    template <class R>
    void value(R&& r, int val, bool throws)
    {
      ex::set_value(std::move(r), v.emplace(val, throws));
    }
    template <class R>
    void error(R&& r, int val, bool throws)
    {
      ex::set_error(std::move(r), std::move(e.emplace(val, throws)));
    }
  };
  using item_t = risky_sender<leaf_sender<true, true, send_own>>;

  struct book
  {
    std::atomic<int> running{0};  // sequences started and not over
    std::atomic<int> items{0};    // item operations started and not over
    std::atomic<int> errors{0};   // sequences that ended with an error, items that failed
  };

  template <class Item>
  struct plan
  {
    int                       n        = 0;
    bool                      parallel = false;
    int                       end      = VALUE;
    bool                      remote   = false;  // ends on another thread
    int                       id       = 0;
    workers*                  w        = nullptr;
    book*                     b        = nullptr;
    std::function<Item(int)>  make;
    // written by the sequence
    int offered = 0, ended = -1, value = 0, subscribed = 0;
    std::atomic<int> cut{0};
  };

  template <class Item, class R>
  struct src_op : job
  {
    struct next_rcvr
    {
      using receiver_concept = ex::receiver_tag;
      src_op* self;
      int     i;
      void    set_value() noexcept
      {
        self->done(i, false);
      }
      void set_stopped() noexcept
      {
        self->done(i, true);
      }
      auto get_env() const noexcept -> ex::env_of_t<R>
      {
        return ex::get_env(self->r);
      }
    };
    using next_t = exec::next_sender_of_t<R, Item>;
    using op_t   = ex::connect_result_t<next_t, next_rcvr>;
    struct box
    {
      op_t o;
      box(src_op* s, int i)
        : o(ex::connect(exec::set_next(s->r, s->p->make(i)), next_rcvr{s, i}))
      {}
    };

    plan<Item>*           p;
    R                     r;
    std::unique_ptr<box>  boxes[8];
    int                   at = 0;
    std::atomic<int>      left{0};
    int                   ending = VALUE;
    std::exception_ptr    ep;
    int                   state = 0;

    src_op(plan<Item>* p_, R r_)
      : p(p_)
      , r(std::move(r_))
    {
      ++p->subscribed;
    }
    src_op(src_op&&) = delete;
    ~src_op()
    {
      if (state == 1)
        dsim_fail("destroyed-while-pending", "a sequence was destroyed before it was over");
    }
    bool launch(int i)
    {
      ++p->offered;
      try
      {
        boxes[i] = std::make_unique<box>(this, i);
      }
      catch (...)
      {
        ep = std::current_exception();
        return false;
      }
      p->b->items.fetch_add(1, std::memory_order_relaxed);
      ex::start(boxes[i]->o);
      return true;
    }
    void start() & noexcept
    {
      state = 1;
      p->b->running.fetch_add(1, std::memory_order_relaxed);
      if (!p->parallel)
        return step();
      left.store(p->n + 1, std::memory_order_relaxed);
      ending = p->end;
      int i  = 0;
      for (; i < p->n; ++i)
        if (!launch(i))
          break;
      if (i < p->n)
        ending = 10;
      int missing = p->n - i;
      if (left.fetch_sub(1 + missing, std::memory_order_acq_rel) == 1 + missing)
        finish();
    }
    void step() noexcept
    {
      if (ex::get_stop_token(ex::get_env(r)).stop_requested())
      {
        ending = STOPPED;
        return finish();
      }
      if (at == p->n)
      {
        ending = p->end;
        return finish();
      }
      if (!launch(at))
      {
        ending = 10;
        finish();
      }
    }
    void done(int i, bool stopped) noexcept
    {
      // an item's operation may go with its completion
      boxes[i].reset();
      p->b->items.fetch_sub(1, std::memory_order_relaxed);
      if (stopped)
        p->cut.fetch_add(1, std::memory_order_relaxed);
      if (p->parallel)
      {
        if (left.fetch_sub(1, std::memory_order_acq_rel) == 1)
          finish();
        return;
      }
      at = i + 1;
      if (stopped)
      {
        // told to stop
        ending = VALUE;
        return finish();
      }
      step();
    }
    void finish() noexcept
    {
      if (p->remote)
      {
        run = [](job* j) { static_cast<src_op*>(j)->over(); };
        p->w->post(this);
      }
      else
        over();
    }
    void over() noexcept
    {
      state    = 2;
      int k    = ending;
      p->ended = k == 10 ? ERROR : k;
      p->value = p->id;
      if (k == ERROR || k == 10)
        p->b->errors.fetch_add(1, std::memory_order_relaxed);
      p->b->running.fetch_sub(1, std::memory_order_relaxed);
      if (k == VALUE)
        ex::set_value(std::move(r));
      else if (k == STOPPED)
        ex::set_stopped(std::move(r));
      else if (k == ERROR)
        ex::set_error(std::move(r), std::make_exception_ptr(my_error{p->id}));
      else
      {
        p->value = int_of(ep);
        ex::set_error(std::move(r), std::move(ep));
      }
    }
  };

  template <class Item>
  struct src
  {
    using sender_concept = exec::sequence_sender_tag;
    using item_types     = exec::item_types<Item>;
    using completion_signatures =
      ex::completion_signatures<set_value_t(), set_error_t(std::exception_ptr), set_stopped_t()>;
    plan<Item>* p;
    template <class R>
    auto subscribe(R r) const -> src_op<Item, R>
    {
      return {p, std::move(r)};
    }
  };

  inline int code_of(int i)
  {
    return i;
  }
  inline int code_of(touchy const & t)
  {
    return int_of(t);
  }

  // the consumer: counts the items, does something with each, may say stop
  struct shelf
  {
    book             b;
    leaf_log         items;     // the items
    leaf_log         handling;  // what the consumer does with them
    workers*         w = nullptr;
    std::atomic<int> seen[MAXI] = {};
    std::atomic<int> delivered{0}, errors{0}, stops{0};
    std::atomic<int> error_code{0};
    int              cut = 1000;
    int              plain[MAXI] = {};  // a missing happens-before is reported as a data race
    shelf()
    {
      items.many = handling.many = true;
    }
  };

  template <bool Stoppable>
  struct con_rcvr
  {
    using receiver_concept = ex::receiver_tag;
    outcome*               o;
    shelf*                 s;
    ex::inplace_stop_token tok;
    void (*after)(void*) = nullptr;
    void* arg            = nullptr;

    template <class Item>
    auto set_next(Item&& item) noexcept
    {
      shelf* sh = s;
      return static_cast<Item&&>(item)
           | ex::then(
               [sh](auto&& x) noexcept
               {
                 int i = code_of(x);
                 DSIM_CHECK(i >= 0 && i < MAXI, "wrong-item", "an item carried %d", i);
                 if (sh->seen[i].fetch_add(1, std::memory_order_relaxed))
                   dsim_fail("duplicate-item", "item %d was delivered twice", i);
                 sh->delivered.fetch_add(1, std::memory_order_relaxed);
                 return i;
               })
           | ex::upon_error(
               [sh](auto&& e) noexcept
               {
                 sh->error_code.store(int_of(e), std::memory_order_relaxed);
                 sh->errors.fetch_add(1, std::memory_order_relaxed);
                 return -1;
               })
           | ex::upon_stopped(
               [sh]() noexcept
               {
                 sh->stops.fetch_add(1, std::memory_order_relaxed);
                 return -2;
               })
           | ex::let_value(
               [sh](int& i) noexcept
               {
                 bool stop = i == -2 || i == sh->cut;
                 return leaf_sender<false, true>{sh->w, &sh->handling, leaf_mode(pick(2)), stop ? STOPPED : VALUE, i}
                      | ex::then(
                          [sh, &i](token t) noexcept
                          {
                            DSIM_CHECK(t.intact(i), "wrong-value", "value of item %d damaged", i);
                            if (i >= 0)
                              sh->plain[i]++;
                          });
               })
           | ex::upon_error([](auto&&) noexcept { dsim_fail("unexpected-error", "handling an item failed"); });
    }
    void fin(int k, int v) noexcept
    {
      outcome* out = o;
      auto     a   = after;
      auto     p   = arg;
      if (int n = s->b.running.load(std::memory_order_relaxed))
        dsim_fail("unstructured", "the whole completed while %d of its sequences were still running", n);
      if (int n = s->b.items.load(std::memory_order_relaxed))
        dsim_fail("unstructured", "the whole completed while %d item operations were still running", n);
      int sum = 0;
      for (int x: s->plain)
        sum += x;
      if (sum > s->delivered.load(std::memory_order_relaxed))
        dsim_fail("wrong-item", "more items were handled than delivered");
      out->complete(k, v);
      if (a)
        a(p);
      out->signal();
    }
    void set_value() noexcept
    {
      fin(VALUE, 0);
    }
    void set_error(std::exception_ptr e) noexcept
    {
      fin(ERROR, int_of(e));
    }
    template <class E>
    void set_error(E&& e) noexcept
    {
      fin(ERROR, int_of(e));
    }
    void set_stopped() noexcept
    {
      fin(STOPPED, 0);
    }
    auto get_env() const noexcept
    {
      if constexpr (Stoppable)
        return tok_env(tok);
      else
        return ex::env<>{};
    }
  };

  template <class S, bool Stoppable>
  struct con_op
  {
    using Op = exec::subscribe_result_t<S, con_rcvr<Stoppable>>;
    struct box
    {
      Op o;
      box(S&& s, con_rcvr<Stoppable> r)
        : o(exec::subscribe(static_cast<S&&>(s), std::move(r)))
      {}
    };
    outcome out;
    box*    b = nullptr;
    con_op(S s, shelf& l, ex::inplace_stop_token t, bool self)
    {
      b = new box(static_cast<S&&>(s), con_rcvr<Stoppable>{&out, &l, t, self ? &destroy : nullptr, this});
    }
    con_op(con_op&&) = delete;
    static void destroy(void* p)
    {
      auto* me = static_cast<con_op*>(p);
      delete std::exchange(me->b, nullptr);
    }
    ~con_op()
    {
      delete b;
    }
  };

  struct result
  {
    int kind, value;
  };
  template <bool Stoppable, class S>
  result consume_as(S s, shelf& l, bool stopper)
  {
    ex::inplace_stop_source src;
    con_op<S, Stoppable>    o(std::move(s), l, src.get_token(), coin());
    {
      threads t;
      if (stopper)
        t.go([&] { src.request_stop(); });
      ex::start(o.b->o);
      o.out.wait();
    }
    require_once(o.out, "a sequence");
    return {o.out.kind, o.out.value};
  }
  template <class S>
  result consume(S s, shelf& l, bool stopper)
  {
    if (!stopper && coin())
      return consume_as<false>(std::move(s), l, false);
    return consume_as<true>(std::move(s), l, stopper);
  }

  inline int any_end()
  {
    unsigned k = pick(6);
    return k == 4 ? ERROR : k == 5 ? STOPPED : VALUE;
  }

  // one leaf sequence whose items are leafs
  struct leaves : plan<item_t>
  {
    int       kinds[8];
    bool      throws[8], connect_throws[8];
    leaf_mode modes[8];
    shelf*    s     = nullptr;
    int       base  = 0;
    void      setup(shelf& sh, workers& wk, int base_, int count, bool clean, bool hang)
    {
      s        = &sh;
      base     = base_;
      n        = count;
      w        = &wk;
      b        = &sh.b;
      id       = 500 + base;
      parallel = coin();
      remote   = coin();
      end      = clean ? VALUE : any_end();
      for (int i = 0; i < n; ++i)
      {
        unsigned k        = clean ? 0 : pick(7);
        kinds[i]          = k == 4 ? ERROR : k == 5 ? STOPPED : VALUE;
        throws[i]         = !clean && pick(4) == 3;
        connect_throws[i] = !clean && k == 6;
        modes[i]          = leaf_mode(pick(hang ? 4 : 2));
      }
      make = [this](int i)
      {
        return item_t{{w, &s->items, modes[i], kinds[i], base + i, throws[i]}, 700 + base + i, connect_throws[i]};
      };
    }
    // what becomes of the items if nobody else interferes: delivered and failed ones
    struct fate
    {
      int delivered = 0, failed = 0, stopped = 0, ran = 0;
      int first_bad = -1;
    };
    bool fails(int i, bool copied) const
    {
      return kinds[i] == ERROR || (kinds[i] == VALUE && copied && throws[i]);
    }
    fate predict(bool copied, int cut) const
    {
      fate f;
      for (int i = 0; i < n && !connect_throws[i]; ++i)
      {
        ++f.ran;
        bool over = false;
        if (fails(i, copied))
          ++f.failed;
        else if (kinds[i] == STOPPED)
        {
          ++f.stopped;
          over = true;
        }
        else
        {
          ++f.delivered;
          over = base + i == cut;
        }
        if (f.first_bad < 0 && (kinds[i] != VALUE || fails(i, copied)))
          f.first_bad = i;
        if (over && !parallel)
          break;
      }
      return f;
    }
  };
}  // namespace c18

// a sequence through transform_each (or type-erased): every item once, and its own end
SCENARIO(plain, 3)
{
  using namespace c18;
  workers w(2);
  shelf   s;
  s.w = &w;
  leaves p;
  bool   stopper = pick(3) == 2;
  p.setup(s, w, 0, int(pick(5)), false, stopper);
  if (pick(3) == 2 && p.n)
    s.cut = int(pick(p.n));
  result   r{};
  unsigned how = pick(3);
  auto     pass = ex::then([](touchy& t) noexcept -> touchy& { return t; });
  if (how == 0)
    r = consume(src<item_t>{&p}, s, stopper);
  else if (how == 1)
    r = consume(src<item_t>{&p} | exec::transform_each(pass), s, stopper);
  else
    r = consume(src<item_t>{&p} | exec::transform_each(pass) | exec::transform_each(ex::let_value([](touchy& t) noexcept { return ex::just(int_of(t)); })), s,
                stopper);
  DSIM_CHECK(r.kind == p.ended, "wrong-completion", "the sequence ended with %s, the consumer got %s", name(p.ended), name(r.kind));
  if (r.kind == ERROR)
    DSIM_CHECK(r.value == p.value, "wrong-error", "error %d became %d", p.value, r.value);
  if (!stopper)
  {
    auto f = p.predict(how == 2, s.cut);
    DSIM_CHECK(s.delivered == f.delivered && s.errors == f.failed && s.stops == f.stopped, "lost-item",
               "%d items, %d errors and %d stops delivered instead of %d, %d and %d", s.delivered.load(), s.errors.load(), s.stops.load(),
               f.delivered, f.failed, f.stopped);
  }
}

// the same behind a type-erased sequence
SCENARIO(erased, 2)
{
  using namespace c18;
  using sigs  = ex::completion_signatures<set_value_t(touchy&), set_error_t(touchy_error), set_error_t(std::exception_ptr), set_stopped_t()>;
  using any_t = exec::any_sequence_receiver_ref<sigs>::any_sender<>;
  workers w(2);
  shelf   s;
  s.w = &w;
  leaves p;
  // (it hides the consumer's stop token)
  p.setup(s, w, 0, int(pick(5)), false, false);
  if (pick(3) == 2 && p.n)
    s.cut = int(pick(p.n));
  any_t  a(src<item_t>{&p});
  any_t  c(std::move(a));
  result r = consume(std::move(c), s, false);
  DSIM_CHECK(r.kind == p.ended, "wrong-completion", "the sequence ended with %s, the consumer got %s", name(p.ended), name(r.kind));
  if (r.kind == ERROR)
    DSIM_CHECK(r.value == p.value, "wrong-error", "error %d became %d", p.value, r.value);
  {
    auto f = p.predict(false, s.cut);
    DSIM_CHECK(s.delivered == f.delivered && s.errors == f.failed && s.stops == f.stopped, "lost-item",
               "%d items, %d errors and %d stops delivered instead of %d, %d and %d", s.delivered.load(), s.errors.load(), s.stops.load(),
               f.delivered, f.failed, f.stopped);
  }
}

// ignore_all_values over such a sequence
SCENARIO(gather, 3)
{
  using namespace c18;
  workers w(2);
  shelf   s;
  s.w = &w;
  leaves p;
  p.setup(s, w, 0, int(pick(5)), pick(3) == 0, false);
  auto o = make_op(exec::ignore_all_values(src<item_t>{&p}), ex::env<>{}, coin());
  o->out.structured = &s.items;
  o->start();
  o->wait();
  require_once(o->out, "ignore_all_values");
  auto& r = o->out;
  DSIM_CHECK(s.b.running.load() == 0 && s.b.items.load() == 0, "unstructured", "completed while something is running");
  int  f = -1;
  bool known = r.kind == p.ended && (r.kind != ERROR || r.value == p.value);
  for (int i = 0; i < p.n && !p.connect_throws[i]; ++i)
  {
    // copying the error may throw another one
    bool bad = p.kinds[i] != VALUE;
    if (bad && f < 0)
      f = i;
    if (bad)
    {
      known |= r.kind == p.kinds[i] && (r.kind == STOPPED || r.value == i);
      if (!p.parallel)
        break;
    }
  }
  DSIM_CHECK(known, "wrong-completion", "the whole completed with %s %d, which is nobody's outcome", name(r.kind), r.value);
  if (f < 0)
    DSIM_CHECK(r.kind == p.ended, "wrong-completion", "no item failed, the sequence ended with %s, the whole with %s", name(p.ended), name(r.kind));
  else
    DSIM_CHECK(r.kind != VALUE, "lost-error", "item %d did not succeed but the whole completed with a value", f);
  if (!p.parallel && f >= 0)
    DSIM_CHECK(s.items.started.load() == f + 1, "item-after-stop", "%d items ran, the first failure was item %d", s.items.started.load(), f);
}

// several such sequences merged
SCENARIO(merged_any, 3)
{
  using namespace c18;
  workers w(2);
  shelf   s;
  s.w = &w;
  leaves p[3];
  bool   stopper = pick(3) == 2;
  int    k       = 1 + int(pick(3));
  for (int i = 0; i < k; ++i)
    p[i].setup(s, w, 10 * i, int(pick(4)), pick(3) == 0, stopper);
  if (pick(4) == 3 && p[0].n)
    s.cut = int(pick(p[0].n));
  result r{};
  if (k == 1)
    r = consume(exec::merge(src<item_t>{&p[0]}), s, stopper);
  else if (k == 2)
    r = consume(exec::merge(src<item_t>{&p[0]}, src<item_t>{&p[1]}), s, stopper);
  else
    r = consume(exec::merge(src<item_t>{&p[0]}, src<item_t>{&p[1]}, src<item_t>{&p[2]}), s, stopper);
  bool all = true, err = false, cut = false, known = false;
  for (int i = 0; i < k; ++i)
  {
    DSIM_CHECK(p[i].ended >= 0, "unstructured", "one of the merged sequences is not over");
    all &= p[i].ended == VALUE;
    err |= p[i].ended == ERROR;
    known |= p[i].ended == ERROR && r.value == p[i].value;
    cut |= p[i].cut.load() > 0;
  }
  if (all && !cut && !stopper)
    DSIM_CHECK(r.kind == VALUE, "wrong-completion", "all sequences ended well, the whole with %s", name(r.kind));
  if (r.kind == VALUE)
    DSIM_CHECK(all, "lost-error", "a sequence did not end well but the whole did");
  if (err)
    DSIM_CHECK(r.kind == ERROR, "lost-error", "a sequence ended with an error, the whole with %s", name(r.kind));
  if (r.kind == ERROR)
    DSIM_CHECK(err && known, "wrong-error", "the whole reports error %d which no sequence ended with", r.value);
  if (all && !cut && !stopper)
  {
    int d = 0, e = 0;
    for (int i = 0; i < k; ++i)
    {
      auto f = p[i].predict(false, s.cut);
      d += f.delivered;
      e += f.failed;
    }
    DSIM_CHECK(s.delivered == d && s.errors == e, "lost-item", "%d items and %d errors delivered instead of %d and %d", s.delivered.load(),
               s.errors.load(), d, e);
  }
}

// a sequence of such sequences, flattened
namespace c18
{
  struct send_seq
  {
    static constexpr bool by_ref = false;
    using value_sig              = set_value_t(src<item_t>);
    using error_sig              = set_error_t(touchy_error);
    std::optional<touchy_error> e;
    template <class R>
    void value(R&& r, int val, bool)
    {
      ex::set_value(std::move(r), src<item_t>{reinterpret_cast<plan<item_t>*>(table[val])});
    }
    template <class R>
    void error(R&& r, int val, bool throws)
    {
      ex::set_error(std::move(r), std::move(e.emplace(val, throws)));
    }
    static inline void*            table[8];
  };
  using outer_item_t = risky_sender<leaf_sender<true, true, send_seq>>;
}  // namespace c18

SCENARIO(flattened, 4)
{
  using namespace c18;
  workers w(2);
  shelf   s;
  s.w = &w;
  leaves             p[3];
  plan<outer_item_t> q;
  bool               stopper = pick(3) == 2;
  bool               clean   = pick(4) == 0;
  q.n                        = int(pick(4));
  q.parallel                 = coin();
  q.remote                   = coin();
  q.w                        = &w;
  q.b                        = &s.b;
  q.id                       = 900;
  q.end                      = clean ? VALUE : any_end();
  int       kinds[4];
  bool      connect_throws[4];
  leaf_mode modes[4];
  leaf_log  outer;
  outer.many = true;
  for (int i = 0; i < q.n; ++i)
  {
    p[i].setup(s, w, 10 * i, int(pick(3)), clean || coin(), stopper);
    send_seq::table[i] = static_cast<plan<item_t>*>(&p[i]);
    unsigned k         = clean ? 0 : pick(9);
    kinds[i]           = k == 6 ? ERROR : k == 7 ? STOPPED : VALUE;
    connect_throws[i]  = k == 8;
    modes[i]           = leaf_mode(pick(stopper ? 4 : 2));
  }
  q.make = [&](int i) { return outer_item_t{{&w, &outer, modes[i], kinds[i], i, false}, 800 + i, connect_throws[i]}; };
  // something that fails for sure asks everything else to stop
  bool sure = false;
  if (!stopper && q.parallel && q.n >= 2 && kinds[0] == VALUE && kinds[1] == VALUE && !connect_throws[0] && !connect_throws[1] && p[1].n > 0
      && p[1].kinds[0] == ERROR && !p[1].connect_throws[0] && p[0].n > 0 && !p[0].connect_throws[0] && coin())
  {
    sure          = true;
    p[0].modes[0] = L_HANG;
    p[0].kinds[0] = VALUE;
  }
  result r{};
  r = consume(exec::merge_each(src<outer_item_t>{&q}), s, stopper);
  DSIM_CHECK(s.b.running.load() == 0 && s.b.items.load() == 0 && outer.started.load() == outer.completed.load(), "unstructured",
             "completed while something is running");
  if (q.subscribed && q.ended < 0)
    DSIM_CHECK(r.kind == STOPPED && stopper, "lost-item", "the sequence of sequences was never started");
  // errors of the items, of the nested sequences, of the items that bring the sequences
  int nested_errors = 0;
  bool code_known   = false;
  auto note         = [&](int code)
  {
    ++nested_errors;
    code_known |= s.error_code.load() == code;
  };
  for (int i = 0; i < q.n; ++i)
  {
    if (p[i].ended == ERROR)
      note(p[i].value);
    if (kinds[i] == ERROR && !connect_throws[i] && i < q.offered)
      note(i);
    for (int j = 0; j < p[i].n && j < p[i].offered; ++j)
      if (p[i].kinds[j] == ERROR && !p[i].connect_throws[j])
        note(10 * i + j);
  }
  if (!stopper)
  {
    if (q.ended == ERROR)
      DSIM_CHECK((r.kind == ERROR && r.value == q.value && s.errors.load() == 0) || (nested_errors && s.errors.load() == 1), "lost-error",
                 "the outer sequence failed with %d, the whole ended with %s %d", q.value, name(r.kind), r.value);
    else
    {
      DSIM_CHECK(s.errors.load() == (nested_errors ? 1 : 0), "lost-error", "%d errors happened, %d were delivered", nested_errors,
                 s.errors.load());
      if (nested_errors == 0)
        DSIM_CHECK(r.kind == q.ended, "wrong-completion", "no errors, the outer sequence ended with %s, the whole with %s", name(q.ended),
                   name(r.kind));
      else
        DSIM_CHECK(r.kind == VALUE, "wrong-completion", "the error was delivered as an item but the whole ended with %s", name(r.kind));
    }
  }
  DSIM_CHECK(s.errors.load() <= 1, "duplicate-error", "%d errors were delivered", s.errors.load());
  if (s.errors.load())
    DSIM_CHECK(code_known, "wrong-error", "error %d was delivered, which nobody reported", s.error_code.load());
  if (!stopper && nested_errors == 0 && q.ended == VALUE)
  {
    int d = 0;
    for (int i = 0; i < q.n; ++i)
      if (p[i].subscribed)
        d += p[i].predict(false, s.cut).delivered;
    DSIM_CHECK(s.delivered.load() == d, "lost-item", "%d items delivered instead of %d", s.delivered.load(), d);
  }
  (void) sure;
}
