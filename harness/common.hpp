// Shared harness pieces: recording receivers, heap-allocated operations, latches.
#pragma once
#include "dsim.h"

#include <stdexec/execution.hpp>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <tuple>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

namespace ex = stdexec;

namespace h
{
  using ex::set_value_t;
  using ex::set_error_t;
  using ex::set_stopped_t;

  enum kind : int
  {
    NONE    = 0,
    VALUE   = 1,
    ERROR   = 2,
    STOPPED = 3
  };
  inline char const * name(int k)
  {
    char const * n[] = {"nothing", "value", "error", "stopped"};
    return n[k & 3];
  }

  inline unsigned pick(unsigned n)
  {
    return dsim_choose(n);
  }
  inline bool coin()
  {
    return dsim_choose(2) != 0;
  }

  // number of live counted objects of a run, to detect leaked or doubly destroyed values
  struct live
  {
    static inline std::atomic<long> objects{0};
  };

  // A payload with value semantics that notices use after move/destruction and carries heap state.
  struct token
  {
    int                  id;
    std::unique_ptr<int> heap;
    unsigned             magic = 0x600df00d;
    explicit token(int i = 0)
      : id(i)
      , heap(new int(i))
    {}
    token(token&& o) noexcept
      : id(o.id)
      , heap(std::move(o.heap))
    {
      o.check_live();
    }
    token(token const & o)
      : id(o.id)
      , heap(o.heap ? new int(*o.heap) : nullptr)
    {
      o.check_live();
    }
    token& operator=(token&& o) noexcept
    {
      check_live();
      o.check_live();
      id   = o.id;
      heap = std::move(o.heap);
      return *this;
    }
    token& operator=(token const & o)
    {
      check_live();
      o.check_live();
      id = o.id;
      heap.reset(o.heap ? new int(*o.heap) : nullptr);
      return *this;
    }
    ~token()
    {
      check_live();
      magic = 0xdeadbeef;
    }
    void check_live() const
    {
      if (magic != 0x600df00d)
        dsim_fail("dead-object", "a value object is used or destroyed after its destruction");
    }
    bool intact(int want) const
    {
      return magic == 0x600df00d && id == want && heap && *heap == want;
    }
  };

  struct my_error
  {
    int code;
  };

  // what the leaf operations of one run did
  struct leaf_log
  {
    std::atomic<int> connected{0}, started{0}, completed{0}, destroyed{0};
    std::atomic<int> running{0};
    std::atomic<int> stop_seen{0};
    std::atomic<int> alive{0};  // started and not yet destroyed
    int              last    = NONE;   // how the (single) leaf using this log completed; plain on purpose
    bool             by_stop = false;  // ... because stop was requested
    leaf_log*        up      = nullptr;  // enclosing log
    // only when 'track' is set (the log then has to outlive the workers): when the completion
    // call began and returned
    bool                  track = false;
    bool                  many  = false;  // used by several leaves: 'last' and the like are not kept
    uint64_t              begin = 0;
    std::atomic<uint64_t> end{~0ull};
    void start()
    {
      running.fetch_add(1, std::memory_order_relaxed);
      started.fetch_add(1, std::memory_order_relaxed);
      if (up)
        up->start();
    }
    void born()
    {
      alive.fetch_add(1, std::memory_order_relaxed);
      if (up)
        up->born();
    }
    void dead()
    {
      alive.fetch_sub(1, std::memory_order_relaxed);
      if (up)
        up->dead();
    }
    void finish()
    {
      running.fetch_sub(1, std::memory_order_release);
      completed.fetch_add(1, std::memory_order_release);
      if (up)
        up->finish();
    }
  };

  // Outcome of one operation. All writes are plain on purpose: delivering two completions
  // concurrently is then a data race the simulator reports, besides the count check.
  struct outcome
  {
    int      kind  = NONE;
    int      count = 0;
    int      value = 0;      // integral payload, when there is one
    int      tid   = -1;     // simulated thread that completed it
    uint64_t seq   = 0;
    uint64_t at    = 0;      // virtual time
    int      done = 0;  // latch
    // when set: at completion time no operation counted there may still be running
    leaf_log const * structured = nullptr;

    // when set: at completion time no operation counted there may still exist
    leaf_log const * gone = nullptr;

    void complete(int k, int v)
    {
      if (count++ != 0)
        dsim_fail("double-completion", "operation completed with %s after it already completed with %s", name(k), name(kind));
      if (structured && structured->running.load(std::memory_order_acquire) != 0)
        dsim_fail("unstructured", "the operation completed while %d of its child operations were still running",
                  structured->running.load());
      if (gone && gone->alive.load(std::memory_order_relaxed) != 0)
        dsim_fail("unstructured", "completed while %d operations it has to outlive still exist", gone->alive.load());
      kind  = k;
      value = v;
      tid   = dsim_tid();
      seq   = dsim_seq();
      at    = dsim_now();
      dsim_event("complete", k, v);
    }
    void signal()
    {
      dsim_latch_set(&done);
    }
    void wait()
    {
      dsim_latch_wait(&done);
    }
    bool ready() const
    {
      return dsim_latch_ready(&done) != 0;
    }
  };

  inline int int_of(int v)
  {
    return v;
  }
  inline int int_of(my_error const & e)
  {
    return e.code;
  }
  inline int int_of(token const & t)
  {
    if (!t.intact(t.id))
      dsim_fail("payload-corrupt", "a value arrived damaged (moved-from, freed or overwritten)");
    return t.id;
  }
  // reads exceptions of types only one harness knows; called inside a catch block
  inline int (*other_exception)() = nullptr;
  inline int int_of(std::exception_ptr const & p)
  {
    try
    {
      std::rethrow_exception(p);
    }
    catch (my_error const & e)
    {
      return e.code;
    }
    catch (int i)
    {
      return i;
    }
    catch (std::bad_alloc const &)
    {
      return -12;
    }
    catch (...)
    {
      return other_exception ? other_exception() : -99;
    }
  }
  template <class T>
  int int_of(T const &)
  {
    return -1;
  }
  inline int sum_of()
  {
    return 0;
  }
  template <class T, class... Ts>
  int sum_of(T const & t, Ts const &... ts)
  {
    return int_of(t) + sum_of(ts...);
  }

  // Moves with its owner and must be destroyed exactly once: an owner that is leaked, destroyed
  // twice or used after it was moved from is noticed.
  struct anchor
  {
    int* p;
    anchor()
    {
      int was = dsim_alloc_faults_thread(0);
      p       = new int(7);
      dsim_alloc_faults_thread(was);
    }
    anchor(anchor&& o) noexcept
      : p(std::exchange(o.p, nullptr))
    {}
    anchor& operator=(anchor&& o) noexcept
    {
      std::swap(p, o.p);
      return *this;
    }
    ~anchor()
    {
      delete p;
    }
    void check(char const * what) const
    {
      if (!p || *p != 7)
        dsim_fail("dead-object", "a %s is used although it was moved from", what);
    }
  };

  // Is Tag(Args...), up to references, one of the completions a sender advertised?
  template <class Sig>
  struct bare_sig;
  template <class Tag, class... As>
  struct bare_sig<Tag(As...)>
  {
    using type = Tag(std::decay_t<As>...);
  };
  template <class Sigs, class Sig>
  constexpr bool advertised = true;
  template <class... Ss, class Sig>
  constexpr bool advertised<ex::completion_signatures<Ss...>, Sig> =
    (std::is_same_v<typename bare_sig<Ss>::type, typename bare_sig<Sig>::type> || ...);
  template <class S, class Env>
  struct sigs_of
  {
    using type = void;
  };
  template <class S, class Env>
    requires requires { typename ex::completion_signatures_of_t<S, Env>; }
  struct sigs_of<S, Env>
  {
    using type = ex::completion_signatures_of_t<S, Env>;
  };

  // Sigs: what the sender said it would complete with
  template <class Env = ex::env<>, class Sigs = void>
  struct rcvr
  {
    using receiver_concept = ex::receiver_tag;
    outcome* o;
    Env      e;
    void (*after)(void*) = nullptr;  // e.g. destroys the operation state inside the completion
    void* arg            = nullptr;
    anchor keep{};

    void fin(int k, int v) noexcept
    {
      keep.check("receiver");
      outcome* out = o;
      auto     a   = after;
      auto     p   = arg;
      out->complete(k, v);
      if (a)
        a(p);
      out->signal();
    }
    template <class... Ts>
    void set_value(Ts&&... ts) noexcept
    {
      if constexpr (!advertised<Sigs, ex::set_value_t(Ts...)>)
        dsim_fail("unadvertised", "completes with values it did not advertise");
      int v = sum_of(ts...);
      {
        // take ownership of what was sent, as a consumer would
        std::tuple<std::decay_t<Ts>...> own{static_cast<Ts&&>(ts)...};
        (void) own;
      }
      fin(VALUE, v);
    }
    template <class E>
    void set_error(E&& err) noexcept
    {
      if constexpr (!advertised<Sigs, ex::set_error_t(E)>)
        dsim_fail("unadvertised", "completes with an error it did not advertise");
      fin(ERROR, int_of(err));
    }
    void set_stopped() noexcept
    {
      if constexpr (!advertised<Sigs, ex::set_stopped_t()>)
        dsim_fail("unadvertised", "completes with stopped, which it did not advertise");
      fin(STOPPED, 0);
    }
    auto get_env() const noexcept -> Env
    {
      return e;
    }
  };

  template <class T>
  auto tok_env(T tok)
  {
    return ex::prop{ex::get_stop_token, tok};
  }

  // An operation state on the simulated heap, either destroyed by its own completion
  // (which the sender protocol allows) or by its owner after the completion was seen.
  template <class S, class Env = ex::env<>>
  struct op
  {
    using R   = rcvr<Env, typename sigs_of<S, ex::env_of_t<rcvr<Env>>>::type>;
    using Op  = ex::connect_result_t<S, R>;
    struct box
    {
      Op  o;
      box(S&& s, R r)
        : o(ex::connect(static_cast<S&&>(s), static_cast<R&&>(r)))
      {}
    };
    outcome  out;
    box*     b = nullptr;
    bool     self;
    // called inside the completion, before the operation may be destroyed: e.g. the receiver's
    // side may end the life of the stop source the environment referred to
    void (*on_done)(void*) = nullptr;
    void* on_done_arg      = nullptr;

    op(S s, Env e, bool self_destroy)
      : self(self_destroy)
    {
      R r{&out, static_cast<Env&&>(e), &done, this};
      b = new box(static_cast<S&&>(s), static_cast<R&&>(r));
    }
    op(op&&) = delete;
    static void done(void* p)
    {
      op* me = static_cast<op*>(p);
      if (me->on_done)
        me->on_done(me->on_done_arg);
      if (me->self)
        delete std::exchange(me->b, nullptr);
    }
    void start()
    {
      ex::start(b->o);
    }
    // Whoever waited may destroy the operation at once, whatever other threads are still doing
    // with it (the thread that requests stop, say).
    void wait()
    {
      out.wait();
      if (!self && coin())
        delete std::exchange(b, nullptr);
    }
    ~op()
    {
      delete b;
    }
  };
  template <class S, class Env = ex::env<>>
  auto make_op(S s, Env e = {}, bool self_destroy = false)
  {
    return std::unique_ptr<op<S, Env>>(new op<S, Env>(static_cast<S&&>(s), static_cast<Env&&>(e), self_destroy));
  }

  // A stop source of the receiver's side. Nobody but the requester may refer to it once the
  // operation has completed, so where nobody requests stop the completion ends its life.
  struct stop_box
  {
    std::optional<ex::inplace_stop_source> src{std::in_place};
    auto                                   get_token()
    {
      return src->get_token();
    }
    bool request_stop()
    {
      return src->request_stop();
    }
    template <class Op>
    void dies_with(Op& o)
    {
      o.on_done     = [](void* p) { static_cast<stop_box*>(p)->src.reset(); };
      o.on_done_arg = this;
    }
  };

  // threads whose bodies may be run in any interleaving
  struct threads
  {
    std::vector<std::thread> t;
    template <class F>
    void go(F f)
    {
      t.emplace_back(std::move(f));
    }
    void join()
    {
      for (auto& x: t)
        x.join();
      t.clear();
    }
    ~threads()
    {
      join();
    }
  };

  inline void require_once(outcome const & o, char const * what)
  {
    if (o.count != 1)
      dsim_fail(o.count ? "double-completion" : "lost-completion", "%s completed %d times", what, o.count);
  }

  // -------------------------------------------------------------------------
  // Simulated "outside world": worker threads that complete leaf operations.
  struct job
  {
    void (*run)(job*) = nullptr;
    job* next         = nullptr;
  };
  struct workers
  {
    std::mutex               m;
    std::condition_variable  cv;
    job*                     head = nullptr;
    job*                     tail = nullptr;
    bool                     stop = false;
    std::vector<std::thread> ts;

    explicit workers(unsigned n)
    {
      for (unsigned i = 0; i < n; ++i)
        ts.emplace_back([this] { loop(); });
    }
    void loop()
    {
      for (;;)
      {
        job* j = nullptr;
        {
          std::unique_lock l(m);
          while (!head && !stop)
            cv.wait(l);
          if (!head)
            return;
          // any queued job may finish first: the outside world promises no order
          unsigned n = 0;
          for (job* k = head; k; k = k->next)
            ++n;
          unsigned at = pick(n);
          job**    pp = &head;
          while (at--)
            pp = &(*pp)->next;
          j   = *pp;
          *pp = j->next;
        }
        j->run(j);
      }
    }
    void post(job* j)
    {
      std::lock_guard l(m);
      j->next = head;
      head    = j;
      cv.notify_one();
    }
    ~workers()
    {
      {
        std::lock_guard l(m);
        stop = true;
        cv.notify_all();
      }
      for (auto& t: ts)
        t.join();
    }
  };

  enum leaf_mode
  {
    L_INLINE,        // completes inside start()
    L_REMOTE,        // completes on some worker thread, ignores stop requests
    L_REMOTE_STOP,   // completes on a worker, or with stopped when stop is requested first
    L_HANG,          // completes only when stop is requested (needs a stoppable receiver)
    L_NMODES
  };
  // A value (and an error) that arrives by reference and whose copy may throw: who stores it has
  // to cope.  The exception carries 1000 more than the value.
  struct touchy
  {
    token t;
    bool  throws = false;
    explicit touchy(int i, bool th)
      : t(i)
      , throws(th)
    {}
    touchy(touchy&&) noexcept = default;
    touchy(touchy const & o)
      : t(o.throws ? throw my_error{1000 + o.t.id} : o.t)
    {
      // time passes while something is copied
      std::this_thread::yield();
    }
    touchy& operator=(touchy&&) noexcept = default;
  };
  inline int int_of(touchy const & t)
  {
    return int_of(t.t);
  }
  struct touchy_error : touchy
  {
    using touchy::touchy;
  };
  inline int int_of(touchy_error const & t)
  {
    return int_of(t.t);
  }

  // what a leaf sends
  struct send_token
  {
    static constexpr bool by_ref = false;
    using value_sig              = set_value_t(token);
    using error_sig              = set_error_t(my_error);
    template <class R>
    void value(R&& r, int val, bool)
    {
      // the leaf itself must not fail for want of memory
      int   was = dsim_alloc_faults_thread(0);
      token t(val);
      dsim_alloc_faults_thread(was);
      ex::set_value(std::move(r), std::move(t));
    }
    template <class R>
    void error(R&& r, int val, bool)
    {
      ex::set_error(std::move(r), my_error{val});
    }
  };
  struct send_ref
  {
    using value_sig = set_value_t(touchy&);
    using error_sig = set_error_t(touchy_error&);
    std::optional<touchy>       v;
    std::optional<touchy_error> e;
    template <class R>
    void value(R&& r, int val, bool throws)
    {
      ex::set_value(std::move(r), v.emplace(val, throws));
    }
    template <class R>
    void error(R&& r, int val, bool throws)
    {
      ex::set_error(std::move(r), e.emplace(val, throws));
    }
  };

  template <class R, bool Err = true, bool Stop = true, class Send = send_token>
  struct leaf_op : job
  {
    struct on_stop
    {
      leaf_op* self;
      void     operator()() noexcept
      {
        self->log->stop_seen.fetch_add(1, std::memory_order_relaxed);
        if (self->claim.fetch_add(1, std::memory_order_acq_rel) == 0)
          self->via_stop();
      }
    };
    using tok_t = ex::stop_token_of_t<ex::env_of_t<R>>;
    using cb_t  = ex::stop_callback_for_t<tok_t, on_stop>;

    workers*            w;
    leaf_log*           log;
    leaf_mode           mode;
    int                 kind_, val;
    R                   r;
    bool                throws;
    Send                send;
    std::atomic<int>    claim{0};
    std::atomic<int>    parts{0};
    std::optional<cb_t> cb;
    int                 state = 0;  // 0 created, 1 started, 2 completed
    bool                stop_won = false;

    leaf_op(workers* w_, leaf_log* l, leaf_mode m, int k, int v, R r_, bool th = false)
      : w(w_), log(l), mode(m), kind_(k), val(v), r(std::move(r_)), throws(th)
    {
      log->connected.fetch_add(1, std::memory_order_relaxed);
    }
    leaf_op(leaf_op&&) = delete;
    ~leaf_op()
    {
      if (state == 1)
        dsim_fail("destroyed-while-pending", "an operation was destroyed after it was started and before it completed");
      if (state != 0)
        log->dead();
      log->destroyed.fetch_add(1, std::memory_order_relaxed);
    }
    void deliver(int k) noexcept
    {
      state        = 2;
      if (!log->many)
      {
        log->last    = k;
        log->by_stop = stop_won;
        log->begin   = dsim_seq();
      }
      auto* lg     = log->track ? log : nullptr;
      log->finish();
      if (k == VALUE)
        send.value(std::move(r), val, throws);
      else if (k == ERROR)
      {
        if constexpr (Err)
          send.error(std::move(r), val, throws);
      }
      else if constexpr (Stop)
        ex::set_stopped(std::move(r));
      if (lg)
        lg->end.store(dsim_seq(), std::memory_order_relaxed);
    }
    // the stop callback and the end of start() both have to be over before completing
    void via_stop() noexcept
    {
      stop_won = true;
      if (parts.fetch_add(1, std::memory_order_acq_rel) == 1)
        finish_stop();
    }
    void finish_stop() noexcept
    {
      // runs on the thread of the stop request or of start(); the callback object is destroyed
      // here, inside its own invocation at most
      cb.reset();
      deliver(STOPPED);
    }
    static void run_remote(job* j)
    {
      auto* self = static_cast<leaf_op*>(j);
      if (self->mode == L_REMOTE_STOP)
      {
        if (self->claim.fetch_add(1, std::memory_order_acq_rel) != 0)
        {
          // stop was first; this job was the last reference the world had
          if (self->parts.fetch_add(1, std::memory_order_acq_rel) == 1)
            self->finish_stop();
          return;
        }
        self->cb.reset();
      }
      self->deliver(self->kind_);
    }
    void start() & noexcept
    {
      if (state != 0)
        dsim_fail("double-start", "an operation was started twice");
      state = 1;
      log->born();
      log->start();
      leaf_mode m = mode;
      auto      t = ex::get_stop_token(ex::get_env(r));
      if constexpr (ex::unstoppable_token<tok_t>)
      {
        if (m >= L_REMOTE_STOP)
          m = mode = L_REMOTE;
      }
      else if (m >= L_REMOTE_STOP && !t.stop_possible())
        m = mode = L_REMOTE;
      run = &run_remote;
      switch (m)
      {
      case L_INLINE: deliver(kind_); break;
      case L_REMOTE: w->post(this); break;
      case L_REMOTE_STOP:
        // the posted job and the stop callback both touch this object; whoever comes second
        // on the stop path completes.  Posting happens after the registration is over.
        cb.emplace(t, on_stop{this});
        w->post(this);
        break;
      case L_HANG:
        cb.emplace(t, on_stop{this});
        if (parts.fetch_add(1, std::memory_order_acq_rel) == 1)
          finish_stop();
        break;
      default: break;
      }
    }
  };

  template <bool Err = true, bool Stop = true, class Send = send_token>
  struct leaf_sender
  {
    using sender_concept = ex::sender_tag;
    workers*  w;
    leaf_log* log;
    leaf_mode mode;
    int       kind_, val;
    bool      throws = false;

    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      if constexpr (Err && Stop)
        return ex::completion_signatures<typename Send::value_sig, typename Send::error_sig, set_stopped_t()>{};
      else if constexpr (Stop)
        return ex::completion_signatures<typename Send::value_sig, set_stopped_t()>{};
      else
        return ex::completion_signatures<typename Send::value_sig>{};
    }
    template <class R>
    auto connect(R r) const -> leaf_op<R, Err, Stop, Send>
    {
      return leaf_op<R, Err, Stop, Send>{w, log, mode, kind_, val, std::move(r), throws};
    }
  };
  inline leaf_sender<> leaf(workers& w, leaf_log& l, leaf_mode m, int kind, int val)
  {
    return {&w, &l, m, kind, val};
  }
  // a sender whose connect may throw my_error{val}
  template <class S>
  struct risky_sender
  {
    using sender_concept = ex::sender_tag;
    S    s;
    int  val;
    bool throws;
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::get_completion_signatures<S, Env...>();
    }
    template <class R>
    auto connect(R r) const -> ex::connect_result_t<S, R>
    {
      if (throws)
        throw my_error{val};
      return ex::connect(S(s), std::move(r));
    }
  };
  // a sender that owns something: losing or duplicating the sender object is noticed
  template <class S>
  struct owning_sender
  {
    using sender_concept = ex::sender_tag;
    S     s;
    token own;
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return ex::get_completion_signatures<S, Env...>();
    }
    template <class R>
    auto connect(R r) const& -> ex::connect_result_t<S, R>
    {
      if (!own.intact(77))
        dsim_fail("dead-object", "a sender is connected although it was moved from");
      return ex::connect(S(s), std::move(r));
    }
    template <class R>
    auto connect(R r) && -> ex::connect_result_t<S, R>
    {
      if (!own.intact(77))
        dsim_fail("dead-object", "a sender is connected although it was moved from");
      token t(std::move(own));
      return ex::connect(std::move(s), std::move(r));
    }
  };
  template <class S>
  owning_sender<S> owning(S s)
  {
    int was = dsim_alloc_faults_thread(0);
    owning_sender<S> o{std::move(s), token(77)};
    dsim_alloc_faults_thread(was);
    return o;
  }
  template <class S>
  risky_sender<S> risky(S s, int val, bool throws)
  {
    return {std::move(s), val, throws};
  }
  using touchy_leaf = leaf_sender<true, true, send_ref>;
  inline touchy_leaf ref_leaf(workers& w, leaf_log& l, leaf_mode m, int kind, int val, bool throws)
  {
    return {&w, &l, m, kind, val, throws};
  }
  // a random leaf; hang: whether completing only on stop is acceptable
  inline leaf_sender<> any_leaf(workers& w, leaf_log& l, int val, bool hang = false)
  {
    auto m = leaf_mode(pick(hang ? 4 : 3));
    unsigned k = pick(6);
    return {&w, &l, m, k < 3 ? VALUE : k == 3 ? ERROR : k == 4 ? STOPPED : VALUE, val};
  }
}  // namespace h
