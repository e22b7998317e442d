// C17: coroutine tasks, on random programs
#include "model.hpp"

#include <exec/at_coroutine_exit.hpp>
#include <exec/inline_scheduler.hpp>
#include <exec/on_coro_disposition.hpp>
#include <exec/single_thread_context.hpp>
#include <exec/task.hpp>

using namespace h;
using tree::model;

namespace
{
  constexpr int M = 9973;
  int           mix(int v)
  {
    return (v * 3 + 1) % M;
  }
  enum home_t
  {
    ANYWHERE,
    LOOP,
    OTHER,
    MAIN
  };
  char const * const home_name[] = {"inline", "loop", "other", "main"};

  struct world
  {
    std::optional<exec::single_thread_context> loop, other;
    workers                                    w;
    leaf_log                                   log;
    std::string                                text;
    int                                        next   = 1;
    int                                        budget = 14;
    bool                                       may = false, will = false, before = false;
    std::atomic<int>                           frames{0};
    world(unsigned nw)
      : w((loop.emplace(), other.emplace(), nw))
    {
      log.many = true;
    }
    void at(home_t home, char const * when) const
    {
      unsigned t = unsigned(dsim_tid());
      bool     ok = home == ANYWHERE || (home == LOOP ? t == 1 : home == OTHER ? t == 2 : t == 0);
      DSIM_CHECK(ok, "wrong-context", "%s: the coroutine runs on T%u instead of %s (%s)", text.c_str(), t, home_name[home], when);
    }
  };

  enum step_t
  {
    LEAF,
    CHILD,
    HOP,
    MOVE,
    EXIT,
    THROW,
    OPTIONAL,
    TOKEN,
    BARE,
    YIELD_ERROR,
    YIELD_STOPPED
  };
  enum when_t
  {
    ALWAYS,
    IF_SUCCEEDED,
    IF_FAILED,
    IF_STOPPED
  };
  struct prog;
  struct step
  {
    step_t                k;
    leaf_mode                mode   = L_INLINE;
    int                   kind   = VALUE;
    int                   v      = 0;
    bool                  caught = false;
    home_t                to     = ANYWHERE;
    std::unique_ptr<prog> child;
  };
  struct prog
  {
    bool              std_;
    int               v;
    std::vector<step> steps;
    // what happened
    int              runs = 0;
    std::vector<std::pair<int, int>> registered;  // id, when it has to run
    std::vector<int> ran;
    bool             over = false, failed = false;
    bool             astray = false;  // it last resumed where a foreign awaitable left it
    void             require_exits(world& W) const
    {
      if (!runs)
        return;
      int              how = failed ? IF_FAILED : over ? IF_SUCCEEDED : IF_STOPPED;
      std::vector<int> due;
      for (std::size_t i = registered.size(); i--;)
        if (registered[i].second == ALWAYS || registered[i].second == how)
          due.push_back(registered[i].first);
      DSIM_CHECK(due == ran, "exit-actions", "%s: %zu exit actions were due and %zu ran, or in the wrong order", W.text.c_str(), due.size(),
                 ran.size());
    }
    void require_all(world& W) const
    {
      require_exits(W);
      for (auto& s: steps)
        if (s.child)
          s.child->require_all(W);
    }
  };
  // counts the coroutine frames that exist
  struct frame
  {
    world& W;
    frame(world& W)
      : W(W)
    {
      W.frames.fetch_add(1, std::memory_order_relaxed);
    }
    ~frame()
    {
      W.frames.fetch_sub(1, std::memory_order_relaxed);
    }
  };

  struct task_env
  {
    using error_types = ex::completion_signatures<set_error_t(std::exception_ptr), set_error_t(my_error)>;
  };
  using etask = exec::task<token>;
  using stask = ex::task<token, task_env>;

  // an awaitable that knows nothing of senders
  struct bare : job
  {
    world&                  W;
    int                     how;  // ready, not suspended after all, resumed by another thread
    int                     v;
    std::coroutine_handle<> h;
    bare(world& W, int how, int v)
      : W(W)
      , how(how)
      , v(v)
    {}
    bool await_ready() const noexcept
    {
      return how == 0;
    }
    bool await_suspend(std::coroutine_handle<> h)
    {
      if (how == 1)
        return false;
      this->h   = h;
      this->run = [](job* j) { static_cast<bare*>(j)->h.resume(); };
      W.w.post(this);
      return true;
    }
    int await_resume() const noexcept
    {
      return v;
    }
  };

  // a scheduler nothing can be scheduled on
  struct refusal
  {
    world* W;
    int    how;  // fails at once, cannot be connected, fails on another thread
    int    v;
    bool   operator==(refusal const &) const noexcept = default;
  };
  struct refusing : refusal
  {
    using scheduler_concept = ex::scheduler_tag;
    struct env
    {
      refusal const * s;
      template <class T>
      auto query(ex::get_completion_scheduler_t<T>) const noexcept -> refusing
      {
        return refusing{*s};
      }
    };
    template <class R>
    struct op : job
    {
      using operation_state_concept = ex::operation_state_tag;
      refusal s;
      R       r;
      op(refusal s, R r)
        : s(s)
        , r(std::move(r))
      {}
      op(op&&) = delete;
      void fail()
      {
        ex::set_error(std::move(r), std::make_exception_ptr(my_error{s.v}));
      }
      void start() & noexcept
      {
        if (s.how == 2)
        {
          this->run = [](job* j) { static_cast<op*>(j)->fail(); };
          s.W->w.post(this);
        }
        else
          fail();
      }
    };
    struct sender
    {
      using sender_concept        = ex::sender_tag;
      using completion_signatures = ex::completion_signatures<set_value_t(), set_error_t(std::exception_ptr), set_stopped_t()>;
      refusal s;
      template <class R>
      auto connect(R r) const -> op<R>
      {
        if (s.how == 1)
          throw my_error{s.v};
        return op<R>(s, std::move(r));
      }
      auto get_env() const noexcept -> env
      {
        return {&s};
      }
    };
    auto schedule() const noexcept -> sender
    {
      return {*this};
    }
    bool operator==(refusing const &) const noexcept = default;
  };

  template <class Task>
  Task run(world& W, prog* p, home_t home, bool astray);

  exec::task<void> exit_task(world& W, prog* p, int id, leaf_mode m, home_t home)
  {
    token t = co_await leaf(W.w, W.log, m, VALUE, id);
    W.at(home, "in an exit action");
    p->ran.push_back(int_of(t));
  }
  auto exit_sender(world& W, prog* p, int id, leaf_mode m, home_t)
  {
    return leaf(W.w, W.log, m, VALUE, id) | ex::then([p](token t) { p->ran.push_back(int_of(t)); });
  }

  template <class Task>
  Task run(world& W, prog* p, home_t home, bool astray)
  {
    constexpr bool is_std = std::is_same_v<Task, stask>;
    frame          fr(W);
    DSIM_CHECK(p->runs++ == 0, "started-twice", "%s: a coroutine ran twice", W.text.c_str());
    token acc(p->v);
    p->astray = astray;
    if (!p->astray)
      W.at(home, "at its start");
    for (auto& s: p->steps)
    {
      bool back = true;
      try
      {
        switch (s.k)
        {
        case LEAF:
        {
          token t   = co_await leaf(W.w, W.log, s.mode, s.kind, s.v);
          p->astray = false;
          acc       = token((int_of(acc) + int_of(t)) % M);
          break;
        }
        case CHILD:
        {
          prog* c = s.child.get();
          token t;
          if constexpr (is_std)
            if (c->std_)
              t = co_await run<stask>(W, c, home, p->astray);
          if (!c->std_)
            t = co_await run<etask>(W, c, home, p->astray);
          p->astray = c->astray;
          c->require_exits(W);
          acc = token((int_of(acc) + int_of(t)) % M);
          break;
        }
        case OPTIONAL:
        {
          prog*                c = s.child.get();
          std::optional<token> t;
          if constexpr (is_std)
            if (c->std_)
              t = co_await ex::stopped_as_optional(run<stask>(W, c, home, p->astray));
          if (!c->std_)
            t = co_await ex::stopped_as_optional(run<etask>(W, c, home, p->astray));
          p->astray = c->astray;
          c->require_exits(W);
          acc = token((int_of(acc) + (t ? int_of(*t) : s.v)) % M);
          break;
        }
        case HOP:
          if (s.to == LOOP)
            co_await ex::schedule(W.loop->get_scheduler());
          else
            co_await ex::schedule(W.other->get_scheduler());
          p->astray = false;
          break;
        case MOVE:
          if constexpr (!is_std)
          {
            if (s.to == ANYWHERE)
              co_await exec::reschedule_coroutine_on(refusing{{&W, s.kind, s.v}});
            else if (s.to == LOOP)
              co_await exec::reschedule_coroutine_on(W.loop->get_scheduler());
            else
              co_await exec::reschedule_coroutine_on(W.other->get_scheduler());
            home      = s.to;
            p->astray = false;
          }
          break;
        case EXIT:
          if constexpr (!is_std)
          {
            p->registered.push_back({s.v, s.kind});
            auto by_task   = [](world* W, prog* p, int id, leaf_mode m, home_t home) { return exit_task(*W, p, id, m, home); };
            auto by_sender = [](world* W, prog* p, int id, leaf_mode m, home_t home) { return exit_sender(*W, p, id, m, home); };
            int  id        = 0;
#define WITH(what, act) id = std::get<2>(co_await what(act, &W, +p, int(s.v), leaf_mode(s.mode), home_t(home)))
            switch (s.kind * 2 + s.caught)
            {
            case ALWAYS * 2: WITH(exec::at_coroutine_exit, by_sender); break;
            case ALWAYS * 2 + 1: WITH(exec::at_coroutine_exit, by_task); break;
            case IF_SUCCEEDED * 2: WITH(exec::on_coroutine_succeeded, by_sender); break;
            case IF_SUCCEEDED * 2 + 1: WITH(exec::on_coroutine_succeeded, by_task); break;
            case IF_FAILED * 2: WITH(exec::on_coroutine_failed, by_sender); break;
            case IF_FAILED * 2 + 1: WITH(exec::on_coroutine_failed, by_task); break;
            case IF_STOPPED * 2: WITH(exec::on_coroutine_stopped, by_sender); break;
            default: WITH(exec::on_coroutine_stopped, by_task); break;
            }
#undef WITH
            DSIM_CHECK(id == s.v, "exit-args", "%s: registering an exit action gave back %d, not its argument %d", W.text.c_str(), id, s.v);
          }
          break;
        case THROW: throw my_error{s.v};
        case TOKEN:
        {
          auto tok = co_await ex::read_env(ex::get_stop_token);
          DSIM_CHECK(!W.before || tok.stop_requested(), "stop-lost", "%s: stop was requested, but the coroutine's token does not say so",
                     W.text.c_str());
          DSIM_CHECK(W.may || !tok.stop_requested(), "stop-invented", "%s: nobody requested stop", W.text.c_str());
          break;
        }
        case BARE:
        {
          int x = co_await bare(W, s.kind, s.v);
          acc   = token((int_of(acc) + x) % M);
          if (s.kind == 2)
            p->astray = true;
          break;
        }
        case YIELD_ERROR:
          if constexpr (is_std)
            co_yield ex::with_error<my_error>{my_error{s.v}};
          break;
        case YIELD_STOPPED:
          if constexpr (is_std)
            co_yield ex::with_stopped{};
          break;
        }
      }
      catch (my_error const & e)
      {
        if (!s.caught || s.k == EXIT)
        {
          p->failed = true;
          throw;
        }
        acc = token((int_of(acc) + mix(e.code)) % M);
        if (s.child)
        {
          p->astray = s.child->astray;
          s.child->require_exits(W);
        }
        else if (s.k == LEAF)
          p->astray = false;
      }
      DSIM_CHECK(s.k != YIELD_ERROR && s.k != YIELD_STOPPED, "resumed-after-end", "%s: a coroutine went on after its end", W.text.c_str());
      (void) back;
      if (!p->astray)
        W.at(home, "after co_await");
    }
    p->over = true;
    co_return std::move(acc);
  }

  std::unique_ptr<prog> gen(world& W, model& m, int depth, bool may_std = true)
  {
    auto p  = std::make_unique<prog>();
    p->std_ = may_std && coin();
    p->v    = W.next++;
    W.text += p->std_ ? "S[" : "E[";
    // what the program may have reached by now
    model acc;
    acc.add(VALUE, p->v);
    unsigned n = pick(5);
    if (!p->std_ && W.may)
      acc.add(STOPPED, 0);
    for (unsigned i = 0; i < n && --W.budget > 0 && acc.can(VALUE); ++i)
    {
      step s{step_t(pick(16))};
      s.v      = W.next++;
      s.caught = pick(3) == 0;
      s.mode   = h::leaf_mode(pick(3));
      if (s.k > YIELD_STOPPED)
        s.k = pick(2) && depth > 0 ? CHILD : LEAF;
      if (depth <= 0 && (s.k == CHILD || s.k == OPTIONAL))
        s.k = LEAF;
      if (p->std_ && (s.k == MOVE || s.k == EXIT))
        s.k = HOP;
      if (!p->std_ && (s.k == YIELD_ERROR || s.k == YIELD_STOPPED))
        s.k = s.k == YIELD_ERROR ? EXIT : MOVE;
      model r;
      auto  after = [&](model const & what)
      {
        model x;
        x.wild = acc.wild | what.wild;
        for (auto& a: acc.s)
          if (a.first != VALUE)
            x.add(a.first, a.second);
          else
            for (auto& b: what.s)
              if (b.first == VALUE)
                x.add(VALUE, (a.second + b.second) % M);
              else if (b.first == ERROR && s.caught)
                x.add(VALUE, (a.second + mix(b.second)) % M);
              else
                x.add(b.first, b.second);
        acc = x;
      };
      switch (s.k)
      {
      case LEAF:
      {
        int k  = pick(6);
        s.kind = k == 4 ? ERROR : k == 3 ? STOPPED : VALUE;
        if (W.will && pick(5) == 0)
        {
          s.mode = L_HANG;
          r.add(STOPPED, 0);
        }
        else
          r.add(s.kind, s.v);
        if (W.may && (!p->std_ || s.mode == L_REMOTE_STOP))
          r.add(STOPPED, 0);
        W.text += std::string("leaf") + "IRSH"[s.mode] + "(" + name(s.kind) + std::to_string(s.v) + ")";
        break;
      }
      case CHILD:
      case OPTIONAL:
        W.text += s.k == CHILD ? "await " : "optional ";
        s.child = gen(W, r, depth - 1, p->std_);
        if (s.k == OPTIONAL)
          r = r.map(STOPPED, [&](int) { return std::pair(int(VALUE), s.v); });
        if (W.may && !p->std_)
          r.add(STOPPED, 0);
        break;
      case HOP:
      case MOVE:
        s.to = coin() ? LOOP : OTHER;
        if (s.k == MOVE && pick(6) == 0)
        {
          s.to     = ANYWHERE;
          s.kind   = int(pick(3));
          s.caught = false;
          W.text += "move to a scheduler that refuses";
          r.add(ERROR, s.v);
          break;
        }
        W.text += std::string(s.k == HOP ? "hop " : "move ") + home_name[s.to];
        r.add(VALUE, 0);
        if (W.may && s.k == HOP)
          r.add(STOPPED, 0);
        break;
      case EXIT:
        s.kind = coin() ? ALWAYS : 1 + pick(3);
        W.text += std::string("exit") + (char const *[]){"", " if ok", " if failed", " if stopped"}[s.kind];
        r.add(VALUE, 0);
        break;
      case THROW:
        W.text += "throw";
        r.add(ERROR, s.v);
        break;
      case TOKEN:
        W.text += "token";
        r.add(VALUE, 0);
        if (W.may && !p->std_)
          r.add(STOPPED, 0);
        break;
      case BARE:
        s.kind = pick(3);
        W.text += "bare" + std::to_string(s.kind);
        r.add(VALUE, s.v);
        break;
      case YIELD_ERROR:
        W.text += "yield error";
        r.add(ERROR, s.v);
        s.caught = false;
        break;
      case YIELD_STOPPED:
        W.text += "yield stopped";
        r.add(STOPPED, 0);
        break;
      }
      if (s.caught)
        W.text += "/caught";
      W.text += "; ";
      after(r);
      p->steps.push_back(std::move(s));
    }
    W.text += "]";
    m = acc;
    return p;
  }

  void judge(world& W, prog const & p, outcome const & o, model const & m)
  {
    require_once(o, "the task");
    DSIM_CHECK(m.allows(o.kind, o.value), "wrong-completion", "%s completed with %s(%d), allowed: %s", W.text.c_str(), name(o.kind), o.value,
               m.show().c_str());
    DSIM_CHECK(W.log.running.load() == 0, "unstructured", "%d operations still run", W.log.running.load());
    p.require_all(W);
  }
  template <class S, class Env>
  void drive(world& W, prog const & p, model const & m, S s, Env e, stop_box& src)
  {
    dsim_event(W.text.c_str(), W.may, W.will);
    {
      auto o            = make_op(std::move(s), std::move(e), coin());
      o->out.structured = &W.log;
      threads  ts;
      if (!W.may)
        src.dies_with(*o);
      unsigned how = W.may ? W.before ? 0 : 1 + pick(2) : 3;
      if (how == 0)
        src.request_stop();
      else if (how == 1)
        ts.go([&] { src.request_stop(); });
      o->start();
      if (how == 2)
        src.request_stop();
      o->wait();
      ts.join();
      judge(W, p, o->out, m);
    }
    DSIM_CHECK(W.frames.load() == 0, "leaked-frame", "%s: %d coroutine frames were not destroyed", W.text.c_str(), W.frames.load());
  }
}  // namespace
namespace c17
{
  template <class Tok>
  struct task_rcvr_env
  {
    Tok  t;
    auto query(ex::get_stop_token_t) const noexcept -> Tok
    {
      return t;
    }
    auto query(ex::get_start_scheduler_t) const noexcept -> exec::inline_scheduler
    {
      return {};
    }
  };
}  // namespace c17
namespace
{
  using c17::task_rcvr_env;
  template <class Task, class Tok>
  void with(world& W, prog& p, model m, Tok tok, stop_box& src)
  {
    task_rcvr_env<Tok> e{tok};
    if (W.may)
      m.add(STOPPED, 0);
    switch (pick(4))
    {
    case 0: drive(W, p, m, run<Task>(W, &p, ANYWHERE, false), e, src); break;
    case 1:
      drive(W, p, m, ex::starts_on(W.loop->get_scheduler(), run<Task>(W, &p, LOOP, false)), e, src);
      break;
    case 2:
      drive(W, p, m, ex::starts_on(W.other->get_scheduler(), run<Task>(W, &p, OTHER, false)), e, src);
      break;
    default:
    {
      if (W.will || W.may)
      {
        drive(W, p, m, ex::starts_on(W.loop->get_scheduler(), run<Task>(W, &p, LOOP, false) | ex::then([](token t) { return t; })),
              e, src);
        break;
      }
      dsim_event(W.text.c_str(), 0, 0);
      outcome o;
      try
      {
        auto v = ex::sync_wait(run<Task>(W, &p, MAIN, false));
        if (v)
          o.complete(VALUE, int_of(std::get<0>(*v)));
        else
          o.complete(STOPPED, 0);
      }
      catch (my_error const & e)
      {
        o.complete(ERROR, e.code);
      }
      judge(W, p, o, m);
      DSIM_CHECK(W.frames.load() == 0, "leaked-frame", "%s: %d coroutine frames were not destroyed", W.text.c_str(), W.frames.load());
    }
    }
  }
  void one(int depth, bool stops)
  {
    world W(1 + pick(2));
    W.may    = stops;
    W.will   = stops;
    W.before = stops && pick(4) == 0;
    model                   m;
    auto                    p = gen(W, m, depth);
    stop_box                src;
    if (stops && coin())
      p->std_ ? with<stask>(W, *p, m, tree::odd_token{src.get_token()}, src) : with<etask>(W, *p, m, tree::odd_token{src.get_token()}, src);
    else
      p->std_ ? with<stask>(W, *p, m, src.get_token(), src) : with<etask>(W, *p, m, src.get_token(), src);
  }
}  // namespace

SCENARIO(plain, 2)
{
  one(2, false);
}
SCENARIO(stop, 3)
{
  one(2, true);
}
SCENARIO(small, 2)
{
  one(1, coin());
}
