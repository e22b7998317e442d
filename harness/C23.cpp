// C23: adaptors that change one completion, and factories
#include "common.hpp"

#include <exec/create.hpp>
#include <exec/into_tuple.hpp>
#include <exec/just_from.hpp>
#include <exec/materialize.hpp>
#include <exec/start_detached.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>

#include <string>
#include <variant>
using namespace h;

namespace c23
{
  using str = std::string;

  // what arrived, written down
  inline str num(int i)
  {
    return std::to_string(i);
  }
  inline str enc(int i)
  {
    return "i" + num(i);
  }
  inline str enc(token const & t)
  {
    return "t" + num(int_of(t));
  }
  inline str enc(touchy const & t)
  {
    return "y" + num(int_of(t));
  }
  inline str enc(my_error const & e)
  {
    return "e" + num(e.code);
  }
  inline str enc(std::exception_ptr const & p)
  {
    return p ? "x" + num(int_of(p)) : str("x-null");
  }
  inline str enc(set_value_t)
  {
    return "V";
  }
  inline str enc(set_error_t)
  {
    return "E";
  }
  inline str enc(set_stopped_t)
  {
    return "S";
  }
  template <class T>
  str enc(std::optional<T> const & o);
  template <class... Ts>
  str enc(std::tuple<Ts...> const & t);
  template <class... Ts>
  str enc(std::variant<Ts...> const & v);
  inline str join()
  {
    return "";
  }
  template <class T, class... Ts>
  str join(T const & t, Ts const &... ts)
  {
    str s = enc(t);
    ((s += "," + enc(ts)), ...);
    return s;
  }
  template <class T>
  str enc(std::optional<T> const & o)
  {
    return o ? "o(" + enc(*o) + ")" : str("o()");
  }
  template <class... Ts>
  str enc(std::tuple<Ts...> const & t)
  {
    return "(" + std::apply([](auto const &... x) { return join(x...); }, t) + ")";
  }
  template <class... Ts>
  str enc(std::variant<Ts...> const & v)
  {
    if (v.valueless_by_exception())
      return "valueless";
    return "v" + std::visit([](auto const & x) { return enc(x); }, v);
  }

  struct tag_q : ex::forwarding_query_t
  {
    template <class E>
      requires requires(E const & e, tag_q q) { e.query(q); }
    auto operator()(E const & e) const noexcept
    {
      return e.query(*this);
    }
    static constexpr auto query(ex::forwarding_query_t) noexcept -> bool
    {
      return true;
    }
  };
  struct my_env
  {
    int                    tag;
    ex::inplace_stop_token tok;
    auto                   query(tag_q) const noexcept -> int
    {
      return tag;
    }
    auto query(ex::get_stop_token_t) const noexcept -> ex::inplace_stop_token
    {
      return tok;
    }
  };

  // what one operation saw
  struct seen
  {
    str   got;       // what arrived
    int   count = 0;
    int   tid   = -1;
    bool  inside = false;  // the leaf is completing
    bool  out_of = false;  // it arrived while the leaf was not completing
    int   leaf_tid = -1;
    int   leaf_tag = 0;
    int   connected = 0, started = 0, destroyed = 0, senders = 0;
    int   done = 0;
    void* op = nullptr;
    void (*kill)(seen*) = nullptr;
    void arrive(str s)
    {
      if (count++)
        dsim_fail("double-completion", "completed with %s after it completed with %s", s.c_str(), got.c_str());
      got = std::move(s);
      tid = dsim_tid();
      if (!inside)
        out_of = true;
      if (kill)
        kill(this);
      dsim_latch_set(&done);
    }
  };

  template <class Sig, class Got>
  struct same_sig : std::false_type
  {};
  template <class Tag, class... As, class... Gs>
    requires(sizeof...(As) == sizeof...(Gs))
  struct same_sig<Tag(As...), Tag(Gs...)> : std::bool_constant<(std::is_same_v<As&&, Gs&&> && ...)>
  {};
  template <class Sigs, class Got>
  constexpr bool exact = false;
  template <class... Ss, class Got>
  constexpr bool exact<ex::completion_signatures<Ss...>, Got> = (same_sig<Ss, Got>::value || ...);
  template <class Got>
  constexpr bool exact<void, Got> = true;

  template <class Sigs>
  struct rec
  {
    using receiver_concept = ex::receiver_tag;
    seen*  s;
    my_env e;
    anchor keep{};
    template <class... Ts>
    void set_value(Ts&&... ts) noexcept
    {
      if constexpr (!exact<Sigs, set_value_t(Ts && ...)>)
        dsim_fail("unadvertised", "completes with values it did not advertise: %s", join(ts...).c_str());
      keep.check("receiver");
      str                             r = "V:" + join(ts...);
      {
        // take what was given away, as a consumer would
        std::tuple<std::conditional_t<std::is_lvalue_reference_v<Ts>, Ts&, std::remove_cvref_t<Ts>>...> own{static_cast<Ts&&>(ts)...};
        (void) own;
      }
      s->arrive(std::move(r));
    }
    template <class E>
    void set_error(E&& err) noexcept
    {
      if constexpr (!exact<Sigs, set_error_t(E &&)>)
        dsim_fail("unadvertised", "completes with an error it did not advertise: %s", join(err).c_str());
      keep.check("receiver");
      s->arrive("E:" + join(err));
    }
    void set_stopped() noexcept
    {
      if constexpr (!exact<Sigs, set_stopped_t()>)
        dsim_fail("unadvertised", "completes with stopped, which it did not advertise");
      keep.check("receiver");
      s->arrive("S");
    }
    auto get_env() const noexcept -> my_env
    {
      keep.check("receiver");
      return e;
    }
  };

  // ---------------------------------------------------------------- the predecessor
  enum way : unsigned
  {
    V1 = 1,    // a token
    V2 = 2,    // a token and an int
    V0 = 4,    // nothing
    VR = 8,    // a reference to something whose copy may throw
    E1 = 16,   // my_error
    ER = 32,   // a reference to an error whose copy may throw
    EP = 64,   // an exception_ptr
    ST = 128   // stopped
  };
  template <class... L>
  struct cat;
  template <class... A>
  struct cat<ex::completion_signatures<A...>>
  {
    using type = ex::completion_signatures<A...>;
  };
  template <class... A, class... B, class... R>
  struct cat<ex::completion_signatures<A...>, ex::completion_signatures<B...>, R...>
    : cat<ex::completion_signatures<A..., B...>, R...>
  {};
  template <unsigned M, unsigned B, class Sig>
  using if_bit = std::conditional_t<(M & B) != 0, ex::completion_signatures<Sig>, ex::completion_signatures<>>;
  template <unsigned M>
  using sigs_t = typename cat<if_bit<M, V1, set_value_t(token)>,
                              if_bit<M, V2, set_value_t(token, int)>,
                              if_bit<M, V0, set_value_t()>,
                              if_bit<M, VR, set_value_t(touchy&)>,
                              if_bit<M, E1, set_error_t(my_error)>,
                              if_bit<M, ER, set_error_t(touchy_error&)>,
                              if_bit<M, EP, set_error_t(std::exception_ptr)>,
                              if_bit<M, ST, set_stopped_t()>>::type;

  inline token tok(int v)
  {
    return token(v);
  }
  template <unsigned M, class R>
  struct multi_op : job
  {
    workers* w;
    seen*    s;
    unsigned which;
    int      val;
    bool     throws;
    bool     remote;
    R        r;
    int      state = 0;
    std::optional<touchy>       y;
    std::optional<touchy_error> ye;
    multi_op(workers* w, seen* s, unsigned which, int val, bool th, bool remote, R r)
      : w(w), s(s), which(which), val(val), throws(th), remote(remote), r(std::move(r))
    {
      s->connected++;
    }
    multi_op(multi_op&&) = delete;
    ~multi_op()
    {
      if (state == 1)
        dsim_fail("destroyed-while-pending", "an operation was destroyed after it was started and before it completed");
      s->destroyed++;
    }
    void start() & noexcept
    {
      if (state != 0)
        dsim_fail("double-start", "an operation was started twice");
      state = 1;
      s->started++;
      s->leaf_tag = tag_q{}(ex::get_env(r));
      if (remote)
      {
        run = [](job* j) { static_cast<multi_op*>(j)->fire(); };
        w->post(this);
      }
      else
        fire();
    }
    void fire() noexcept
    {
      state       = 2;
      // nothing of this object may be touched after it has completed
      auto*          log = s;
      unsigned const way = which;
      log->inside = true;
      log->leaf_tid = dsim_tid();
      if constexpr (M & V1)
        if (way == V1)
        {
          token t(val);
          ex::set_value(std::move(r), std::move(t));
        }
      if constexpr (M & V2)
        if (way == V2)
        {
          token t(val);
          int   i = val + 1;
          ex::set_value(std::move(r), std::move(t), std::move(i));
        }
      if constexpr (M & V0)
        if (way == V0)
          ex::set_value(std::move(r));
      if constexpr (M & VR)
        if (way == VR)
          ex::set_value(std::move(r), y.emplace(val, throws));
      if constexpr (M & E1)
        if (way == E1)
          ex::set_error(std::move(r), my_error{val});
      if constexpr (M & ER)
        if (way == ER)
          ex::set_error(std::move(r), ye.emplace(val, throws));
      if constexpr (M & EP)
        if (way == EP)
          ex::set_error(std::move(r), std::make_exception_ptr(my_error{val}));
      if constexpr (M & ST)
        if (way == ST)
          ex::set_stopped(std::move(r));
      log->inside = false;
    }
  };
  template <unsigned M>
  struct multi
  {
    using sender_concept = ex::sender_tag;
    workers* w;
    seen*    s;
    unsigned which;
    int      val;
    bool     throws;
    bool     remote;
    token    own{77};
    int*     copy_bomb = nullptr;  // the copy that makes it 0 throws

    multi(workers* w, seen* s, unsigned which, int val, bool th, bool remote)
      : w(w), s(s), which(which), val(val), throws(th), remote(remote)
    {}
    multi(multi&&) noexcept = default;
    multi(multi const & o)
      : w(o.w), s(o.s), which(o.which), val(o.val), throws(o.throws), remote(o.remote),
        own((o.copy_bomb && --*o.copy_bomb == 0) ? throw my_error{91} : o.own), copy_bomb(o.copy_bomb)
    {}
    multi& operator=(multi&&) noexcept = default;
    multi& operator=(multi const & o)
    {
      multi c(o);
      return *this = std::move(c);
    }
    template <class Self, class... Env>
    static consteval auto get_completion_signatures()
    {
      return sigs_t<M>{};
    }
    template <class R>
    auto connect(R r) const & -> multi_op<M, R>
    {
      if (!own.intact(77))
        dsim_fail("dead-object", "a sender is connected although it was moved from");
      multi keep(*this);
      return multi_op<M, R>(w, s, which, val, throws, remote, std::move(r));
    }
    template <class R>
    auto connect(R r) && -> multi_op<M, R>
    {
      if (!own.intact(77))
        dsim_fail("dead-object", "a sender is connected although it was moved from");
      token t(std::move(own));
      return multi_op<M, R>(w, s, which, val, throws, remote, std::move(r));
    }
    // what its completion looks like
    str plain() const
    {
      str v = num(val);
      switch (which)
      {
      case V1: return "V:t" + v;
      case V2: return "V:t" + v + ",i" + num(val + 1);
      case V0: return "V:";
      case VR: return "V:y" + v;
      case E1: return "E:e" + v;
      case ER: return "E:y" + v;
      case EP: return "E:x" + v;
      default: return "S";
      }
    }
    bool is_value() const
    {
      return which & (V1 | V2 | V0 | VR);
    }
    bool is_error() const
    {
      return which & (E1 | ER | EP);
    }
    str payload() const
    {
      str p = plain();
      return p.size() > 2 ? p.substr(2) : str();
    }
  };

  struct ctx
  {
    workers w{1};
    seen    s;
  };
  template <unsigned M>
  multi<M> mk(ctx& c)
  {
    unsigned bits[8], n = 0;
    for (unsigned b = 1; b <= ST; b <<= 1)
      if (M & b)
        bits[n++] = b;
    // every way the same chance, unless there are several
    return multi<M>(&c.w, &c.s, bits[pick(n)], 3 + int(pick(5)), coin(), coin());
  }

  // Runs the sender once; returns what arrived.
  // how: 0 connected as an rvalue, 1 from a non-const lvalue, 2 from a const lvalue
  // The caller gets "throw:<code>" when connect threw.
  struct result
  {
    str  got;
    bool ran = false;
  };
  template <class S>
  void one(seen& st, S&& s, my_env e, result& res)
  {
    using sg = ex::completion_signatures_of_t<S, my_env>;
    using R  = rec<sg>;
    using Op = ex::connect_result_t<S, R>;
    struct box
    {
      Op o;
      box(S&& s, R r)
        : o(ex::connect(static_cast<S&&>(s), std::move(r)))
      {}
    };
    try
    {
      auto* b = new box(static_cast<S&&>(s), R{&st, e});
      if (pick(12) == 11)
      {
        // never started: nothing may happen
        delete b;
        res.got = "unstarted";
        return;
      }
      bool self = coin();
      st.op     = b;
      if (self)
        st.kill = [](seen* st) { delete static_cast<box*>(std::exchange(st->op, nullptr)); };
      ex::start(b->o);
      dsim_latch_wait(&st.done);
      if (!self)
        delete b;
      res.ran = true;
      res.got = st.got;
    }
    catch (my_error const & e)
    {
      res.got = "throw:" + num(e.code);
    }
  }
  template <class S>
  result run(ctx& c, S s, ex::inplace_stop_token t = {})
  {
    result res;
    my_env e{41, t};
    switch (pick(3))
    {
    case 0: one(c.s, std::move(s), e, res); break;
    case 1: one(c.s, s, e, res); break;
    default: one(c.s, static_cast<S const &>(s), e, res); break;
    }
    return res;
  }
  // rvalue only
  template <class S>
  result run_once(ctx& c, S s, ex::inplace_stop_token t = {})
  {
    result res;
    one(c.s, std::move(s), my_env{41, t}, res);
    return res;
  }
  // started: the leaf has to have run too, and to have completed the whole from its own completion
  inline void judge(ctx& c, result const & r, str const & want, char const * what, bool leaf_ran = true)
  {
    if (r.got == "unstarted" || r.got.starts_with("throw:"))
    {
      DSIM_CHECK(c.s.count == 0 && c.s.started == 0, "premature", "%s ran without being started", what);
      DSIM_CHECK(c.s.connected == c.s.destroyed, "leak", "%s: %d operations made, %d destroyed", what, c.s.connected, c.s.destroyed);
      return;
    }
    DSIM_CHECK(r.got == want, "wrong-completion", "%s completed with %s instead of %s", what, r.got.c_str(), want.c_str());
    DSIM_CHECK(c.s.count == 1, "lost-completion", "%s completed %d times", what, c.s.count);
    if (leaf_ran)
    {
      DSIM_CHECK(c.s.started == 1, "lost-start", "%s: the predecessor was started %d times", what, c.s.started);
      DSIM_CHECK(!c.s.out_of && c.s.tid == c.s.leaf_tid, "wrong-context", "%s did not complete from its predecessor's completion", what);
      DSIM_CHECK(c.s.leaf_tag == 41, "lost-query", "%s: the predecessor does not see the receiver's environment", what);
    }
  }
  inline void over(ctx& c, char const * what)
  {
    DSIM_CHECK(c.s.connected == c.s.destroyed, "leak", "%s: %d operations made, %d destroyed", what, c.s.connected, c.s.destroyed);
  }

  // ---------------------------------------------------------------- functions
  // what a function does, and what comes of it
  enum fkind
  {
    F_TOKEN,   // returns a token
    F_VOID,    // nothing
    F_REF,     // a reference
    F_THROW,   // always throws
    F_MAYBE    // throws or returns an int
  };
  struct fn_log
  {
    int    calls = 0;
    str    args;
    bool   throws = false;
    touchy obj{60, false};
    int    tid = -1;
  };
  template <fkind K>
  struct fn
  {
    fn_log* l;
    token   own{78};
    int*    bomb = nullptr;
    explicit fn(fn_log* l)
      : l(l)
    {}
    fn(fn&&) noexcept = default;
    fn(fn const & o)
      : l(o.l)
      , own((o.bomb && --*o.bomb == 0) ? throw my_error{92} : o.own)
      , bomb(o.bomb)
    {}
    template <class... As>
    void note(As const &... as)
    {
      if (!own.intact(78))
        dsim_fail("dead-object", "a function is called although it was moved from or destroyed");
      l->calls++;
      l->args = join(as...);
      l->tid  = dsim_tid();
    }
    template <class... As>
    auto operator()(As&&... as) && noexcept(K == F_TOKEN || K == F_VOID || K == F_REF)
    {
      return call(static_cast<As&&>(as)...);
    }
    // only the rvalue may be called: the function is used up
    template <class... As>
    auto call(As&&... as)
    {
      note(as...);
      if constexpr (K == F_TOKEN)
        return token(50);
      else if constexpr (K == F_THROW)
      {
        throw my_error{51};
      }
      else if constexpr (K == F_MAYBE)
      {
        if (l->throws)
          throw my_error{51};
        return 52;
      }
    }
  };
  template <>
  struct fn<F_REF>
  {
    fn_log* l;
    token   own{78};
    int*    bomb = nullptr;
    explicit fn(fn_log* l)
      : l(l)
    {}
    fn(fn&&) noexcept = default;
    fn(fn const & o)
      : l(o.l)
      , own((o.bomb && --*o.bomb == 0) ? throw my_error{92} : o.own)
      , bomb(o.bomb)
    {}
    template <class... As>
    touchy& operator()(As&&... as) && noexcept
    {
      if (!own.intact(78))
        dsim_fail("dead-object", "a function is called although it was moved from or destroyed");
      l->calls++;
      l->args = join(as...);
      l->tid  = dsim_tid();
      return l->obj;
    }
  };
  template <fkind K>
  str result_of(fn_log const & l)
  {
    switch (K)
    {
    case F_TOKEN: return "V:t50";
    case F_VOID: return "V:";
    case F_REF: return "V:y60";
    case F_THROW: return "E:x51";
    default: return l.throws ? "E:x51" : "V:i52";
    }
  }
}  // namespace c23
using namespace c23;

// ------------------------------------------------------------------ then, upon_error, upon_stopped
namespace
{
  enum channel
  {
    CH_V,
    CH_E,
    CH_S
  };
  template <channel C, fkind K, unsigned M>
  void upon_run()
  {
    fn_log l;
    l.throws = coin();
    {
      ctx   c;
      auto  s    = mk<M>(c);
      str   p    = s.plain();
      str   args = s.payload();
      bool  mine = C == CH_V ? s.is_value() : C == CH_E ? s.is_error() : s.which == ST;
      fn<K> f(&l);
      int   bomb = 0;
      auto  go   = [&](auto a) {
        // from here on copies may throw: connecting an lvalue copies
        bomb = int(pick(5));
        auto r = run(c, std::move(a));
        str  want = mine ? result_of<K>(l) : p;
        judge(c, r, want, C == CH_V ? "then" : C == CH_E ? "upon_error" : "upon_stopped");
        if (r.got.starts_with("throw:"))
          DSIM_CHECK(bomb <= 0, "wrong-error", "connect threw %s by itself", r.got.c_str());
        DSIM_CHECK(l.calls == (r.ran && mine), "wrong-calls", "the function was called %d times for %s", l.calls, p.c_str());
        if (l.calls)
        {
          DSIM_CHECK(l.args == args, "wrong-value", "the function was given %s instead of %s", l.args.c_str(), args.c_str());
          DSIM_CHECK(l.tid == c.s.leaf_tid, "wrong-context", "the function ran on thread %d, not on %d", l.tid, c.s.leaf_tid);
        }
      };
      if (coin())
        s.copy_bomb = &bomb;
      if (coin())
        f.bomb = &bomb;
      if constexpr (C == CH_V)
      {
        if (coin())
          go(ex::then(std::move(s), std::move(f)));
        else
          go(std::move(s) | ex::then(std::move(f)));
      }
      else if constexpr (C == CH_E)
      {
        if (coin())
          go(ex::upon_error(std::move(s), std::move(f)));
        else
          go(std::move(s) | ex::upon_error(std::move(f)));
      }
      else
      {
        if (coin())
          go(ex::upon_stopped(std::move(s), std::move(f)));
        else
          go(std::move(s) | ex::upon_stopped(std::move(f)));
      }
      over(c, "the adaptor");
    }
  }
  template <channel C, unsigned M>
  void upon_any()
  {
    switch (pick(5))
    {
    case 0: upon_run<C, F_TOKEN, M>(); break;
    case 1: upon_run<C, F_VOID, M>(); break;
    case 2: upon_run<C, F_REF, M>(); break;
    case 3: upon_run<C, F_THROW, M>(); break;
    default: upon_run<C, F_MAYBE, M>(); break;
    }
  }
}  // namespace
SCENARIO(then, 3)
{
  upon_any<CH_V, V0 | V1 | V2 | VR | E1 | ER | EP | ST>();
}
SCENARIO(upon_error, 3)
{
  upon_any<CH_E, V1 | V2 | VR | E1 | ER | EP | ST>();
}
SCENARIO(upon_stopped, 2)
{
  upon_any<CH_S, V0 | V1 | VR | E1 | ER | ST>();
}

// ------------------------------------------------------------------ results put into one object
namespace
{
  // a copy of what came by reference may throw
  template <unsigned M>
  bool copy_throws(multi<M> const & s)
  {
    return s.which == VR && s.throws;
  }
  template <unsigned M>
  void variant_run()
  {
    ctx  c;
    auto s    = mk<M>(c);
    str  want = s.is_value() ? (copy_throws(s) ? "E:x" + num(1000 + s.val) : "V:v(" + s.payload() + ")") : s.plain();
    if (coin())
      judge(c, run(c, ex::into_variant(std::move(s))), want, "into_variant");
    else
      judge(c, run(c, std::move(s) | ex::into_variant()), want, "into_variant");
    over(c, "into_variant");
  }
  template <unsigned M>
  void tuple_run()
  {
    ctx  c;
    auto s    = mk<M>(c);
    str  want = s.is_value() ? (copy_throws(s) ? "E:x" + num(1000 + s.val) : "V:(" + s.payload() + ")") : s.plain();
    if (coin())
      judge(c, run(c, exec::into_tuple(std::move(s))), want, "into_tuple");
    else
      judge(c, run(c, std::move(s) | exec::into_tuple()), want, "into_tuple");
    over(c, "into_tuple");
  }
  template <unsigned M>
  void optional_run()
  {
    ctx  c;
    auto s    = mk<M>(c);
    str  want = s.is_value()   ? (copy_throws(s) ? "E:x" + num(1000 + s.val) : "V:o(" + s.payload() + ")")
              : s.which == ST ? "V:o()"
                              : s.plain();
    if (coin())
      judge(c, run(c, ex::stopped_as_optional(std::move(s))), want, "stopped_as_optional");
    else
      judge(c, run(c, std::move(s) | ex::stopped_as_optional()), want, "stopped_as_optional");
    over(c, "stopped_as_optional");
  }
}  // namespace
SCENARIO(into_variant, 2)
{
  if (coin())
    variant_run<V0 | V1 | V2 | VR | E1 | ER | EP | ST>();
  else
    variant_run<V1 | E1 | ST>();
}
SCENARIO(into_tuple, 2)
{
  switch (pick(4))
  {
  case 0: tuple_run<V0 | E1 | ST>(); break;
  case 1: tuple_run<V1 | ER | ST>(); break;
  case 2: tuple_run<V2 | EP | E1>(); break;
  default: tuple_run<VR | E1 | ER | ST>(); break;
  }
}
SCENARIO(stopped_as_optional, 2)
{
  switch (pick(3))
  {
  case 0: optional_run<V1 | E1 | ER | ST>(); break;
  case 1: optional_run<VR | E1 | ST>(); break;
  default: optional_run<VR | EP | ER | ST>(); break;
  }
}
SCENARIO(stopped_as_error, 2)
{
  ctx  c;
  auto s    = mk<V0 | V1 | VR | E1 | ER | ST>(c);
  str  want = s.which == ST ? str("E:y33") : s.plain();
  if (coin())
    judge(c, run(c, ex::stopped_as_error(std::move(s), touchy(33, false))), want, "stopped_as_error");
  else
    judge(c, run(c, std::move(s) | ex::stopped_as_error(touchy(33, false))), want, "stopped_as_error");
  over(c, "stopped_as_error");
}

// ------------------------------------------------------------------ materialize and back
SCENARIO(materialize, 2)
{
  ctx  c;
  auto s = mk<V0 | V1 | V2 | VR | E1 | ER | EP | ST>(c);
  str  p = s.plain(), a = s.payload();
  str  m = str("V:") + (s.is_value() ? "V" : s.is_error() ? "E" : "S") + (a.empty() ? "" : ",") + a;
  switch (pick(4))
  {
  case 0: judge(c, run(c, exec::materialize(std::move(s))), m, "materialize"); break;
  case 1: judge(c, run(c, std::move(s) | exec::materialize()), m, "materialize"); break;
  case 2: judge(c, run(c, exec::dematerialize(exec::materialize(std::move(s)))), p, "dematerialize"); break;
  default: judge(c, run(c, std::move(s) | exec::materialize() | exec::dematerialize()), p, "dematerialize"); break;
  }
  over(c, "materialize");
}
// a predecessor that fails by itself, too
SCENARIO(dematerialize, 1)
{
  ctx  c;
  auto s = mk<V1 | E1 | EP | ST>(c);
  str  p = s.plain();
  auto m = std::move(s) | ex::let_value([](token& t) noexcept { return ex::just(ex::set_value, std::move(t)); });
  if (coin())
    judge(c, run(c, exec::dematerialize(std::move(m))), p, "dematerialize");
  else
    judge(c, run(c, std::move(m) | exec::dematerialize()), p, "dematerialize");
  over(c, "dematerialize");
}

// ------------------------------------------------------------------ factories
SCENARIO(just, 2)
{
  ctx c;
  switch (pick(5))
  {
  case 0: judge(c, run(c, ex::just()), "V:", "just", false); break;
  case 1: judge(c, run(c, ex::just(token(5), 7)), "V:t5,i7", "just", false); break;
  case 2: judge(c, run(c, ex::just_error(my_error{6})), "E:e6", "just_error", false); break;
  case 3: judge(c, run(c, ex::just_stopped()), "S", "just_stopped", false); break;
  default:
  {
    // just copies what it is given: what happens to the original later is of no concern
    touchy t(5, coin());
    bool   th = t.throws;
    try
    {
      auto s = ex::just(t);
      DSIM_CHECK(!th, "lost-exception", "the exception thrown by a copy did not reach the caller");
      t = touchy(9, false);
      judge(c, run(c, std::move(s)), "V:y5", "just", false);
    }
    catch (my_error const & e)
    {
      DSIM_CHECK(th && e.code == 1005, "wrong-error", "got %d", e.code);
    }
  }
  }
}

namespace
{
  // a just_from function
  struct from_fn
  {
    int*  calls;
    int   way;  // which signature
    bool  throws;
    token own{79};
    template <class Sink>
    auto operator()(Sink sink) const
      -> ex::completion_signatures<set_value_t(token, int), set_value_t(int)>
    {
      if (!own.intact(79))
        dsim_fail("dead-object", "a function is called although it was moved from");
      ++*calls;
      if (throws)
        throw my_error{51};
      if (way)
        sink(token(5), 7);
      else
        sink(8);
      return {};
    }
  };
  struct from_error
  {
    int*  calls;
    token own{79};
    template <class Sink>
    auto operator()(Sink sink) const noexcept
    {
      if (!own.intact(79))
        dsim_fail("dead-object", "a function is called although it was moved from");
      ++*calls;
      return sink(my_error{6});
    }
  };
  struct from_stopped
  {
    int*  calls;
    token own{79};
    template <class Sink>
    auto operator()(Sink sink) const noexcept
    {
      if (!own.intact(79))
        dsim_fail("dead-object", "a function is called although it was moved from");
      ++*calls;
      return sink();
    }
  };
}  // namespace
SCENARIO(just_from, 2)
{
  ctx    c;
  int    calls = 0;
  result r;
  switch (pick(4))
  {
  case 0:
  case 1:
  {
    from_fn f{&calls, int(pick(2)), pick(3) == 2};
    str     want = f.throws ? "E:x51" : f.way ? "V:t5,i7" : "V:i8";
    r            = run(c, exec::just_from(f));
    judge(c, r, want, "just_from", false);
    break;
  }
  case 2:
    r = run(c, exec::just_error_from(from_error{&calls}));
    judge(c, r, "E:e6", "just_error_from", false);
    break;
  default:
    r = run(c, exec::just_stopped_from(from_stopped{&calls}));
    judge(c, r, "S", "just_stopped_from", false);
  }
  DSIM_CHECK(calls == r.ran, "wrong-calls", "the function was called %d times", calls);
}

namespace
{
  // the state create keeps: made once, gone with the operation
  struct kept
  {
    int* born;
    int* gone;
    int  id = 7;
    kept(int* b, int* g)
      : born(b)
      , gone(g)
    {
      ++*b;
    }
    kept(kept&&) = delete;
    ~kept()
    {
      ++*gone;
    }
  };
  template <class Ctx>
  struct create_job : job
  {
    Ctx* c;
    int  way;
    void fire()
    {
      auto& a = std::get<0>(c->args);
      if (!a.intact(5))
        dsim_fail("payload-corrupt", "create lost its arguments");
      if (way == 0)
        ex::set_value(std::move(c->receiver), std::move(a), std::move(std::get<1>(c->args)));
      else if (way == 1)
        ex::set_error(std::move(c->receiver), my_error{6});
      else
        ex::set_stopped(std::move(c->receiver));
    }
  };
  // remote, with a state
  struct create_state
  {
    workers* w;
    int      way;
    int*     calls;
    int*     born;
    int*     gone;
    token    own{80};
    template <class Ctx>
    struct st : kept
    {
      create_job<Ctx> j;
      st(create_state const & f, Ctx& c)
        : kept(f.born, f.gone)
      {
        j.c   = &c;
        j.way = f.way;
        j.run = [](job* p) { static_cast<create_job<Ctx>*>(p)->fire(); };
        f.w->post(&j);
      }
    };
    template <class Ctx>
    auto operator()(Ctx& c) const noexcept -> st<Ctx>
    {
      if (!own.intact(80))
        dsim_fail("dead-object", "a function is called although it was moved from");
      ++*calls;
      return st<Ctx>(*this, c);
    }
  };
  // inline, without
  struct create_void
  {
    int   way;
    int*  calls;
    token own{80};
    template <class Ctx>
    void operator()(Ctx& c) const noexcept
    {
      if (!own.intact(80))
        dsim_fail("dead-object", "a function is called although it was moved from");
      ++*calls;
      create_job<Ctx> j;
      j.c   = &c;
      j.way = way;
      j.fire();
    }
  };
}  // namespace
SCENARIO(create, 2)
{
  int         calls = 0, born = 0, gone = 0;
  bool        state = coin();
  int         way   = int(pick(3));
  char const *want[] = {"V:t5,i7", "E:e6", "S"};
  {
    ctx    c;
    result r;
    auto   make = exec::create<set_value_t(token, int), set_error_t(my_error), set_stopped_t()>;
    if (state)
    {
      // the state is being stored while the operation completes elsewhere: it may only go afterwards
      auto s = make(create_state{&c.w, way, &calls, &born, &gone}, token(5), 7);
      using R  = rec<ex::completion_signatures<set_value_t(token, int), set_error_t(my_error), set_stopped_t()>>;
      auto op = ex::connect(std::move(s), R{&c.s, my_env{41, {}}});
      if (pick(8) != 7)
      {
        ex::start(op);
        dsim_latch_wait(&c.s.done);
        DSIM_CHECK(born == 1 && gone == 0, "state-lifetime", "create made %d states and destroyed %d while operating", born, gone);
        r.got = c.s.got;
        r.ran = true;
      }
      else
        r.got = "unstarted";
    }
    else
      r = run(c, make(create_void{way, &calls}, token(5), 7));
    judge(c, r, want[way], "create", false);
    DSIM_CHECK(calls == r.ran, "wrong-calls", "create called its function %d times", calls);
    DSIM_CHECK(born == gone && born == (state && r.ran), "state-lifetime", "create made %d states and destroyed %d", born, gone);
  }
}

// ------------------------------------------------------------------ variant_sender
SCENARIO(variant_sender, 3)
{
  using A = multi<V1 | E1 | ST>;
  using B = multi<V2 | ER>;
  using J = decltype(ex::just(token(0)));
  using VS = exec::variant_sender<A, B, J>;
  ctx      c;
  unsigned at = pick(3);
  str      want;
  int      bomb = 0;
  auto     mka  = [&] {
    auto a      = mk<V1 | E1 | ST>(c);
    a.copy_bomb = &bomb;
    return a;
  };
  auto mkb = [&] {
    auto b      = mk<V2 | ER>(c);
    b.copy_bomb = &bomb;
    return b;
  };
  auto first = [&]() -> VS {
    if (at == 0)
    {
      auto a = mka();
      want   = a.plain();
      return VS(std::move(a));
    }
    if (at == 1)
    {
      auto b = mkb();
      want   = b.plain();
      return VS(std::move(b));
    }
    want = "V:t5";
    return VS(ex::just(token(5)));
  };
  VS   v = first();
  bool valid = true;
  for (unsigned n = pick(4); n--;)
  {
    unsigned to = pick(3);
    bool     threw = false;
    bomb           = pick(4) == 3 ? 1 : 0;
    switch (pick(6))
    {
    case 0:  // assignment
      try
      {
        if (to == 0)
        {
          auto a = mka();
          want   = a.plain();
          if (coin())
            v = a;
          else
            v = std::move(a);
        }
        else if (to == 1)
        {
          auto b = mkb();
          want   = b.plain();
          if (coin())
            v = b;
          else
            v = std::move(b);
        }
        else
        {
          want = "V:t6";
          v    = ex::just(token(6));
        }
        at = to;
      }
      catch (my_error const & e)
      {
        DSIM_CHECK(e.code == 91, "wrong-error", "got %d", e.code);
        threw = true;
      }
      break;
    case 1:  // emplace
      try
      {
        if (to == 0)
        {
          auto a = mka();
          want   = a.plain();
          v.template emplace<A>(std::move(a));
        }
        else if (to == 1)
        {
          auto b = mkb();
          want   = b.plain();
          v.template emplace<1>(b);
        }
        else
        {
          want = "V:t8";
          v.template emplace<2>(ex::just(token(8)));
        }
        at = to;
      }
      catch (my_error const & e)
      {
        DSIM_CHECK(e.code == 91, "wrong-error", "got %d", e.code);
        threw = true;
      }
      break;
    case 2:  // move
      if (valid)
      {
        VS o(std::move(v));
        v = VS(ex::just(token(9)));
        v = std::move(o);
      }
      break;
    case 4:  // copy assignment
    {
      VS o(ex::just(token(9)));
      try
      {
        o = v;
        DSIM_CHECK(o.index() == at, "wrong-index", "a copy holds alternative %zu instead of %u", o.index(), at);
        bomb = 0;
        v    = ex::just(token(9));
        v    = static_cast<VS const &>(o);
      }
      catch (my_error const & e)
      {
        DSIM_CHECK(e.code == 91, "wrong-error", "got %d", e.code);
      }
      break;
    }
    case 5:  // to itself, and exchanged
    {
      bomb    = 0;
      VS& same = v;
      v        = same;
      if (coin())
        v = std::move(same);
      VS o(ex::just(token(9)));
      std::swap(v, o);
      DSIM_CHECK(v.index() == 2 && o.index() == at, "wrong-index", "swap does not");
      std::swap(o, v);
      break;
    }
    default:  // copy
      if (valid)
        try
        {
          VS o(v);
          v = VS(ex::just(token(9)));
          v = std::move(o);
        }
        catch (my_error const & e)
        {
          DSIM_CHECK(e.code == 91, "wrong-error", "got %d", e.code);
        }
    }
    if (threw)
    {
      // what it holds now is not specified; it may be given something else, or destroyed
      if (coin())
        return;
      bomb = 0;
      {
        VS o(v), q(ex::just(token(9)));
        q = o;
        VS x(std::move(q));
        o = std::move(x);
      }
      v    = ex::just(token(7));
      at   = 2;
      want = "V:t7";
    }
    DSIM_CHECK(v.index() == at, "wrong-index", "holds alternative %zu instead of %u", v.index(), at);
  }
  bomb = int(pick(4));
  judge(c, run(c, std::move(v)), want, "variant_sender", at != 2);
  over(c, "variant_sender");
}
SCENARIO(variant_default, 1)
{
  using N = decltype(ex::just(7));
  ctx                        c;
  struct first : N
  {
    first()
      : N(ex::just(7))
    {}
  };
  exec::variant_sender<first, decltype(ex::just(token(0)))> v;
  DSIM_CHECK(v.index() == 0, "wrong-index", "holds alternative %zu by default", v.index());
  str want = "V:i7";
  if (coin())
  {
    v    = ex::just(token(4));
    want = "V:t4";
  }
  judge(c, run(c, std::move(v)), want, "variant_sender", false);
  over(c, "variant_sender");
}

// ------------------------------------------------------------------ stop requests
SCENARIO(unless_stop_requested, 2)
{
  ctx                     c;
  ex::inplace_stop_source src;
  auto                    s    = mk<V1 | VR | E1 | ER>(c);
  str                     p    = s.plain();
  unsigned                when = pick(3);
  threads                 ts;
  if (when == 1)
    src.request_stop();
  if (when == 2)
    ts.go([&] { src.request_stop(); });
  result r;
  if (coin())
    r = run(c, exec::unless_stop_requested(std::move(s)), src.get_token());
  else
    r = run(c, std::move(s) | exec::unless_stop_requested(), src.get_token());
  ts.join();
  bool stopped = r.ran && c.s.started == 0;
  if (when == 0)
    DSIM_CHECK(!stopped, "stopped-wrongly", "unless_stop_requested did not start its sender");
  if (when == 1 && r.ran)
    DSIM_CHECK(stopped, "ignored-stop", "unless_stop_requested started its sender although stop had been requested");
  judge(c, r, stopped ? str("S") : p, "unless_stop_requested", !stopped);
  over(c, "unless_stop_requested");
}

// an operation under two stop tokens answers to both, once
SCENARIO(stop_when, 3)
{
  leaf_log l;
  {
    workers                 w(1 + pick(2));
    ex::inplace_stop_source a, b;
    unsigned                who  = pick(4);  // bit 0: a is requested, bit 1: b is
    auto                    mode = leaf_mode(pick(who ? 4 : 3));
    int                     kind = pick(3) == 2 ? ERROR : VALUE;
    threads                 ts;
    bool                    early = pick(3) == 2;
    auto                    req   = [&](ex::inplace_stop_source& s) {
      if (early)
        s.request_stop();
      else
        ts.go([&s] { s.request_stop(); });
    };
    auto s = ex::__stop_when(owning(leaf(w, l, mode, kind, 5)), a.get_token());
    auto o = make_op(std::move(s), tok_env(b.get_token()), coin());
    if (early)
    {
      if (who & 1)
        req(a);
      if (who & 2)
        req(b);
    }
    else
    {
      if (who & 1)
        req(a);
      if (coin() && (who & 2))
      {
        req(b);
        who |= 4;
      }
    }
    o->start();
    if (!early && (who & 2) && !(who & 4))
      req(b);
    o->wait();
    ts.join();
    require_once(o->out, "stop_when");
    DSIM_CHECK(l.stop_seen.load() <= 1, "double-callback", "one stop callback was invoked %d times", l.stop_seen.load());
    if (mode == L_HANG)
      DSIM_CHECK(o->out.kind == STOPPED && l.stop_seen.load() == 1, "ignored-stop", "completed with %s", name(o->out.kind));
    else if (mode == L_REMOTE_STOP)
      DSIM_CHECK(o->out.kind == l.last && (o->out.kind != STOPPED || l.stop_seen.load() == 1), "wrong-completion", "completed with %s",
                 name(o->out.kind));
    else
      DSIM_CHECK(o->out.kind == kind && o->out.value == 5, "wrong-completion", "completed with %s", name(o->out.kind));
    if (!(who & 3))
      DSIM_CHECK(o->out.kind == kind, "stopped-wrongly", "completed with %s although nobody requested stop", name(o->out.kind));
  }
  DSIM_CHECK(l.connected.load() == l.destroyed.load() && l.started.load() == 1, "leak", "%d made, %d destroyed", l.connected.load(),
             l.destroyed.load());
}
namespace
{
  // the token itself
  template <class Tok>
  void token_run(Tok t, ex::inplace_stop_source& a, ex::inplace_stop_source& b)
  {
    threads                ts;
    std::atomic<int>       calls{0};
    auto                   f  = [&]() noexcept { calls.fetch_add(1); };
    unsigned               who = pick(4);
    bool                   before = coin();
    DSIM_CHECK(t.stop_possible(), "stop-possible", "the token says stop is not possible");
    DSIM_CHECK(!t.stop_requested(), "stopped-wrongly", "the token says stop was requested");
    auto go = [&] {
      if (who & 1)
        ts.go([&] { a.request_stop(); });
      if (who & 2)
        ts.go([&] { b.request_stop(); });
    };
    if (before)
    {
      go();
      if (coin())
        ts.join();
    }
    {
      using cb_t = ex::stop_callback_for_t<Tok, decltype(f)>;
      std::optional<cb_t> cb;
      if (coin())
        cb.emplace(t, f);
      else
        cb.emplace(Tok(t), f);
      if (!before)
        go();
      if (coin())
      {
        ts.join();
        DSIM_CHECK(calls.load() == (who != 0), "lost-callback", "a callback under two tokens was invoked %d times", calls.load());
        DSIM_CHECK(t.stop_requested() == (who != 0), "stop-requested", "the token says stop was requested: %d", t.stop_requested());
      }
      cb.reset();
      int n = calls.load();
      ts.join();
      DSIM_CHECK(calls.load() == n && n <= 1, "late-callback", "the callback was invoked %d times, %d of them after its removal",
                 calls.load(), calls.load() - n);
    }
  }
  struct half_probe
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = ex::completion_signatures<set_value_t()>;
    ex::inplace_stop_source* a;
    ex::inplace_stop_source* b;
    unsigned                 with;
    half_probe const *       keep = nullptr;
    template <class R>
    struct op
    {
      half_probe const & p;
      R                  r;
      void       start() & noexcept
      {
        {
          auto t     = ex::get_stop_token(ex::get_env(r));
          int  calls = 0;
          auto f     = [&]() noexcept { ++calls; };
          using cb_t = ex::stop_callback_for_t<decltype(t), decltype(f)>;
          DSIM_CHECK(t.stop_possible() == (p.with != 0), "stop-possible", "stop is possible with %u: %d", p.with, t.stop_possible());
          bool early = coin();
          bool hit   = coin();
          auto go    = [&] {
            if (hit && (p.with & 1))
              p.a->request_stop();
            else if (hit && (p.with & 2))
              p.b->request_stop();
          };
          if (early)
            go();
          cb_t cb(t, f);
          if (!early)
            go();
          bool want = hit && p.with;
          DSIM_CHECK(calls == want && t.stop_requested() == want, "lost-callback", "%d calls, stop requested: %d", calls, t.stop_requested());
          auto u = t;
          DSIM_CHECK(u == t, "wrong-token", "a copy of a token is not equal to it");
        }
        ex::set_value(std::move(r));
      }
    };
    template <class R>
    auto connect(R r) const -> op<R>
    {
      return {*keep, std::move(r)};
    }
  };
  struct token_probe
  {
    using sender_concept        = ex::sender_tag;
    using completion_signatures = ex::completion_signatures<set_value_t()>;
    ex::inplace_stop_source* a;
    ex::inplace_stop_source* b;
    template <class R>
    struct op
    {
      ex::inplace_stop_source* a;
      ex::inplace_stop_source* b;
      R                        r;
      void        start() & noexcept
      {
        token_run(ex::get_stop_token(ex::get_env(r)), *a, *b);
        ex::set_value(std::move(r));
      }
    };
    template <class R>
    auto connect(R r) const -> op<R>
    {
      return {a, b, std::move(r)};
    }
  };
}  // namespace
SCENARIO(fused_token, 2)
{
  ex::inplace_stop_source a, b;
  auto                    o = make_op(ex::__stop_when(token_probe{&a, &b}, a.get_token()), tok_env(b.get_token()), coin());
  o->start();
  o->wait();
}
// where one token, or both, can never be stopped
SCENARIO(fused_half, 1)
{
  ex::inplace_stop_source a, b;
  unsigned                with = pick(4);  // bit 0: the operator's token, bit 1: the receiver's
  ex::inplace_stop_token  ta   = with & 1 ? a.get_token() : ex::inplace_stop_token();
  ex::inplace_stop_token  tb   = with & 2 ? b.get_token() : ex::inplace_stop_token();
  half_probe              p{&a, &b, with};
  p.keep                       = &p;
  auto                    o    = make_op(ex::__stop_when(half_probe(p), std::move(ta)), tok_env(tb), coin());
  o->start();
  o->wait();
}

// ------------------------------------------------------------------ several in a row
SCENARIO(chain, 3)
{
  ctx    c;
  fn_log l, l2;
  l.throws = coin();
  auto s   = mk<V1 | V2 | VR | E1 | ER | ST>(c);
  str  p = s.plain(), a = s.payload();
  bool v = s.is_value(), e = s.is_error(), st = s.which == ST;
  switch (pick(4))
  {
  case 0:
  {
    // the error of the first function is recovered from by the second; stop becomes a value
    auto   r = run(c, std::move(s) | ex::then(fn<F_MAYBE>(&l)) | ex::upon_error(fn<F_TOKEN>(&l2)) | ex::upon_stopped([]() noexcept { return 9; }));
    str    want = v ? (l.throws ? "V:t50" : "V:i52") : e ? str("V:t50") : str("V:i9");
    judge(c, r, want, "then | upon_error | upon_stopped");
    if (r.ran)
      DSIM_CHECK(l.calls == v && l2.calls == (e || (v && l.throws)), "wrong-calls", "called %d and %d times", l.calls, l2.calls);
    break;
  }
  case 1:
  {
    bool   th = copy_throws(s);
    str    ev = num(1000 + s.val);
    auto   r  = run(c, std::move(s) | ex::into_variant() | ex::stopped_as_optional() | exec::materialize());
    str    want = v ? (th ? "V:E,x" + ev : "V:V,o(v(" + a + "))") : e ? "V:E," + a : str("V:V,o()");
    judge(c, r, want, "into_variant | stopped_as_optional | materialize");
    break;
  }
  case 2:
  {
    auto r = run(c, std::move(s) | exec::materialize() | ex::then(fn<F_MAYBE>(&l)) | exec::into_tuple());
    str  want = l.throws ? "E:x51" : "V:(i52)";
    judge(c, r, want, "materialize | then | into_tuple");
    str args = str(v ? "V" : e ? "E" : "S") + (a.empty() ? "" : ",") + a;
    if (r.ran)
      DSIM_CHECK(l.calls == 1 && l.args == args, "wrong-value", "called %d times with %s", l.calls, l.args.c_str());
    break;
  }
  default:
  {
    auto r = run(c, std::move(s) | ex::stopped_as_error(my_error{4}) | ex::upon_error(fn<F_REF>(&l)) | ex::then(fn<F_VOID>(&l2)));
    judge(c, r, "V:", "stopped_as_error | upon_error | then");
    if (r.ran)
    {
      DSIM_CHECK(l.calls == !v && l2.calls == 1, "wrong-calls", "called %d and %d times", l.calls, l2.calls);
      str first = st ? str("e4") : a;
      DSIM_CHECK(v || l.args == first, "wrong-value", "upon_error was given %s", l.args.c_str());
      DSIM_CHECK(l2.args == (v ? a : str("y60")), "wrong-value", "then was given %s", l2.args.c_str());
    }
  }
  }
  over(c, "the chain");
}
