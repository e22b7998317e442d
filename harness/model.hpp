// A reference model of how an asynchronous expression may complete: a set of outcomes.
#pragma once
#include "common.hpp"

#include <set>
#include <string>

namespace tree
{
  using namespace h;

  // a stop token of another type than the one any_sender erases to
  struct odd_token
  {
    ex::inplace_stop_token t;
    template <class F>
    struct callback_type
    {
      ex::inplace_stop_callback<F> cb;
      template <class G>
      callback_type(odd_token t, G&& g) noexcept
        : cb(t.t, static_cast<G&&>(g))
      {}
    };
    bool stop_requested() const noexcept
    {
      return t.stop_requested();
    }
    bool stop_possible() const noexcept
    {
      return t.stop_possible();
    }
    bool operator==(odd_token const &) const noexcept = default;
  };

  // the outcomes an expression may have
  struct model
  {
    std::set<std::pair<int, int>> s;
    bool                          wild = false;  // too many: anything goes
    bool                          mute = false;  // completes only if stop is requested
    void add(int k, int v)
    {
      if (k == STOPPED)
        v = 0;
      s.insert({k, v});
      if (s.size() > 120)
        wild = true;
    }
    void join(model const & o)
    {
      wild |= o.wild;
      for (auto& x: o.s)
        add(x.first, x.second);
    }
    void join_kind(model const & o, int k)
    {
      wild |= o.wild;
      for (auto& x: o.s)
        if (x.first == k)
          add(x.first, x.second);
    }
    void join_not(model const & o, int k)
    {
      wild |= o.wild;
      for (auto& x: o.s)
        if (x.first != k)
          add(x.first, x.second);
    }
    bool can(int k) const
    {
      for (auto& x: s)
        if (x.first == k)
          return true;
      return wild;
    }
    bool only(int k) const
    {
      for (auto& x: s)
        if (x.first != k)
          return false;
      return !wild;
    }
    bool allows(int k, int v) const
    {
      return wild || s.count({k, k == STOPPED ? 0 : v}) != 0;
    }
    template <class F>
    model map(int k, F f) const
    {
      model r;
      r.wild = wild;
      for (auto& x: s)
        if (x.first == k)
        {
          auto y = f(x.second);
          r.add(y.first, y.second);
        }
        else
          r.add(x.first, x.second);
      return r;
    }
    std::string show() const
    {
      std::string r = wild ? "anything " : "";
      for (auto& x: s)
        r += std::string(name(x.first)) + (x.first == STOPPED ? "" : "(" + std::to_string(x.second) + ")") + " ";
      return r;
    }
  };
}  // namespace tree
