// Simulation seam for std::atomic<T>::wait / notify_*.
//
// libstdc++'s own implementation parks on a futex through a proxy-wait pool whose
// internal memory orders are an implementation detail of the C++ library, not of the
// code under test.  Here the three entry points are replaced by the semantics of
// [atomics.wait]: re-check the value and park as one indivisible step, be woken by a
// notify on the same address (or spuriously, when the simulator decides so).
#pragma once
#define __atomic_wait_address_v __dsim_orig_atomic_wait_address_v
#define __atomic_wait_address __dsim_orig_atomic_wait_address
#define __atomic_notify_address __dsim_orig_atomic_notify_address
#include_next <bits/atomic_wait.h>
#undef __atomic_wait_address_v
#undef __atomic_wait_address
#undef __atomic_notify_address

extern "C" {
void dsim_await_begin(const volatile void* addr) noexcept;
void dsim_await_abandon() noexcept;
void dsim_await_block(const volatile void* addr) noexcept;
void dsim_notify(const volatile void* addr, int all) noexcept;
}

namespace std
{
  template <typename _Tp, typename _ValFn>
  void __atomic_wait_address_v(const _Tp* __addr, _Tp __old, _ValFn __vfn) noexcept
  {
    while (__detail::__atomic_compare(__old, __vfn()))
    {
      ::dsim_await_begin(__addr);
      if (!__detail::__atomic_compare(__old, __vfn()))
      {
        ::dsim_await_abandon();
        return;
      }
      ::dsim_await_block(__addr);
    }
  }

  template <typename _Tp, typename _Pred>
  void __atomic_wait_address(const _Tp* __addr, _Pred __pred) noexcept
  {
    while (!__pred())
    {
      ::dsim_await_begin(__addr);
      if (__pred())
      {
        ::dsim_await_abandon();
        return;
      }
      ::dsim_await_block(__addr);
    }
  }

  template <typename _Tp>
  void __atomic_notify_address(const _Tp* __addr, bool __all) noexcept
  {
    ::dsim_notify(__addr, __all);
  }
}  // namespace std
