// Shim for libstdc++'s <bits/atomic_wait.h>: atomic wait/notify become calls into the model-checking runtime.
// A waiter is woken only by a notify on the same address, so a forgotten notify shows up as a deadlock.
#ifndef MC_SHIM_ATOMIC_WAIT_H
#define MC_SHIM_ATOMIC_WAIT_H 1
#pragma GCC system_header
#define __atomic_wait_address_v __mc_orig_wait_address_v
#define __atomic_wait_address __mc_orig_wait_address
#define __atomic_wait_address_bare __mc_orig_wait_address_bare
#define __atomic_notify_address __mc_orig_notify_address
#define __atomic_notify_address_bare __mc_orig_notify_address_bare
#include_next <bits/atomic_wait.h>
#undef __atomic_wait_address_v
#undef __atomic_wait_address
#undef __atomic_wait_address_bare
#undef __atomic_notify_address
#undef __atomic_notify_address_bare
#ifdef __cpp_lib_atomic_wait
extern "C" void mc_wait_prepare(const void *addr);
extern "C" void mc_wait_block(const void *addr);
extern "C" void mc_notify(const void *addr, int all);
namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
  template<typename _Tp, typename _ValFn>
    void
    __atomic_wait_address_v(const _Tp* __addr, _Tp __old, _ValFn __vfn) noexcept
    {
      // The value test and going to sleep are one atomic step (mc_wait_prepare pins the scheduler until then).
      for (;;) {
	mc_wait_prepare(__addr);
	_Tp __v = __vfn();
	if (__builtin_memcmp(&__v, &__old, sizeof(_Tp)) != 0) return;
	mc_wait_block(__addr);
      }
    }
  template<typename _Tp, typename _Pred>
    void
    __atomic_wait_address(const _Tp* __addr, _Pred __pred) noexcept
    {
      for (;;) {
	mc_wait_prepare(__addr);
	if (__pred()) return;
	mc_wait_block(__addr);
      }
    }
  template<typename _Pred>
    void
    __atomic_wait_address_bare(const __detail::__platform_wait_t* __addr, _Pred __pred) noexcept
    { __atomic_wait_address(__addr, __pred); }
  template<typename _Tp>
    void
    __atomic_notify_address(const _Tp* __addr, bool __all) noexcept
    { mc_notify(__addr, __all); }
  inline void
  __atomic_notify_address_bare(const __detail::__platform_wait_t* __addr, bool __all) noexcept
  { mc_notify(__addr, __all); }
_GLIBCXX_END_NAMESPACE_VERSION
}
#endif
#endif
