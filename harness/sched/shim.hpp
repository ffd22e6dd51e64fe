// Force-included in front of a source file under check: its threads, mutexes and atomics become the controlled ones.
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <deque>
#include <exception>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory_resource>
#include <new>
#include <numeric>
#include <optional>
#include <ostream>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <any>
#include <float.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sched/sched.hpp"

#define VS_PLAIN __attribute__((no_sanitize("thread"), noinline))

namespace std
{
template <class T>
class mc_atomic
{
  T v_;
  static int ld(memory_order o) { return o == memory_order_relaxed || o == memory_order_release ? vs::RELAXED : vs::ACQUIRE; }
  static int st(memory_order o) { return o == memory_order_relaxed || o == memory_order_acquire || o == memory_order_consume ? vs::RELAXED : vs::RELEASE; }

public:
  VS_PLAIN mc_atomic() noexcept : v_() {}
  VS_PLAIN mc_atomic(T v) noexcept : v_(v) {}
  mc_atomic(const mc_atomic&) = delete;
  mc_atomic& operator=(const mc_atomic&) = delete;
  VS_PLAIN T load(memory_order o = memory_order_seq_cst) const noexcept
  {
    vs::atomicPoint(this, "load");
    vs::atomicSync(this, true, false, ld(o));
    return v_;
  }
  VS_PLAIN void store(T v, memory_order o = memory_order_seq_cst) noexcept
  {
    vs::atomicPoint(this, "store");
    vs::atomicSync(this, false, true, st(o));
    v_ = v;
  }
  template <class F>
  VS_PLAIN T rmw(F f, memory_order o) noexcept
  {
    vs::atomicPoint(this, "update");
    vs::atomicSync(this, true, true, ld(o) | st(o));
    T old = v_;
    v_ = f(old);
    return old;
  }
  VS_PLAIN T exchange(T v, memory_order o = memory_order_seq_cst) noexcept { return rmw([&](T) { return v; }, o); }
  VS_PLAIN bool compare_exchange_strong(T& e, T v, memory_order o = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept
  {
    vs::atomicPoint(this, "cas");
    const bool ok = v_ == e;
    vs::atomicSync(this, true, ok, ok ? (ld(o) | st(o)) : ld(o));
    if (ok)
      v_ = v;
    else
      e = v_;
    return ok;
  }
  VS_PLAIN bool compare_exchange_weak(T& e, T v, memory_order o = memory_order_seq_cst, memory_order p = memory_order_seq_cst) noexcept
  {
    return compare_exchange_strong(e, v, o, p);
  }
  T fetch_add(T n, memory_order o = memory_order_seq_cst) noexcept { return rmw([&](T x) { return T(x + n); }, o); }
  T fetch_sub(T n, memory_order o = memory_order_seq_cst) noexcept { return rmw([&](T x) { return T(x - n); }, o); }
  T fetch_or(T n, memory_order o = memory_order_seq_cst) noexcept { return rmw([&](T x) { return T(x | n); }, o); }
  T fetch_and(T n, memory_order o = memory_order_seq_cst) noexcept { return rmw([&](T x) { return T(x & n); }, o); }
  operator T() const noexcept { return load(); }
  T operator=(T v) noexcept
  {
    store(v);
    return v;
  }
  T operator++() noexcept { return fetch_add(1) + 1; }
  T operator++(int) noexcept { return fetch_add(1); }
  T operator--() noexcept { return fetch_sub(1) - 1; }
  T operator--(int) noexcept { return fetch_sub(1); }
  bool is_lock_free() const noexcept { return true; }
};
using mc_atomic_bool = mc_atomic<bool>;
using mc_atomic_int = mc_atomic<int>;
class mc_atomic_flag
{
  mc_atomic<bool> v_{ false };

public:
  mc_atomic_flag() = default;
  mc_atomic_flag(int) {}
  bool test_and_set(memory_order o = memory_order_seq_cst) noexcept { return v_.exchange(true, o); }
  void clear(memory_order o = memory_order_seq_cst) noexcept { v_.store(false, o); }
};

template <bool REC>
class mc_mutex_t
{
public:
  mc_mutex_t() = default;
  mc_mutex_t(const mc_mutex_t&) = delete;
  VS_PLAIN ~mc_mutex_t() { vs::destroyMutex(this); }
  VS_PLAIN void lock() { vs::lock(this, REC); }
  VS_PLAIN bool try_lock() { return vs::tryLock(this, REC); }
  VS_PLAIN void unlock() { vs::unlock(this); }
  VS_PLAIN void lock_shared() { vs::lock(this, REC); }
  VS_PLAIN void unlock_shared() { vs::unlock(this); }
  template <class D>
  bool try_lock_for(const D&)
  {
    return vs::tryLock(this, REC);
  }
  static constexpr bool recursive = REC;

private:
  long pad_[4] = {};
};
using mc_mutex = mc_mutex_t<false>;
using mc_timed_mutex = mc_mutex_t<false>;
using mc_shared_mutex = mc_mutex_t<false>;
using mc_recursive_mutex = mc_mutex_t<true>;

class mc_condition_variable
{
  long pad_[4] = {};

public:
  template <class L>
  void wait(L& l)
  {
    vs::cvWait(this, l.mutex(), false);
  }
  template <class L, class P>
  void wait(L& l, P p)
  {
    while (!p())
      wait(l);
  }
  template <class L, class D>
  cv_status wait_for(L& l, const D&)
  {
    l.unlock();
    vs::yield();
    l.lock();
    return cv_status::timeout;
  }
  template <class L, class D, class P>
  bool wait_for(L& l, const D& d, P p)
  {
    if (!p())
      wait_for(l, d);
    return p();
  }
  void notify_one() noexcept { vs::cvNotify(this, false); }
  void notify_all() noexcept { vs::cvNotify(this, true); }
};
using mc_condition_variable_any = mc_condition_variable;

class mc_thread
{
  int id_ = -1;

public:
  using id = int;
  mc_thread() noexcept = default;
  template <class F, class... A, class = std::enable_if_t<!std::is_same<std::decay_t<F>, mc_thread>::value>>
  VS_PLAIN explicit mc_thread(F&& f, A&&... a)
  {
    id_ = vs::spawn(std::bind(std::forward<F>(f), std::forward<A>(a)...));
  }
  mc_thread(const mc_thread&) = delete;
  VS_PLAIN mc_thread(mc_thread&& o) noexcept : id_(o.id_) { o.id_ = -1; }
  VS_PLAIN mc_thread& operator=(mc_thread&& o) noexcept
  {
    if (joinable())
      vs::detachOrDie(id_);
    id_ = o.id_;
    o.id_ = -1;
    return *this;
  }
  VS_PLAIN ~mc_thread()
  {
    if (joinable())
      vs::detachOrDie(id_);
  }
  VS_PLAIN bool joinable() const noexcept { return id_ >= 0; }
  VS_PLAIN void join()
  {
    if (!joinable())
      vs::violate("crash", "a thread that is not joinable is joined: std::system_error");
    vs::join(id_);
    id_ = -1;
  }
  VS_PLAIN void detach() { id_ = -1; }
  VS_PLAIN id get_id() const noexcept { return id_; }
  void swap(mc_thread& o) noexcept { std::swap(id_, o.id_); }
  static unsigned hardware_concurrency() noexcept { return 2; }
};
using mc_jthread = mc_thread;

namespace mc_this_thread
{
inline void yield() { vs::yield(); }
template <class D>
void sleep_for(const D&)
{
  vs::yield();
}
template <class D>
void sleep_until(const D&)
{
  vs::yield();
}
inline int get_id() { return vs::self(); }
}  // namespace mc_this_thread

// text, with its accesses visible to the race detection (the library's own code is not instrumented)
class mc_string : public std::string
{
  using B = std::string;

public:
  mc_string() = default;
  mc_string(const char* s) : B(s) {}
  mc_string(const std::string& s) : B(s) {}
  mc_string(size_t n, char c) : B(n, c) {}
  mc_string(const mc_string& o) : B((o.r(), static_cast<const B&>(o))) {}
  mc_string(mc_string&& o) : B((o.w(), static_cast<B&&>(o))) {}
  ~mc_string() { w(); }
  mc_string& operator=(const mc_string& o) { o.r(); w(); B::operator=(o); return *this; }
  mc_string& operator=(mc_string&& o) { o.w(); w(); B::operator=(static_cast<B&&>(o)); return *this; }
  mc_string& operator=(const char* s) { w(); B::operator=(s); return *this; }
  mc_string& assign(const char* s) { w(); B::assign(s); return *this; }
  mc_string& assign(const mc_string& s) { return *this = s; }
  const char* c_str() const { r(); return B::c_str(); }
  const char* data() const { r(); return B::data(); }
  bool empty() const { r(); return B::empty(); }
  size_t size() const { r(); return B::size(); }
  void clear() { w(); B::clear(); }
  void swap(mc_string& o) { w(); o.w(); B::swap(o); }
  void r() const { vs::access(this, sizeof(B), false, "a text"); }
  void w() const { vs::access(this, sizeof(B), true, "a text"); }
};
inline void swap(mc_string& a, mc_string& b) { a.swap(b); }
}  // namespace std

inline void* vs_memcpy(void* d, const void* s, size_t n)
{
  if (n)
  {
    vs::access(s, n, false, "memcpy from");
    vs::access(d, n, true, "memcpy to");
  }
  return memcpy(d, s, n);
}

namespace std
{
using ::vs_memcpy;
}

#define thread mc_thread
#define jthread mc_jthread
#define mutex mc_mutex
#define recursive_mutex mc_recursive_mutex
#define timed_mutex mc_timed_mutex
#define shared_mutex mc_shared_mutex
#define condition_variable mc_condition_variable
#define condition_variable_any mc_condition_variable_any
#define atomic mc_atomic
#define atomic_bool mc_atomic_bool
#define atomic_int mc_atomic_int
#define atomic_flag mc_atomic_flag
#define this_thread mc_this_thread
#define string mc_string
#define memcpy vs_memcpy
