// Controlled stand-ins for the standard threading primitives.  The mirror of
// the tree used by the "mt" builds names these instead of the std:: ones, so
// every synchronisation operation goes through the scheduler of mcsched.cc.
#ifndef VERIF_MCSTD_H_
#define VERIF_MCSTD_H_
#ifdef __cplusplus
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>

#define MC_NOTSAN __attribute__((no_sanitize("thread")))

namespace mc {
// Thrown in place of ending the process inside a controlled run.
struct ProcessExit {
  int code;
};
namespace rt {
constexpr int64_t kForever = INT64_MAX;
struct Lock {  // mutex state; all of it is manipulated by the runtime
  int owner = -1;
  int depth = 0;
  int readers = 0;
};
struct Cv {
  int waiters = 0;
};
// order: the std::memory_order of the operation
void AtomicPoint(const void* a, const char* what);
void AtomicSync(const void* a, int order, bool reads, bool writes);
void Fence(int order);
bool LockAcquire(Lock* l, bool shared, bool recursive, int64_t deadline,
                 bool try_only, const char* what);
void LockRelease(Lock* l, bool shared, const char* what);
void LockDestroy(Lock* l);
bool LockHeld(Lock* l, bool shared);
// Blocks until `ready` holds with the lock free, then takes it.
bool LockWhen(Lock* l, bool shared, bool (*ready)(void*), void* arg,
              int64_t deadline, const char* what);
bool CvWait(Cv* cv, Lock* l, int64_t deadline);  // true: timed out
void CvSignal(Cv* cv, bool all);
void CvDestroy(Cv* cv);
// Blocks until ready(arg); false on timeout.  Acquires what Publish(obj) released.
bool WaitFor(const void* obj, bool (*ready)(void*), void* arg, int64_t deadline,
             const char* what);
void Point(const void* obj, const char* what);
void Publish(const void* obj);
void Observe(const void* obj);
void Forget(const void* obj);
int Spawn(std::function<void()> fn);
void Join(int id);
void Yield();
void SleepNanos(int64_t n);
int64_t NowNanos();
int Self();
[[noreturn]] void Misuse(const char* what);
}  // namespace rt

template <typename T>
class atomic {
 public:
  atomic() noexcept : v_() {}
  constexpr atomic(T v) noexcept : v_(v) {}
  atomic(const atomic&) = delete;
  atomic& operator=(const atomic&) = delete;
  ~atomic() = default;
  static constexpr bool is_always_lock_free = true;
  bool is_lock_free() const { return true; }
  MC_NOTSAN T load(std::memory_order o = std::memory_order_seq_cst) const {
    rt::AtomicPoint(this, "atomic load");
    T r = v_;
    rt::AtomicSync(this, o, true, false);
    return r;
  }
  MC_NOTSAN void store(T v, std::memory_order o = std::memory_order_seq_cst) {
    rt::AtomicPoint(this, "atomic store");
    v_ = v;
    rt::AtomicSync(this, o, false, true);
  }
  MC_NOTSAN T exchange(T v, std::memory_order o = std::memory_order_seq_cst) {
    rt::AtomicPoint(this, "atomic exchange");
    T r = v_;
    v_ = v;
    rt::AtomicSync(this, o, true, true);
    return r;
  }
  MC_NOTSAN bool compare_exchange_strong(
      T& e, T d, std::memory_order o = std::memory_order_seq_cst) {
    rt::AtomicPoint(this, "atomic compare_exchange");
    bool ok = v_ == e;
    if (ok) {
      v_ = d;
    } else {
      e = v_;
    }
    rt::AtomicSync(this, o, true, ok);
    return ok;
  }
  bool compare_exchange_strong(T& e, T d, std::memory_order a,
                               std::memory_order) {
    return compare_exchange_strong(e, d, a);
  }
  bool compare_exchange_weak(T& e, T d,
                             std::memory_order a = std::memory_order_seq_cst) {
    return compare_exchange_strong(e, d, a);
  }
  bool compare_exchange_weak(T& e, T d, std::memory_order a,
                             std::memory_order) {
    return compare_exchange_strong(e, d, a);
  }
  operator T() const { return load(); }
  T operator=(T v) {
    store(v);
    return v;
  }
#define MC_ATOMIC_RMW(name, expr)                                            \
  template <typename D>                                                      \
  MC_NOTSAN T name(D d, std::memory_order o = std::memory_order_seq_cst) {   \
    rt::AtomicPoint(this, "atomic " #name);                                  \
    T r = v_;                                                                \
    v_ = expr;                                                               \
    rt::AtomicSync(this, o, true, true);                                     \
    return r;                                                                \
  }
  MC_ATOMIC_RMW(fetch_add, static_cast<T>(r + d))
  MC_ATOMIC_RMW(fetch_sub, static_cast<T>(r - d))
  MC_ATOMIC_RMW(fetch_or, static_cast<T>(r | d))
  MC_ATOMIC_RMW(fetch_and, static_cast<T>(r & d))
  MC_ATOMIC_RMW(fetch_xor, static_cast<T>(r ^ d))
#undef MC_ATOMIC_RMW
  T operator++() { return static_cast<T>(fetch_add(1) + 1); }
  T operator++(int) { return fetch_add(1); }
  T operator--() { return static_cast<T>(fetch_sub(1) - 1); }
  T operator--(int) { return fetch_sub(1); }
  template <typename D>
  T operator+=(D d) { return static_cast<T>(fetch_add(d) + d); }
  template <typename D>
  T operator-=(D d) { return static_cast<T>(fetch_sub(d) - d); }
  template <typename D>
  T operator|=(D d) { return static_cast<T>(fetch_or(d) | d); }
  template <typename D>
  T operator&=(D d) { return static_cast<T>(fetch_and(d) & d); }

 private:
  T v_;
};
using atomic_bool = atomic<bool>;
using atomic_int = atomic<int>;
using atomic_uint = atomic<unsigned>;
using atomic_size_t = atomic<size_t>;
using atomic_int64_t = atomic<int64_t>;
using atomic_uint64_t = atomic<uint64_t>;
class atomic_flag {
 public:
  constexpr atomic_flag() noexcept : v_(false) {}
  constexpr atomic_flag(bool b) noexcept : v_(b) {}
  bool test_and_set(std::memory_order o = std::memory_order_seq_cst) {
    return v_.exchange(true, o);
  }
  void clear(std::memory_order o = std::memory_order_seq_cst) {
    v_.store(false, o);
  }
  bool test(std::memory_order o = std::memory_order_seq_cst) const {
    return v_.load(o);
  }

 private:
  atomic<bool> v_;
};
inline void atomic_thread_fence(std::memory_order o) { rt::Fence(o); }

namespace rt {
template <typename D>
int64_t DeadlineAfter(D d) {
  auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
  int64_t now = NowNanos();
  return n > kForever - now ? kForever : now + n;
}
template <typename C, typename D>
int64_t DeadlineAt(const std::chrono::time_point<C, D>& t) {
  return DeadlineAfter(t - C::now());
}
template <bool kRecursive>
class BasicMutex {
 public:
  constexpr BasicMutex() noexcept {}
  BasicMutex(const BasicMutex&) = delete;
  ~BasicMutex() { LockDestroy(&l_); }
  void lock() { LockAcquire(&l_, false, kRecursive, kForever, false, "lock"); }
  bool try_lock() {
    return LockAcquire(&l_, false, kRecursive, 0, true, "try_lock");
  }
  template <typename D>
  bool try_lock_for(const D& d) {
    return LockAcquire(&l_, false, kRecursive, DeadlineAfter(d), false,
                       "try_lock_for");
  }
  void unlock() { LockRelease(&l_, false, "unlock"); }
  void lock_shared() { LockAcquire(&l_, true, false, kForever, false, "lock_shared"); }
  bool try_lock_shared() {
    return LockAcquire(&l_, true, false, 0, true, "try_lock_shared");
  }
  void unlock_shared() { LockRelease(&l_, true, "unlock_shared"); }
  Lock l_;
};
}  // namespace rt
class mutex : public rt::BasicMutex<false> {};
class timed_mutex : public rt::BasicMutex<false> {};
class shared_mutex : public rt::BasicMutex<false> {};
class recursive_mutex : public rt::BasicMutex<true> {};

class condition_variable {
 public:
  condition_variable() {}
  condition_variable(const condition_variable&) = delete;
  ~condition_variable() { rt::CvDestroy(&cv_); }
  void notify_one() { rt::CvSignal(&cv_, false); }
  void notify_all() { rt::CvSignal(&cv_, true); }
  template <typename L>
  void wait(L& l) {
    rt::CvWait(&cv_, &l.mutex()->l_, rt::kForever);
  }
  template <typename L, typename P>
  void wait(L& l, P p) {
    while (!p()) wait(l);
  }
  template <typename L, typename D>
  std::cv_status wait_for(L& l, const D& d) {
    return rt::CvWait(&cv_, &l.mutex()->l_, rt::DeadlineAfter(d))
               ? std::cv_status::timeout
               : std::cv_status::no_timeout;
  }
  template <typename L, typename D, typename P>
  bool wait_for(L& l, const D& d, P p) {
    int64_t at = rt::DeadlineAfter(d);
    while (!p())
      if (rt::CvWait(&cv_, &l.mutex()->l_, at)) return p();
    return true;
  }
  template <typename L, typename T>
  std::cv_status wait_until(L& l, const T& t) {
    return rt::CvWait(&cv_, &l.mutex()->l_, rt::DeadlineAt(t))
               ? std::cv_status::timeout
               : std::cv_status::no_timeout;
  }
  template <typename L, typename T, typename P>
  bool wait_until(L& l, const T& t, P p) {
    int64_t at = rt::DeadlineAt(t);
    while (!p())
      if (rt::CvWait(&cv_, &l.mutex()->l_, at)) return p();
    return true;
  }

 private:
  rt::Cv cv_;
};

class thread {
 public:
  using id = int;
  thread() noexcept = default;
  template <typename F, typename... A,
            typename = std::enable_if_t<
                !std::is_same<std::decay_t<F>, thread>::value>>
  explicit thread(F&& f, A&&... a) {
    auto call = std::make_shared<
        std::tuple<std::decay_t<F>, std::decay_t<A>...>>(
        std::forward<F>(f), std::forward<A>(a)...);
    id_ = rt::Spawn([call] {
      std::apply(
          [](auto&& fn, auto&&... args) {
            std::invoke(std::move(fn), std::move(args)...);
          },
          std::move(*call));
    });
  }
  thread(thread&& o) noexcept : id_(o.id_) { o.id_ = -1; }
  thread& operator=(thread&& o) {
    if (joinable()) rt::Misuse("a running thread object was overwritten");
    id_ = o.id_;
    o.id_ = -1;
    return *this;
  }
  ~thread() noexcept(false) {
    if (joinable()) rt::Misuse("a running thread object was destroyed");
  }
  bool joinable() const noexcept { return id_ >= 0; }
  void join() {
    if (!joinable()) rt::Misuse("join() of a thread that is not joinable");
    int i = id_;
    id_ = -1;
    rt::Join(i);
  }
  void detach() { id_ = -1; }
  id get_id() const { return id_; }
  static unsigned hardware_concurrency() noexcept { return 4; }

 private:
  int id_ = -1;
};
struct once_flag {
  int state = 0;  // 0 new, 1 running, 2 done
};
template <typename F, typename... A>
MC_NOTSAN void call_once(once_flag& f, F&& fn, A&&... a) {
  rt::Point(&f, "call_once");
  if (f.state == 1)
    rt::WaitFor(&f, [](void* p) { return static_cast<once_flag*>(p)->state == 2; },
                &f, rt::kForever, "call_once");
  if (f.state == 2) {
    rt::Observe(&f);
    return;
  }
  f.state = 1;
  std::invoke(std::forward<F>(fn), std::forward<A>(a)...);
  f.state = 2;
  rt::Publish(&f);
}
namespace this_thread {
inline int get_id() { return rt::Self(); }
inline void yield() { rt::Yield(); }
template <typename D>
void sleep_for(const D& d) {
  rt::SleepNanos(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count());
}
template <typename T>
void sleep_until(const T& t) {
  rt::SleepNanos(rt::DeadlineAt(t) - rt::NowNanos());
}
}  // namespace this_thread
}  // namespace mc
#endif
#endif
