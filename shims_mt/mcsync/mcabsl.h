// absl's synchronisation classes on top of the controlled scheduler; the mirror
// of the tree used by the "mt" builds names these instead.
#ifndef VERIF_MCABSL_H_
#define VERIF_MCABSL_H_
#ifdef __cplusplus
#include <functional>

#include "absl/base/attributes.h"
#include "absl/base/const_init.h"
#include "absl/base/thread_annotations.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include <unistd.h>
#include "mcsync/mcstd.h"

// The ways to end the process.
[[noreturn]] void mc_exit(int code);
namespace std {
using ::mc_exit;
}
#ifndef MC_RUNTIME
#define exit mc_exit
#define _exit mc_exit
#define _Exit mc_exit
#define quick_exit mc_exit
#endif

namespace mc {
namespace abslx {
using ::mc::call_once;
using ::mc::once_flag;
namespace mc_internal {
inline int64_t At(absl::Time t) {
  if (t == absl::InfiniteFuture()) return ::mc::rt::kForever;
  return absl::ToUnixNanos(t);
}
inline int64_t After(absl::Duration d) {
  if (d == absl::InfiniteDuration()) return ::mc::rt::kForever;
  int64_t now = ::mc::rt::NowNanos();
  int64_t n = absl::ToInt64Nanoseconds(d);
  if (n > 0 && n > ::mc::rt::kForever - now) return ::mc::rt::kForever;
  return now + n;
}
}  // namespace mc_internal
class Condition {
 public:
  Condition(bool (*f)(void*), void* arg) : f_([f, arg] { return f(arg); }) {}
  template <typename T>
  Condition(bool (*f)(T*), T* arg) : f_([f, arg] { return f(arg); }) {}
  template <typename T>
  Condition(T* o, bool (T::*m)()) : f_([o, m] { return (o->*m)(); }) {}
  template <typename T>
  Condition(const T* o, bool (T::*m)() const) : f_([o, m] { return (o->*m)(); }) {}
  explicit Condition(const bool* b) : f_([b] { return *b; }) {}
  template <typename T, typename E = decltype(static_cast<bool (T::*)() const>(
                            &T::operator()))>
  explicit Condition(const T* obj) : f_([obj] { return (*obj)(); }) {}
  bool Eval() const { return f_(); }
  static bool Call(void* c) { return static_cast<Condition*>(c)->f_(); }

 private:
  std::function<bool()> f_;
};
class CondVar;
class ABSL_LOCKABLE Mutex {
 public:
  Mutex() {}
  explicit constexpr Mutex(absl::ConstInitType) {}
  Mutex(const Mutex&) = delete;
  ~Mutex() { ::mc::rt::LockDestroy(&l_); }
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    ::mc::rt::LockAcquire(&l_, false, false, ::mc::rt::kForever, false, "Lock");
  }
  void Unlock() ABSL_UNLOCK_FUNCTION() {
    ::mc::rt::LockRelease(&l_, false, "Unlock");
  }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    return ::mc::rt::LockAcquire(&l_, false, false, 0, true, "TryLock");
  }
  void AssertHeld() const {
    if (!::mc::rt::LockHeld(&l_, false)) ::mc::rt::Misuse("AssertHeld failed");
  }
  void AssertNotHeld() const {}
  void AssertReaderHeld() const {
    if (!::mc::rt::LockHeld(&l_, true)) ::mc::rt::Misuse("AssertReaderHeld failed");
  }
  void ReaderLock() {
    ::mc::rt::LockAcquire(&l_, true, false, ::mc::rt::kForever, false, "ReaderLock");
  }
  bool ReaderTryLock() {
    return ::mc::rt::LockAcquire(&l_, true, false, 0, true, "ReaderTryLock");
  }
  void ReaderUnlock() { ::mc::rt::LockRelease(&l_, true, "ReaderUnlock"); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  bool WriterTryLock() { return TryLock(); }
  void LockWhen(const Condition& c) {
    ::mc::rt::LockWhen(&l_, false, &Condition::Call, const_cast<Condition*>(&c),
                       ::mc::rt::kForever, "LockWhen");
  }
  void ReaderLockWhen(const Condition& c) {
    ::mc::rt::LockWhen(&l_, true, &Condition::Call, const_cast<Condition*>(&c),
                       ::mc::rt::kForever, "ReaderLockWhen");
  }
  void WriterLockWhen(const Condition& c) { LockWhen(c); }
  bool LockWhenWithDeadline(const Condition& c, absl::Time t) {
    return ::mc::rt::LockWhen(&l_, false, &Condition::Call,
                              const_cast<Condition*>(&c), mc_internal::At(t),
                              "LockWhenWithDeadline");
  }
  bool LockWhenWithTimeout(const Condition& c, absl::Duration d) {
    return ::mc::rt::LockWhen(&l_, false, &Condition::Call,
                              const_cast<Condition*>(&c), mc_internal::After(d),
                              "LockWhenWithTimeout");
  }
  void Await(const Condition& c) {
    if (c.Eval()) return;
    bool shared = l_.owner < 0;
    ::mc::rt::LockRelease(&l_, shared, "Await");
    ::mc::rt::LockWhen(&l_, shared, &Condition::Call, const_cast<Condition*>(&c),
                       ::mc::rt::kForever, "Await");
  }
  bool AwaitWithDeadline(const Condition& c, absl::Time t) {
    return AwaitAt(c, mc_internal::At(t));
  }
  bool AwaitWithTimeout(const Condition& c, absl::Duration d) {
    return AwaitAt(c, mc_internal::After(d));
  }
  void EnableDebugLog(const char*) {}
  void EnableInvariantDebugging(void (*)(void*), void*) {}
  void ForgetDeadlockInfo() {}
  static void InternalAttemptToUseMutexInFatalSignalHandler() {}

 private:
  friend class CondVar;
  bool AwaitAt(const Condition& c, int64_t at) {
    if (c.Eval()) return true;
    bool shared = l_.owner < 0;
    ::mc::rt::LockRelease(&l_, shared, "Await");
    return ::mc::rt::LockWhen(&l_, shared, &Condition::Call,
                              const_cast<Condition*>(&c), at, "Await");
  }
  mutable ::mc::rt::Lock l_;
};
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex* mu) : mu_(mu) { mu_->Lock(); }
  MutexLock(Mutex* mu, const Condition& c) : mu_(mu) { mu_->LockWhen(c); }
  MutexLock(const MutexLock&) = delete;
  ~MutexLock() { mu_->Unlock(); }

 private:
  Mutex* const mu_;
};
class ABSL_SCOPED_LOCKABLE ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* mu) : mu_(mu) { mu_->ReaderLock(); }
  ReaderMutexLock(Mutex* mu, const Condition& c) : mu_(mu) {
    mu_->ReaderLockWhen(c);
  }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
  ~ReaderMutexLock() { mu_->ReaderUnlock(); }

 private:
  Mutex* const mu_;
};
class ABSL_SCOPED_LOCKABLE WriterMutexLock {
 public:
  explicit WriterMutexLock(Mutex* mu) : mu_(mu) { mu_->Lock(); }
  WriterMutexLock(Mutex* mu, const Condition& c) : mu_(mu) { mu_->LockWhen(c); }
  WriterMutexLock(const WriterMutexLock&) = delete;
  ~WriterMutexLock() { mu_->Unlock(); }

 private:
  Mutex* const mu_;
};
class MutexLockMaybe {
 public:
  explicit MutexLockMaybe(Mutex* mu) : mu_(mu) {
    if (mu_) mu_->Lock();
  }
  ~MutexLockMaybe() {
    if (mu_) mu_->Unlock();
  }

 private:
  Mutex* const mu_;
};
class ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* mu) : mu_(mu) { mu_->Lock(); }
  ReleasableMutexLock(Mutex* mu, const Condition& c) : mu_(mu) {
    mu_->LockWhen(c);
  }
  ~ReleasableMutexLock() {
    if (mu_) mu_->Unlock();
  }
  void Release() {
    mu_->Unlock();
    mu_ = nullptr;
  }

 private:
  Mutex* mu_;
};
class CondVar {
 public:
  CondVar() {}
  CondVar(const CondVar&) = delete;
  ~CondVar() { ::mc::rt::CvDestroy(&cv_); }
  void Wait(Mutex* mu) { ::mc::rt::CvWait(&cv_, &mu->l_, ::mc::rt::kForever); }
  bool WaitWithTimeout(Mutex* mu, absl::Duration d) {
    return ::mc::rt::CvWait(&cv_, &mu->l_, mc_internal::After(d));
  }
  bool WaitWithDeadline(Mutex* mu, absl::Time t) {
    return ::mc::rt::CvWait(&cv_, &mu->l_, mc_internal::At(t));
  }
  void Signal() { ::mc::rt::CvSignal(&cv_, false); }
  void SignalAll() { ::mc::rt::CvSignal(&cv_, true); }
  void EnableDebugLog(const char*) {}

 private:
  ::mc::rt::Cv cv_;
};
class Notification {
 public:
  Notification() {}
  explicit Notification(bool pre) : done_(pre) {}
  Notification(const Notification&) = delete;
  ~Notification() { ::mc::rt::Forget(this); }
  MC_NOTSAN bool HasBeenNotified() const {
    ::mc::rt::Point(this, "HasBeenNotified");
    if (done_) ::mc::rt::Observe(this);
    return done_;
  }
  void WaitForNotification() const { Wait(::mc::rt::kForever); }
  bool WaitForNotificationWithTimeout(absl::Duration d) const {
    return Wait(mc_internal::After(d));
  }
  bool WaitForNotificationWithDeadline(absl::Time t) const {
    return Wait(mc_internal::At(t));
  }
  MC_NOTSAN void Notify() {
    ::mc::rt::Point(this, "Notify");
    if (done_) ::mc::rt::Misuse("Notify() called twice");
    done_ = true;
    ::mc::rt::Publish(this);
  }

 private:
  bool Wait(int64_t at) const {
    return ::mc::rt::WaitFor(
        this,
        [](void* p) MC_NOTSAN { return static_cast<Notification*>(p)->done_; },
        const_cast<Notification*>(this), at, "WaitForNotification");
  }
  bool done_ = false;
};
class BlockingCounter {
 public:
  explicit BlockingCounter(int n) : n_(n) {}
  BlockingCounter(const BlockingCounter&) = delete;
  ~BlockingCounter() { ::mc::rt::Forget(this); }
  MC_NOTSAN bool DecrementCount() {
    ::mc::rt::Point(this, "DecrementCount");
    if (n_ <= 0) ::mc::rt::Misuse("BlockingCounter decremented below zero");
    ::mc::rt::Publish(this);
    return --n_ == 0;
  }
  void Wait() {
    ::mc::rt::WaitFor(
        this,
        [](void* p) MC_NOTSAN { return static_cast<BlockingCounter*>(p)->n_ == 0; },
        this, ::mc::rt::kForever, "BlockingCounter::Wait");
  }

 private:
  int n_;
};
class Barrier {
 public:
  explicit Barrier(int n) : n_(n), left_(n) {}
  MC_NOTSAN bool Block() {
    ::mc::rt::Point(this, "Barrier::Block");
    --n_;
    ::mc::rt::Publish(this);
    ::mc::rt::WaitFor(
        this, [](void* p) MC_NOTSAN { return static_cast<Barrier*>(p)->n_ <= 0; },
        this, ::mc::rt::kForever, "Barrier::Block");
    return --left_ == 0;
  }

 private:
  int n_, left_;
};
}  // namespace abslx
}  // namespace mc
#endif
#endif
