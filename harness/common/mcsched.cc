#include "common/mcsched.h"

#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <unordered_map>
#include <vector>

#include "absl/log/absl_log.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __executable_start;
extern char end;
}

namespace mc {
namespace rt {
namespace {

constexpr int kMax = 12;
struct Clock {
  uint32_t c[kMax];
};
void JoinClock(Clock* a, const Clock& b) {
  for (int i = 0; i < kMax; ++i)
    if (b.c[i] > a->c[i]) a->c[i] = b.c[i];
}

struct Sem {
  std::atomic<int> v{0};
  void Post() {
    v.store(1, std::memory_order_release);
    syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
  }
  void Wait() {
    while (v.exchange(0, std::memory_order_acquire) == 0)
      syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
};

enum State { kUnused, kRunnable, kBlocked, kDone };
struct Thread {
  int id;
  pthread_t th;
  Sem sem;
  Sem bye;
  std::function<void()> fn;
  State state = kUnused;
  std::function<bool()> ready;
  int64_t deadline = kForever;
  bool spurious_ok = false;
  bool signalled = false;  // condition variables
  const void* cv = nullptr;
  uint64_t cv_order = 0;
  bool timed_out = false;
  bool kill = false;
  const char* what = "";
  const void* obj = nullptr;
  Clock vc;
  // busy-wait detection
  const void* last_obj = nullptr;
  int same = 0;
};
struct Killed {};

struct Exec {
  Ctx* ctx = nullptr;
  sched::RunOptions o;
  Thread t[kMax];
  int n = 0;
  Sem controller;
  bool failed = false;
  bool pruned = false;
  std::string message;
  int points = 0;
  int run_alone = 0;  // points since another thread last ran
  int64_t now = 0;
  uint64_t cv_seq = 0;
  bool ending = false;
  std::unordered_map<const void*, Clock> clocks;
  std::vector<int> log;
};
Exec* g = nullptr;
bool g_tracking = false;
int64_t g_now = 1'000'000'000LL * 1000;
thread_local Thread* self = nullptr;
thread_local int in_rt = 0;
struct Rt {
  Rt() { ++in_rt; }
  ~Rt() { --in_rt; }
};

// ---------------------------------------------------------------- memory
struct Cell {
  uintptr_t key;
  uint32_t gen;
  bool freed;
  uint8_t wm[kMax];
  uint8_t rm[kMax];
  uint32_t w[kMax];
  uint32_t r[kMax];
  const void* wpc;
  const void* rpc;
};
struct Shadow {
  Cell* a = nullptr;
  size_t cap = 0, used = 0;
  uint32_t gen = 0;
};
Shadow sh;
void ShadowAlloc(size_t cap) {
  sh.a = static_cast<Cell*>(calloc(cap, sizeof(Cell)));
  sh.cap = cap;
  sh.used = 0;
}
size_t Hash(uintptr_t k) { return (k * 0x9E3779B97F4A7C15ull) >> 20; }
Cell* Find(uintptr_t key, bool create) {
  if (!sh.a) ShadowAlloc(1 << 14);
  if (create && sh.used * 2 > sh.cap) {
    Cell* old = sh.a;
    size_t oc = sh.cap;
    ShadowAlloc(oc * 4);
    for (size_t i = 0; i < oc; ++i)
      if (old[i].gen == sh.gen) {
        size_t j = Hash(old[i].key) & (sh.cap - 1);
        while (sh.a[j].gen == sh.gen) j = (j + 1) & (sh.cap - 1);
        sh.a[j] = old[i];
        ++sh.used;
      }
    __libc_free(old);
  }
  size_t i = Hash(key) & (sh.cap - 1);
  while (sh.a[i].gen == sh.gen) {
    if (sh.a[i].key == key) return &sh.a[i];
    i = (i + 1) & (sh.cap - 1);
  }
  if (!create) return nullptr;
  Cell* c = &sh.a[i];
  memset(c, 0, sizeof *c);
  c->key = key;
  c->gen = sh.gen;
  ++sh.used;
  return c;
}
std::vector<void*>* quarantine;

std::string Where(const void* pc) {
  char buf[512];
  uintptr_t off = reinterpret_cast<uintptr_t>(pc) -
                  reinterpret_cast<uintptr_t>(&__executable_start) - 1;
  static char exe[4096];
  ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (k > 0) {
    exe[k] = 0;
    snprintf(buf, sizeof buf, "addr2line -Cfsp -e '%s' 0x%zx 2>/dev/null", exe,
             static_cast<size_t>(off));
    if (FILE* f = popen(buf, "r")) {
      std::string out;
      char line[400];
      if (fgets(line, sizeof line, f)) out = line;
      pclose(f);
      while (!out.empty() && out.back() == '\n') out.pop_back();
      if (!out.empty() && out.compare(0, 2, "??") != 0) return out;
    }
  }
  snprintf(buf, sizeof buf, "+0x%zx", static_cast<size_t>(off));
  return buf;
}

[[noreturn]] void FailNow(const std::string& m);

void Access(uintptr_t addr, size_t size, bool write, const void* pc) {
  Thread* me = self;
  Rt rt;
  while (size > 0) {
    uintptr_t key = addr >> 3;
    unsigned off = addr & 7;
    size_t take = std::min<size_t>(8 - off, size);
    uint8_t mask = static_cast<uint8_t>(((1u << take) - 1) << off);
    Cell* c = Find(key, true);
    if (c->freed)
      FailNow(std::string("memory used after it was freed, at ") + Where(pc));
    for (int u = 0; u < g->n; ++u) {
      if (u == me->id) continue;
      if ((c->wm[u] & mask) && c->w[u] > me->vc.c[u])
        FailNow(std::string("data race: ") + (write ? "write" : "read") +
                " at " + Where(pc) + " is unordered with a write at " +
                Where(c->wpc));
      if (write && (c->rm[u] & mask) && c->r[u] > me->vc.c[u])
        FailNow("data race: write at " + Where(pc) +
                " is unordered with a read at " + Where(c->rpc));
    }
    int t = me->id;
    uint32_t now = me->vc.c[t];
    if (write) {
      c->wm[t] = c->w[t] == now ? c->wm[t] | mask : mask;
      c->w[t] = now;
      c->wpc = pc;
    } else {
      c->rm[t] = c->r[t] == now ? c->rm[t] | mask : mask;
      c->r[t] = now;
      c->rpc = pc;
    }
    addr += take;
    size -= take;
  }
}
inline bool Tracking() { return g_tracking && self && !in_rt && !self->kill; }

void Tick(Thread* t) { ++t->vc.c[t->id]; }

// ------------------------------------------------------------- scheduling
void WakeController() { g->controller.Post(); }

// Reports a violation.  Nothing is unwound: the threads stay where they are and
// the controller, which owns the execution, takes over.
[[noreturn]] void FailNow(const std::string& m) {
  if (!self) throw Violation{m};
  ++in_rt;
  g->failed = true;
  g->message = m;
  g_tracking = false;
  WakeController();
  for (;;) pause();
}

void Switch(Thread* from, Thread* to) {
  // hand the token over; the caller waits if it is not finished
  to->sem.Post();
  if (from->state != kDone) from->sem.Wait();
}

bool Enabled(Thread& t) {
  if (t.state == kRunnable) return true;
  if (t.state != kBlocked) return false;
  if (t.deadline <= g->now) return true;
  return t.ready && t.ready();
}

std::string Describe() {
  std::string s;
  for (int i = 0; i < g->n; ++i) {
    Thread& t = g->t[i];
    if (t.state != kBlocked) continue;
    if (!s.empty()) s += "; ";
    s += "thread " + std::to_string(i) + " waits in " + t.what;
  }
  return s;
}

// Decides who runs next.  `me` is the thread giving up the token (it may be
// able to continue).  Returns null when nothing is left to run.
Thread* Decide(Thread* me, bool must_yield) {
  std::vector<Thread*> en;
  if (me->state != kDone && !must_yield && Enabled(*me)) en.push_back(me);
  bool cont = !en.empty();
  for (int k = 1; k < g->n; ++k) {
    Thread& t = g->t[(me->id + k) % g->n];
    if (Enabled(t)) en.push_back(&t);
  }
  if (must_yield && en.empty() && me->state != kDone && Enabled(*me)) {
    en.push_back(me);
    // Nobody else can run: a busy wait makes time pass.
    int64_t d = kForever;
    for (int i = 0; i < g->n; ++i)
      if (g->t[i].state == kBlocked && g->t[i].deadline < d)
        d = g->t[i].deadline;
    if (d != kForever && d > g->now) {
      g->now = d;
      for (int i = 0; i < g->n; ++i)
        if (&g->t[i] != me && Enabled(g->t[i])) en.insert(en.begin(), &g->t[i]);
    }
  }
  // the earliest timer
  Thread* timer = nullptr;
  for (int i = 0; i < g->n; ++i) {
    Thread& t = g->t[i];
    if (t.state == kBlocked && t.deadline != kForever && t.deadline > g->now &&
        (!timer || t.deadline < timer->deadline))
      timer = &t;
  }
  if (timer && std::find(en.begin(), en.end(), timer) != en.end()) {
    // ready anyway; letting the time pass first is not interesting
    timer = nullptr;
  }
  if (en.empty()) {
    if (!timer) return nullptr;
    g->now = timer->deadline;
    return timer;
  }
  if (!g->ending) {
    std::vector<Thread*> spur;
    if (g->o.spurious)
      for (int i = 0; i < g->n; ++i) {
        Thread& t = g->t[i];
        if (t.state == kBlocked && t.spurious_ok && !Enabled(t))
          spur.push_back(&t);
      }
    if (cont) {
      int n = en.size() + (timer ? 1 : 0) + spur.size();
      if (n > 1) {
        int c = g->ctx->Choose(n, "preempt", 1);
        if (c < static_cast<int>(en.size())) return en[c];
        c -= en.size();
        if (timer) {
          if (c == 0) {
            g->now = timer->deadline;
            return timer;
          }
          --c;
        }
        spur[c]->signalled = true;
        return Enabled(*spur[c]) ? spur[c] : en[0];
      }
      return en[0];
    }
    int extra = (timer ? 1 : 0) + spur.size();
    if (extra > 0) {
      int c = g->ctx->Choose(1 + extra, "early wake-up", 1);
      if (c > 0) {
        --c;
        if (timer) {
          if (c == 0) {
            g->now = timer->deadline;
            return timer;
          }
          --c;
        }
        spur[c]->signalled = true;
        return Enabled(*spur[c]) ? spur[c] : en[0];
      }
    }
    if (en.size() > 1) 
      return en[g->ctx->Choose(en.size(), "next thread", g->o.switch_cost)];
  }
  return en[0];
}

void OnPoint(const void* obj, const char* what) {
  Thread* me = self;
  if (++g->points > g->o.max_points)
    FailNow("no progress: more than " + std::to_string(g->o.max_points) +
            " synchronisation operations; last: " + what);
  g->ctx->Steps(1);
  if (g->ctx->keep_trace_)
    g->ctx->Note("thread " + std::to_string(me->id) + ": " + what);
  if (obj == me->last_obj && g->run_alone > 0) {
    ++me->same;
  } else {
    me->same = 0;
  }
  me->last_obj = obj;
  ++g->run_alone;
}
void CheckFreed(const void* obj) {
  if (!obj) return;
  Cell* c = Find(reinterpret_cast<uintptr_t>(obj) >> 3, false);
  if (c && c->freed)
    FailNow("a synchronisation object was used after it was freed");
}

void Reschedule(bool must_yield) {
  Thread* me = self;
  Thread* to = Decide(me, must_yield);
  if (to == me) return;
  g->run_alone = 0;
  me->same = 0;
  Switch(me, to);
  if (me->kill) throw Killed();
}

void Block(std::function<bool()> ready, int64_t deadline, const char* what,
           const void* obj, bool spurious_ok) {
  Thread* me = self;
  me->ready = std::move(ready);
  me->deadline = deadline;
  me->what = what;
  me->obj = obj;
  me->spurious_ok = spurious_ok;
  me->state = kBlocked;
  Thread* to = Decide(me, false);
  if (!to) {
    me->state = kBlocked;
    if (g->t[0].state != kDone) {
      FailNow("deadlock: " + Describe());
    }
    // quiescent: give the token back to the controller
    WakeController();
    me->sem.Wait();
    if (me->kill) {
      me->state = kRunnable;
      throw Killed();
    }
  } else if (to != me) {
    g->run_alone = 0;
    Switch(me, to);
    if (me->kill) {
      me->state = kRunnable;
      throw Killed();
    }
  }
  me->timed_out = !(me->ready && me->ready());
  me->state = kRunnable;
  me->ready = nullptr;
  me->deadline = kForever;
  me->spurious_ok = false;
}

void ThreadRun(Thread* me) {
  self = me;
  me->sem.Wait();
  if (!me->kill) {
    std::string msg;
    bool failed = false, pruned = false;
    try {
      me->fn();
      me->fn = nullptr;
      {
        Rt rt;
        // the end of a thread is published to those joining it
        g->clocks[me] = me->vc;
      }
    } catch (const Violation& v) {
      failed = true;
      msg = v.message;
    } catch (const Pruned&) {
      pruned = true;
    } catch (const mc_fatal::Fatal& f) {
      failed = true;
      msg = "the code under test terminated the process: " + f.message;
    } catch (const Killed&) {
    } catch (const std::exception& e) {
      failed = true;
      msg = std::string("uncaught exception in a thread: ") + e.what();
    }
    Rt rt;
    me->state = kDone;
    if (!me->kill) {
      if (failed || pruned) {
        g->failed = failed;
        g->pruned = pruned;
        g->message = msg;
        WakeController();
      } else {
        Thread* to = nullptr;
        try {
          to = Decide(me, false);
          if (!to && g->t[0].state != kDone) {
            g->failed = true;
            g->message = "deadlock: " + Describe();
          }
        } catch (const Violation& v) {
          g->failed = true;
          g->message = v.message;
          to = nullptr;
        }
        if (to) {
          g->run_alone = 0;
          to->sem.Post();
        } else {
          WakeController();
        }
      }
    } else {
      WakeController();
    }
  } else {
    me->state = kDone;
    WakeController();
  }
  me->fn = nullptr;
  me->bye.Wait();  // thread-local destructors run one thread after another
  self = nullptr;
}
void* ThreadMain(void* p) {
  ThreadRun(static_cast<Thread*>(p));
  return nullptr;
}
// System threads that serve one execution after another (unless the code under
// test keeps thread-local state).
struct OsThread {
  bool started = false;
  Sem go, done;
  Thread* job = nullptr;
};
OsThread pool[kMax];
pid_t pool_pid = 0;
void* PoolMain(void* p) {
  auto* o = static_cast<OsThread*>(p);
  for (;;) {
    o->go.Wait();
    ThreadRun(o->job);
    o->done.Post();
  }
}

int Start(std::function<void()> fn, Thread* parent) {
  if (g->n >= kMax) FailNow("too many threads for the harness");
  Thread& t = g->t[g->n];
  t.id = g->n;
  t.fn = std::move(fn);
  t.state = kRunnable;
  memset(&t.vc, 0, sizeof t.vc);
  if (parent) {
    t.vc = parent->vc;
    Tick(parent);
  }
  t.vc.c[t.id] = 1;
  ++g->n;
  OsThread* os = g->o.fresh_threads ? nullptr : &pool[t.id];
  if (os && os->started) {
    os->job = &t;
    os->go.Post();
    return t.id;
  }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  if (os) {
    os->started = true;
    os->job = &t;
    os->go.Post();
  }
  if (pthread_create(&t.th, &at, os ? PoolMain : ThreadMain,
                     os ? static_cast<void*>(os) : &t) != 0) {
    fprintf(stderr, "MC-INTERNAL: pthread_create\n");
    _exit(3);
  }
  pthread_attr_destroy(&at);
  return t.id;
}
std::vector<uint8_t*>* guards;

bool Live() { return g && self && !self->kill; }
}  // namespace

// ---------------------------------------------------------- primitives
void Point(const void* obj, const char* what) {
  if (!Live()) return;
  Rt rt;
  OnPoint(obj, what);
  CheckFreed(obj);
  Reschedule(self->same > 16);
}
void AtomicPoint(const void* a, const char* what) { Point(a, what); }
void AtomicSync(const void* a, int order, bool reads, bool writes) {
  if (!Live()) return;
  Rt rt;
  bool acq = order == std::memory_order_acquire ||
             order == std::memory_order_consume ||
             order == std::memory_order_acq_rel ||
             order == std::memory_order_seq_cst;
  bool rel = order == std::memory_order_release ||
             order == std::memory_order_acq_rel ||
             order == std::memory_order_seq_cst;
  auto it = g->clocks.find(a);
  if (reads && acq && it != g->clocks.end()) JoinClock(&self->vc, it->second);
  if (writes) {
    if (rel) {
      Clock& c = g->clocks[a];
      if (reads) {
        JoinClock(&c, self->vc);
      } else {
        c = self->vc;
      }
      Tick(self);
    } else if (!reads && it != g->clocks.end()) {
      // a relaxed store ends the release sequence
      memset(&it->second, 0, sizeof it->second);
    }
  }
}
void Fence(int) {
  if (!Live()) return;
  Rt rt;
  Point(nullptr, "fence");
  static char fence;
  Observe(&fence);
  Publish(&fence);
}
void Publish(const void* obj) {
  if (!Live()) return;
  Rt rt;
  JoinClock(&g->clocks[obj], self->vc);
  Tick(self);
}
void Observe(const void* obj) {
  if (!Live()) return;
  Rt rt;
  auto it = g->clocks.find(obj);
  if (it != g->clocks.end()) JoinClock(&self->vc, it->second);
}
void Forget(const void* obj) {
  if (!Live()) return;
  Rt rt;
  g->clocks.erase(obj);
}

static bool Free(Lock* l, bool shared) {
  return l->owner == -1 && (shared || l->readers == 0);
}
static void Take(Lock* l, bool shared, int who) {
  if (shared) {
    ++l->readers;
  } else {
    l->owner = who;
    l->depth = 1;
  }
}
bool LockAcquire(Lock* l, bool shared, bool recursive, int64_t deadline,
                 bool try_only, const char* what) {
  if (!Live()) {
    if (g && self) return true;  // being torn down
    if (recursive && l->owner == -2) {
      ++l->depth;
      return true;
    }
    if (!Free(l, shared)) {
      if (try_only) return false;
      throw Violation{"deadlock: a lock is taken again by the thread that holds it"};
    }
    Take(l, shared, -2);
    return true;
  }
  Rt rt;
  int me = self->id;
  if (recursive && l->owner == me) {
    ++l->depth;
    return true;
  }
  Point(l, what);
  if (!Free(l, shared)) {
    if (try_only) return false;
    if (l->owner == me && !shared)
      FailNow("deadlock: a thread locks a mutex that it already holds");
    Block([l, shared] { return Free(l, shared); }, deadline, what, l, false);
    CheckFreed(l);
    if (self->timed_out) return false;
  }
  Take(l, shared, me);
  Observe(l);
  if (!shared) Observe(&l->readers);
  return true;
}
void LockRelease(Lock* l, bool shared, const char* what) {
  if (!Live()) {
    if (g && self) return;
    if (shared) {
      --l->readers;
    } else if (--l->depth <= 0) {
      l->owner = -1;
    }
    return;
  }
  Rt rt;
  if (std::uncaught_exceptions() == 0) CheckFreed(l);
  if (shared) {
    if (l->readers <= 0) Misuse("a shared lock is released that is not held");
    --l->readers;
    Publish(&l->readers);
  } else {
    if (l->owner != self->id) {
      if (std::uncaught_exceptions() > 0) return;
      Misuse("a mutex is unlocked by a thread that does not hold it");
    }
    if (--l->depth > 0) return;
    l->owner = -1;
    g->clocks[l] = self->vc;
    Tick(self);
  }
}
void LockDestroy(Lock* l) {
  if (!Live()) return;
  Rt rt;
  if (std::uncaught_exceptions() == 0 && (l->owner >= 0 || l->readers > 0))
    Misuse("a mutex is destroyed while it is held");
  for (int i = 0; i < g->n; ++i)
    if (g->t[i].state == kBlocked && g->t[i].obj == l)
      Misuse("a mutex is destroyed while a thread waits for it");
  g->clocks.erase(l);
  g->clocks.erase(&l->readers);
}
bool LockHeld(Lock* l, bool shared) {
  if (!Live()) return true;
  return l->owner == self->id || (shared && l->readers > 0);
}
bool LockWhen(Lock* l, bool shared, bool (*ready)(void*), void* arg,
              int64_t deadline, const char* what) {
  if (!Live()) {
    if (g && self) return true;
    if (!Free(l, shared) || !ready(arg)) {
      if (deadline == kForever)
        throw Violation{"deadlock: the only thread waits for a condition"};
      Take(l, shared, -2);
      return ready(arg);
    }
    Take(l, shared, -2);
    return true;
  }
  Rt rt;
  Point(l, what);
  if (!(Free(l, shared) && ready(arg))) {
    Block([l, shared, ready, arg] { return Free(l, shared) && ready(arg); },
          deadline, what, l, false);
    CheckFreed(l);
    if (self->timed_out) {
      // the lock is taken even on a timeout
      if (!Free(l, shared))
        Block([l, shared] { return Free(l, shared); }, kForever, what, l, false);
      Take(l, shared, self->id);
      Observe(l);
      if (!shared) Observe(&l->readers);
      return ready(arg);
    }
  }
  Take(l, shared, self->id);
  Observe(l);
  if (!shared) Observe(&l->readers);
  return true;
}
bool CvWait(Cv* cv, Lock* l, int64_t deadline) {
  if (!Live()) {
    if (g && self) return true;
    Misuse("a wait outside of a controlled execution would never end");
  }
  Rt rt;
  Thread* me = self;
  if (l->owner != me->id) Misuse("a condition variable is waited on without its mutex");
  CheckFreed(cv);
  OnPoint(cv, "CondVar wait");
  int depth = l->depth;
  me->signalled = false;
  me->cv = cv;
  me->cv_order = ++g->cv_seq;
  l->depth = 1;
  LockRelease(l, false, "");
  Block([me, l] { return me->signalled && Free(l, false); }, deadline,
        "CondVar wait", cv, true);
  bool timed_out = !me->signalled;
  me->cv = nullptr;
  me->signalled = false;
  if (!Free(l, false))
    Block([l] { return Free(l, false); }, kForever, "CondVar wait (relock)", l,
          false);
  Take(l, false, me->id);
  l->depth = depth;
  Observe(l);
  Observe(&l->readers);
  return timed_out;
}
void CvSignal(Cv* cv, bool all) {
  if (!Live()) return;
  Rt rt;
  Point(cv, all ? "CondVar signal all" : "CondVar signal");
  std::vector<Thread*> w;
  for (int i = 0; i < g->n; ++i) {
    Thread& t = g->t[i];
    if (t.state == kBlocked && t.cv == cv && !t.signalled) w.push_back(&t);
  }
  std::sort(w.begin(), w.end(),
            [](Thread* a, Thread* b) { return a->cv_order < b->cv_order; });
  if (w.empty()) return;
  if (all) {
    for (Thread* t : w) t->signalled = true;
    return;
  }
  int k = 0;
  if (w.size() > 1) k = g->ctx->Choose(w.size(), "which waiter", 1);
  w[k]->signalled = true;
}
void CvDestroy(Cv* cv) {
  if (!Live()) return;
  for (int i = 0; i < g->n; ++i)
    if (g->t[i].state == kBlocked && g->t[i].cv == cv)
      Misuse("a condition variable is destroyed while a thread waits for it");
}
bool WaitFor(const void* obj, bool (*ready)(void*), void* arg, int64_t deadline,
             const char* what) {
  if (!Live()) {
    if (!(g && self) && !ready(arg) && deadline == kForever)
      throw Violation{"deadlock: the only thread waits for ever"};
    return ready(arg);
  }
  Rt rt;
  Point(obj, what);
  if (!ready(arg)) {
    Block([ready, arg] { return ready(arg); }, deadline, what, obj, false);
    CheckFreed(obj);
    if (self->timed_out) return false;
  }
  Observe(obj);
  return true;
}
int Spawn(std::function<void()> fn) {
  if (!Live()) Misuse("a thread is started outside of a controlled execution");
  Rt rt;
  Point(nullptr, "start thread");
  return Start(std::move(fn), self);
}
void Join(int id) {
  if (!Live()) return;
  Rt rt;
  if (id == self->id) Misuse("a thread joins itself");
  Thread* t = &g->t[id];
  Point(t, "join");
  if (t->state != kDone)
    Block([t] { return t->state == kDone; }, kForever, "join", t, false);
  Observe(t);
}
void Yield() {
  if (!Live()) return;
  Rt rt;
  OnPoint(nullptr, "yield");
  Reschedule(true);
}
void SleepNanos(int64_t n) {
  if (!Live()) {
    if (n > 0) g_now += n;
    return;
  }
  Rt rt;
  OnPoint(nullptr, "sleep");
  if (n <= 0) {
    Reschedule(true);
    return;
  }
  int64_t at = n > kForever - g->now ? kForever : g->now + n;
  Block(nullptr, at, "sleep", nullptr, false);
}
int64_t NowNanos() { return g ? g->now : g_now; }
int Self() { return self ? self->id : -1; }
void Misuse(const char* what) {
  if (self) FailNow(what);
  fprintf(stderr, "MC-INTERNAL: %s\n", what);
  _exit(3);
}
}  // namespace rt

namespace sched {
using namespace rt;
static std::vector<int> last_log;
void Run(Ctx& ctx, std::function<void()> body, RunOptions o) {
  if (!quarantine) quarantine = new std::vector<void*>;
  if (!guards) guards = new std::vector<uint8_t*>;
  // An execution that failed leaves threads parked on its state, so the state
  // is only released after a clean end.
  if (pool_pid != getpid()) {
    pool_pid = getpid();
    for (auto& p : pool) {
      p.started = false;
      p.go.v = 0;
      p.done.v = 0;
    }
  }
  auto* e = new Exec;
  e->ctx = &ctx;
  e->o = o;
  e->now = o.start_ns;
  ++sh.gen;
  sh.used = 0;
  g = e;
  g_tracking = true;
  g_fail_hook = [](const std::string& m) {
    if (self && !self->kill) FailNow(m);
  };
  mc_fatal::g_on_fatal = [](const std::string& m) {
    if (self && !self->kill && !g->o.fatal_throws)
      FailNow("the code under test terminated the process: " + m);
  };
  Start(std::move(body), nullptr);
  e->t[0].sem.Post();
  e->controller.Wait();
  std::string leftover;
  if (!e->failed) {
    if (!e->pruned) leftover = Describe();
    e->ending = true;
    for (int i = 0; i < e->n; ++i) {
      Thread& t = e->t[i];
      if (t.state == kDone) continue;
      t.kill = true;
      t.sem.Post();
      e->controller.Wait();
    }
    g_tracking = false;
    for (int i = 0; i < e->n; ++i) {
      e->t[i].bye.Post();
      if (o.fresh_threads) {
        pthread_join(e->t[i].th, nullptr);
      } else {
        pool[i].done.Wait();
      }
    }
  }
  g_tracking = false;
  g = nullptr;
  g_fail_hook = nullptr;
  mc_fatal::g_on_fatal = nullptr;
  last_log = e->log;
  std::string msg = e->message;
  bool failed = e->failed, pruned = e->pruned;
  if (!failed) {
    delete e;
    for (void* p : *quarantine) __libc_free(p);
  }
  quarantine->clear();
  if (o.reset_statics)
    for (uint8_t* p : *guards) *p = 0;
  guards->clear();
  if (failed) throw Violation{msg};
  if (pruned) throw Pruned();
  if (!leftover.empty() && !o.leftovers_ok)
    throw Violation{"threads never finish: " + leftover};
}
void Point(const char* what) { rt::Point(nullptr, what); }
void Until(std::function<bool()> ready, const char* what) {
  if (!Live()) return;
  Rt rt;
  OnPoint(nullptr, what);
  Reschedule(false);
  if (!ready())
    Block([&ready] { return ready(); }, kForever, what, nullptr, false);
  // The harness may look at everything that happened so far.
  for (int i = 0; i < g->n; ++i) {
    JoinClock(&self->vc, g->t[i].vc);
    if (i != self->id) Tick(&g->t[i]);
  }
}
void UntilQuiet() {
  if (!Live()) return;
  Rt rt;
  Thread* me = self;
  Until(
      [me] {
        for (int i = 0; i < g->n; ++i)
          if (&g->t[i] != me && Enabled(g->t[i])) return false;
        return true;
      },
      "wait for quiescence");
}
int Self() { return rt::Self(); }
void Log(int code) {
  Rt rt;
  if (g) g->log.push_back(code);
}
std::vector<int> Logged() {
  Rt rt;
  return g ? g->log : last_log;
}
void AdvanceNanos(int64_t n) {
  if (g) {
    g->now += n;
  } else {
    g_now += n;
  }
}
}  // namespace sched
}  // namespace mc

// ------------------------------------------------------------ time
namespace absl {
ABSL_NAMESPACE_BEGIN
absl::Time Now() { return absl::FromUnixNanos(mc::rt::NowNanos()); }
int64_t GetCurrentTimeNanos() { return mc::rt::NowNanos(); }
ABSL_NAMESPACE_END
}  // namespace absl
extern "C" void ABSL_INTERNAL_C_SYMBOL(AbslInternalSleepFor)(absl::Duration d) {
  if (d == absl::InfiniteDuration()) {
    mc::rt::SleepNanos(mc::rt::kForever);
    return;
  }
  mc::rt::SleepNanos(absl::ToInt64Nanoseconds(d));
}

// ------------------------------------------------------------ allocation
namespace {
void MarkFreed(void* p) {
  using namespace mc::rt;
  if (!p) return;
  ++in_rt;
  size_t n = std::min<size_t>(malloc_usable_size(p), 1 << 16);
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  for (size_t i = 0; i < n; i += 8) Find((a + i) >> 3, true)->freed = true;
  quarantine->push_back(p);
  --in_rt;
}
void ClearShadow(void* p, size_t n) {
  using namespace mc::rt;
  ++in_rt;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  for (size_t i = 0; i < n; i += 8) {
    Cell* c = Find((a + i) >> 3, false);
    if (c) {
      uintptr_t k = c->key;
      uint32_t gen = c->gen;
      memset(c, 0, sizeof *c);
      c->key = k;
      c->gen = gen;
    }
  }
  --in_rt;
}
void Delete(void* p) {
  using namespace mc::rt;
  if (g_tracking && self && !in_rt && p) {
    // freeing counts as a write to the first bytes
    if (!self->kill && std::uncaught_exceptions() == 0) {
      Cell* c = Find(reinterpret_cast<uintptr_t>(p) >> 3, false);
      if (c && c->freed) FailNow("memory freed twice");
    }
    MarkFreed(p);
    return;
  }
  __libc_free(p);
}
void* New(size_t n) {
  void* p = __libc_malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
}  // namespace
void* operator new(size_t n) { return New(n); }
void* operator new[](size_t n) { return New(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return New(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return New(n); }
void operator delete(void* p) noexcept { Delete(p); }
void operator delete[](void* p) noexcept { Delete(p); }
void operator delete(void* p, size_t) noexcept { Delete(p); }
void operator delete[](void* p, size_t) noexcept { Delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Delete(p); }
extern "C" void free(void* p) noexcept {
  using namespace mc::rt;
  if (p && g_tracking && self && !in_rt) ClearShadow(p, malloc_usable_size(p));
  __libc_free(p);
}
extern "C" void* realloc(void* p, size_t n) noexcept {
  using namespace mc::rt;
  if (p && g_tracking && self && !in_rt) ClearShadow(p, malloc_usable_size(p));
  return __libc_realloc(p, n);
}

// ------------------------------------------- function-local statics
extern "C" int __cxa_guard_acquire(uint64_t* gp) {
  using namespace mc::rt;
  auto* b = reinterpret_cast<uint8_t*>(gp);
  if (b[0]) return 0;
  if (g && self && !self->kill) {
    Rt rt;
    if (b[1] && b[1] != static_cast<uint8_t>(self->id + 1)) {
      mc::rt::WaitFor(gp, [](void* p) {
        auto* q = static_cast<uint8_t*>(p);
        return q[0] != 0 || q[1] == 0;
      }, gp, kForever, "static initialisation");
      if (b[0]) return 0;
    }
    b[1] = self->id + 1;
    return 1;
  }
  b[1] = 0xff;
  return 1;
}
extern "C" void __cxa_guard_release(uint64_t* gp) {
  using namespace mc::rt;
  auto* b = reinterpret_cast<uint8_t*>(gp);
  b[0] = 1;
  b[1] = 0;
  if (g && self && !self->kill) {
    Rt rt;
    Publish(gp);
    char* a = reinterpret_cast<char*>(gp);
    if (a >= &__executable_start && a < &end) guards->push_back(b);
  }
}
extern "C" void __cxa_guard_abort(uint64_t* gp) {
  reinterpret_cast<uint8_t*>(gp)[1] = 0;
}

// ------------------------------------------- access instrumentation
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                              \
  void __tsan_read##n(void* p) {                                           \
    if (mc::rt::Tracking()) mc::rt::Access((uintptr_t)p, n, false, PC);    \
  }                                                                        \
  void __tsan_write##n(void* p) {                                          \
    if (mc::rt::Tracking()) mc::rt::Access((uintptr_t)p, n, true, PC);     \
  }                                                                        \
  void __tsan_unaligned_read##n(void* p) {                                 \
    if (mc::rt::Tracking()) mc::rt::Access((uintptr_t)p, n, false, PC);    \
  }                                                                        \
  void __tsan_unaligned_write##n(void* p) {                                \
    if (mc::rt::Tracking()) mc::rt::Access((uintptr_t)p, n, true, PC);     \
  }                                                                        \
  void __tsan_volatile_read##n(void*) {}                                   \
  void __tsan_volatile_write##n(void*) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) {
  if (mc::rt::Tracking()) mc::rt::Access((uintptr_t)p, n, false, PC);
}
void __tsan_write_range(void* p, size_t n) {
  if (mc::rt::Tracking()) mc::rt::Access((uintptr_t)p, n, true, PC);
}
void __tsan_vptr_update(void** p, void* v) {
  if (mc::rt::Tracking() && *p != v)
    mc::rt::Access((uintptr_t)p, 8, true, PC);
}
void __tsan_vptr_read(void** p) {
  if (mc::rt::Tracking()) mc::rt::Access((uintptr_t)p, 8, false, PC);
}
// Atomics that are not the code's own (reference counts of the standard
// library and the like): they order accesses but are no scheduling points.
#define AT(bits, T)                                                         \
  T __tsan_atomic##bits##_load(const volatile T* a, int o) {                \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                             \
    if (mc::rt::Tracking())                                                 \
      mc::rt::AtomicSync((const void*)a, o, true, false);                   \
    return v;                                                               \
  }                                                                         \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int o) {             \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                               \
    if (mc::rt::Tracking()) mc::rt::AtomicSync((const void*)a, o, false, true); \
  }                                                                         \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int o) {             \
    T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                      \
    if (mc::rt::Tracking()) mc::rt::AtomicSync((const void*)a, o, true, true); \
    return r;                                                               \
  }                                                                         \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e,   \
                                                     T d, int o, int) {     \
    bool ok = __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, \
                                          __ATOMIC_SEQ_CST);                \
    if (mc::rt::Tracking()) mc::rt::AtomicSync((const void*)a, o, true, ok); \
    return ok;                                                              \
  }                                                                         \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T d, \
                                                   int o, int f) {          \
    return __tsan_atomic##bits##_compare_exchange_strong(a, e, d, o, f);    \
  }
#define AR(bits, T, op)                                                     \
  T __tsan_atomic##bits##_fetch_##op(volatile T* a, T v, int o) {           \
    T r = __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                      \
    if (mc::rt::Tracking()) mc::rt::AtomicSync((const void*)a, o, true, true); \
    return r;                                                               \
  }
#define ALL(bits, T) AT(bits, T) AR(bits, T, add) AR(bits, T, sub) \
  AR(bits, T, and) AR(bits, T, or) AR(bits, T, xor)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

[[noreturn]] void mc_exit(int code) {
  if (mc::sched::Self() >= 0) throw mc::ProcessExit{code};
  exit(code);
}
