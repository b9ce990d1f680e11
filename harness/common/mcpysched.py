"""Controlled scheduling of Python threads.

run(ctx, bodies, files) runs the bodies in threads of which exactly one runs at
a time.  Before every lock operation and before every interesting instruction
of the named files, the explorer chooses which thread goes on; leaving a thread
that could have gone on costs one unit of the scenario's bound.  No thread able
to go on while some have not finished is a deadlock and a violation.

patch() must be called before the modules under test are imported: it replaces
threading.Lock and friends so that those made inside run() or objects() are
controlled.
"""
import contextlib
import dis
import sys
import threading
import _thread

import mcpy

_real_lock = threading.Lock
_real_rlock = threading.RLock
_real_condition = threading.Condition
_real_event = threading.Event
_real_thread = threading.Thread

_sched = None          # the Sched in control
_tls = threading.local()

MUTATE = {'STORE_ATTR', 'DELETE_ATTR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'BINARY_SUBSCR',
          'CONTAINS_OP', 'FOR_ITER'}
CALLS = MUTATE | {'CALL', 'CALL_FUNCTION_EX'}


class _Abort(BaseException):
    pass


class _T:
    def __init__(self, idx):
        self.idx = idx
        self.go = _real_lock()
        self.go.acquire()
        self.ready = None      # predicate when blocked
        self.done = False
        self.result = None
        self.error = None


class Sched:
    def __init__(self, ctx, files, ops):
        self.ctx = ctx
        self.files = files
        self.ops = ops
        self.offsets = {}
        self.threads = []
        self.abort = False
        self.failure = None
        self.clock = 0
        self.points = 0

    # -- called by the thread that has the baton
    def me(self):
        t = getattr(_tls, 't', None)
        return t if t is not None and getattr(_tls, 'sched', None) is self else None

    def enabled(self, me):
        out = []
        if me is not None and not me.done and (me.ready is None or me.ready()):
            out.append(me)
        for t in self.threads:
            if t is not me and not t.done and (t.ready is None or t.ready()):
                out.append(t)
        return out

    def point(self, what='switch'):
        me = self.me()
        if me is None:
            return
        if self.abort:
            raise _Abort()
        self.points += 1
        if self.points > 20000:
            self.fail(mcpy.Violation('the threads never finish'))
            raise _Abort()
        try:
            en = self.enabled(me)
            nxt = en[self.ctx.choose(len(en), what, 1)] if len(en) > 1 else en[0]
        except BaseException as e:
            self.fail(e)
            raise _Abort()
        if nxt is not me:
            self.hand_over(me, nxt)

    def hand_over(self, me, nxt):
        nxt.go.release()
        me.go.acquire()
        if self.abort:
            raise _Abort()

    def block(self, ready):
        """Until ready() holds; the caller goes on with the baton."""
        me = self.me()
        if self.abort:
            raise _Abort()
        if ready():
            return
        me.ready = ready
        self.pass_on(me)
        me.ready = None
        if self.abort:
            raise _Abort()

    def pass_on(self, me):
        en = self.enabled(None if me.done else me)
        if not en:
            if all(t.done for t in self.threads):
                return
            self.fail(mcpy.Violation('the threads wait for each other for ever'))
            return
        try:
            nxt = en[self.ctx.choose(len(en), 'next')] if len(en) > 1 else en[0]
        except BaseException as e:
            self.fail(e)
            return
        if nxt is me:
            return
        nxt.go.release()
        if not me.done:
            me.go.acquire()

    def fail(self, e):
        if self.failure is None:
            self.failure = e
        if not self.abort:
            self.abort = True
            me = self.me()
            for t in self.threads:
                if t is not me and not t.done:
                    t.go.release()

    # -- tracing
    def tracer(self, frame, event, arg):
        code = frame.f_code
        if code.co_filename not in self.files:
            return None
        if code not in self.offsets:
            self.offsets[code] = {i.offset for i in dis.get_instructions(code)
                                  if i.opname in self.ops}
        frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.point('line')
        elif event == 'opcode' and frame.f_lasti in self.offsets[frame.f_code]:
            self.point('op')
        return self.local

    def thread(self, t, body):
        _tls.t = t
        _tls.sched = self
        t.go.acquire()
        try:
            if not self.abort:
                sys.settrace(self.tracer)
                try:
                    t.result = body()
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except (mcpy.Violation, mcpy.Pruned) as e:
            t.done = True
            self.fail(e)
        except BaseException as e:
            t.error = e
        t.done = True
        _tls.t = None
        if not self.abort:
            self.pass_on(t)


def run(ctx, bodies, files, ops=CALLS):
    """Runs the bodies; returns their results.  An exception of a body is raised."""
    global _sched
    s = Sched(ctx, set(files), ops)
    s.threads = [_T(i) for i in range(len(bodies))]
    ths = [_real_thread(target=s.thread, args=(t, b), daemon=True)
           for t, b in zip(s.threads, bodies)]
    _sched = s
    try:
        for h in ths:
            h.start()
        first = s.threads[ctx.choose(len(bodies), 'first')]
        first.go.release()
        for h in ths:
            h.join(60)
            if h.is_alive():
                raise mcpy.Internal('a controlled thread hangs')
    finally:
        _sched = None
    if s.failure is not None:
        raise s.failure
    for t in s.threads:
        if t.error is not None:
            raise t.error
    ctx.step()
    return [t.result for t in s.threads]


def controlled():
    return _sched is not None and _sched.me() is not None


def tick():
    """A logical time for the history of operations."""
    s = _sched
    s.clock += 1
    return s.clock


class Lock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0
        self.real = _real_rlock() if self.reentrant else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        if not controlled():
            return self.real.acquire(blocking, timeout)
        s = _sched
        me = s.me()
        s.point('lock')
        if self.reentrant and self.owner is me:
            self.depth += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            s.block(lambda: self.owner is None)
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if not controlled():
            if self.owner is not None:      # an aborted execution unwinds
                self.owner = None
                return
            return self.real.release()
        s = _sched
        if self.owner is None or (self.reentrant and self.owner is not s.me()):
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        if not s.abort:
            s.point('unlock')

    def locked(self):
        return self.owner is not None if controlled() else self.real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # what threading.Condition wants of an RLock
    def _is_owned(self):
        return self.owner is _sched.me() if controlled() else (
            self.real._is_owned() if self.reentrant else self.real.locked())

    def _release_save(self):
        if not controlled():
            return self.real._release_save() if self.reentrant else self.real.release()
        d, self.depth, self.owner = self.depth, 0, None
        return d

    def _acquire_restore(self, d):
        if not controlled():
            return self.real._acquire_restore(d) if self.reentrant else self.real.acquire()
        _sched.block(lambda: self.owner is None)
        self.owner, self.depth = _sched.me(), d

    def _at_fork_reinit(self):
        self.real._at_fork_reinit()


class RLock(Lock):
    reentrant = True


class Condition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.real = _real_condition(self.lock)
        self.waiters = []
        for n in ('acquire', 'release', '__enter__', '__exit__'):
            if not n.startswith('__'):
                setattr(self, n, getattr(self.lock, n))

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        if not controlled():
            return self.real.wait(timeout)
        w = [False]
        self.waiters.append(w)
        d = self.lock._release_save()
        _sched.block(lambda: w[0])
        self.lock._acquire_restore(d)
        return True

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            self.wait(timeout)
        return True

    def notify(self, n=1):
        self.real.notify(n) if not controlled() else None
        for w in self.waiters[:n]:
            w[0] = True
        del self.waiters[:n]

    def notify_all(self):
        if not controlled():
            self.real.notify_all()
        self.notify(len(self.waiters)) if controlled() else None


_making = False


@contextlib.contextmanager
def objects():
    """Locks made inside are controlled."""
    global _making
    _making = True
    try:
        yield
    finally:
        _making = False


def patch():
    def factory(ours, real):
        return lambda *a: (ours if _making or controlled() else real)(*a)
    threading.Lock = factory(Lock, _real_lock)
    threading.RLock = factory(RLock, _real_rlock)
    threading.Condition = factory(Condition, _real_condition)


def linearizable(history, initial, apply):
    """history: list of (begin, end, op, result).  apply(state, op) -> (state, result)
    of the sequential reference; states are values."""
    def go(left, state):
        if not left:
            return True
        first_end = min(h[1] for h in left)
        for i, h in enumerate(left):
            if h[0] > first_end:
                continue
            st, r = apply(state, h[2])
            if r == h[3] and go(left[:i] + left[i + 1:], st):
                return True
        return False
    return go(list(history), initial)
