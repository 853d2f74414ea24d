"""Simulated threads: real Python threads of which exactly one runs at a time, chosen by a seeded scheduler.

Control may pass to another thread at every traced line (or bytecode instruction) of the library and at every
operation on a lock. Locks created by the library are simulated too, so that the scheduler sees every deadlock.
"""

import _thread
import random
import sys
import threading

_real_lock = _thread.allocate_lock
SIM = None


class _Base:

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._guard = _real_lock()
        ALL_LOCKS.append(self)

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        sim = SIM
        if sim is not None and me in sim.by_ident:
            sim.yield_point('L')
            while True:
                if self._owner is None:
                    self._owner, self._count = me, 1
                    return True
                if self._reentrant and self._owner == me:
                    self._count += 1
                    return True
                if not blocking or timeout == 0:
                    return False
                if not sim.block(self, timeout):
                    return False
        import time
        t0 = time.monotonic()
        while True:
            with self._guard:
                if self._owner is None:
                    self._owner, self._count = me, 1
                    return True
                if self._reentrant and self._owner == me:
                    self._count += 1
                    return True
            if not blocking:
                return False
            if timeout is not None and timeout >= 0 and time.monotonic() - t0 >= timeout:
                return False
            time.sleep(0.0005)

    def release(self):
        me = _thread.get_ident()
        if self._owner is None or (self._reentrant and self._owner != me):
            raise RuntimeError('cannot release un-acquired lock' if self._reentrant else 'release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            sim = SIM
            if sim is not None and me in sim.by_ident:
                sim.wake(self)
                sim.yield_point('U')

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def __reduce_ex__(self, protocol):
        raise TypeError(f"cannot pickle '_thread.{'R' if self._reentrant else ''}Lock' object")

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = (self._owner, self._count)
        self._count = 1
        self.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._owner, self._count = state

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class SimLock(_Base):
    pass


class SimRLock(_Base):
    _reentrant = True


ALL_LOCKS = []


def install():
    import time
    threading.Lock = SimLock
    threading.RLock = SimRLock
    if hasattr(threading, '_allocate_lock'):
        threading._allocate_lock = SimLock      # what conditions, events and semaphores wait on
    real_sleep = time.sleep

    def sleep(seconds):
        sim = SIM
        if sim is not None and _thread.get_ident() in sim.by_ident:
            sim.yield_point('L')                # simulated time: a sleep is a point where others may run
            return
        real_sleep(seconds)
    time.sleep = sleep


class Deadlock(Exception):
    pass


class _Thread:

    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.sem = _real_lock()
        self.sem.acquire()
        self.state = 'new'
        self.waits = None
        self.timed_out = False
        self.exc = None
        self.ident = None


class Sim:
    """schedule: {'seed': s, 'q': q, 'ql': q} (random) or {'switches': [[step, tid], ...]} (explicit)."""

    def __init__(self, schedule, prefix, opcodes=False, max_steps=2000000):
        self.explicit = None
        if 'switches' in schedule:
            self.explicit = {int(k): t for k, t in schedule['switches']}
        else:
            self.rng = random.Random(schedule['seed'])
            self.q = schedule['q']
            self.ql = schedule.get('ql', 0.3)
        self.prefix = prefix
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.step = 0
        self.recorded = []
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.main = _real_lock()
        self.main.acquire()
        self.deadlock = None
        self.switches = 0
        self.timeouts = 0
        self.places = set()
        self.where = None

    # -- tracing
    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.where = frame
            self.yield_point('l')
            self.where = None
        return self._local

    # -- scheduling
    def _pick(self, runnable):
        if self.explicit is not None:
            t = self.explicit.get(self.step)
            for c in runnable:
                if c.tid == t:
                    return c
            return runnable[0]
        return self.rng.choice(runnable)

    def yield_point(self, tag):
        if self.current is None:
            return
        self.step += 1
        if self.step > self.max_steps:
            return
        if self.explicit is not None:
            t = self.explicit.get(self.step)
            if t is None or t == self.current.tid:
                return
            nxt = [c for c in self.threads if c.tid == t and c.state == 'ready']
            if not nxt:
                return
            nxt = nxt[0]
        else:
            if self.rng.random() >= (self.q if tag == 'l' else self.ql):
                return
            others = [c for c in self.threads if c.state == 'ready' and c is not self.current]
            if not others:
                return
            nxt = self.rng.choice(others)
        self.recorded.append([self.step, nxt.tid])
        self.switches += 1
        if self.where is not None:
            self.places.add(f'{self.where.f_code.co_name}:{self.where.f_lineno}')
        self._transfer(nxt)

    def _transfer(self, nxt):
        me = self.current
        self.current = nxt
        nxt.sem.release()
        if me is not None and me.state != 'done':
            me.sem.acquire()

    def _expires(self):
        """Whether a wait with a time limit reaches it before the lock is released."""
        self.step += 1
        if self.explicit is not None:
            return self.explicit.get(self.step) == -1
        if self.rng.random() < 0.5:
            self.recorded.append([self.step, -1])
            self.timeouts += 1
            return True
        return False

    def block(self, lock, timeout):
        me = self.current
        if timeout is not None and timeout >= 0 and self._expires():
            return False
        me.state, me.waits, me.timed_out = 'blocked', lock, False
        self._next_after_stop(timeout is not None and timeout >= 0)
        return not me.timed_out

    def _next_after_stop(self, timed=False):
        me = self.current
        me.timed = timed
        self.step += 1
        runnable = [c for c in self.threads if c.state == 'ready']
        if not runnable:
            waiting = [c for c in self.threads if c.state == 'blocked' and getattr(c, 'timed', False)]
            if waiting:
                c = waiting[0]
                c.state, c.timed_out, c.waits = 'ready', True, None
                runnable = [c]
        if not runnable:
            blocked = [c for c in self.threads if c.state == 'blocked']
            self.current = None
            if blocked:
                self.deadlock = [c.tid for c in blocked]
            self.main.release()
            if me.state != 'done':
                me.sem.acquire()      # never released: the run is over
            return
        nxt = self._pick(runnable)
        if nxt is not me:
            if len(runnable) > 1:
                self.recorded.append([self.step, nxt.tid])
            self._transfer(nxt)

    def wake(self, lock):
        for c in self.threads:
            if c.state == 'blocked' and c.waits is lock:
                c.state, c.waits = 'ready', None

    def _body(self, t):
        t.sem.acquire()
        sys.settrace(self._global)
        try:
            t.fn()
        except BaseException as ex:  # noqa
            t.exc = ex
        sys.settrace(None)
        t.state = 'done'
        self._next_after_stop()

    def run(self, fns):
        global SIM
        SIM = self
        try:
            for i, fn in enumerate(fns):
                t = _Thread(i, fn)
                self.threads.append(t)
                t.ident = _thread.start_new_thread(self._body, (t,))
                self.by_ident[t.ident] = t
                t.state = 'ready'
            self.step = 0
            first = self._pick(self.threads)
            if first.tid != 0:
                self.recorded.append([0, first.tid])
            self.current = first
            first.sem.release()
            self.main.acquire()
        finally:
            SIM = None
        for t in self.threads:
            if t.exc is not None:
                raise t.exc
        return self
