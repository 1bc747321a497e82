"""Deterministic scheduler.

Client threads are real threads, but exactly one runs at a time: the holder of
the baton.  Yield points are (a) every source line (or, in 'instr' runs, every
bytecode instruction) of kcorrect code, seen through sys.monitoring, (b) every
simulated system call, (c) every acquisition of a lock created by kcorrect
code.  Which task continues at a yield point is decided by the run's PRNG or,
in replay, by the recorded list of pre-emptions; the operating system's
scheduler decides nothing.

The same yield points are where asynchronous interrupts are delivered
(KeyboardInterrupt raised from the monitoring callback).  A second seam, the
CALL event, is where 'the allocation inside this library call fails' is
injected (MemoryError before the call runs).
"""
import _thread
import random
import sys
import threading
from collections import Counter

import boot

MON = sys.monitoring
TOOL = 4
_get_ident = _thread.get_ident
_alloc = _thread.allocate_lock

SIM = None          # the active simulation, or None


class SimCrash(BaseException):
    """The simulated process was killed here."""


class SimAbort(BaseException):
    """The simulator unwinds a task (deadlock / step budget)."""


class Stuck(Exception):
    """Deadlock or exceeded step budget: a liveness violation."""


class Task:
    def __init__(self, tid, fn):
        self.id = tid
        self.fn = fn
        self.lock = _alloc()
        self.lock.acquire()
        self.done = False
        self.blocked = None
        self.step = 0
        self.visits = {}
        self.result = None
        self.exc = None
        self.ident = None
        self.kbd_in = None      # lines until an interrupt reaches this task


class Sim:
    """One simulated execution."""

    def __init__(self, rng_seed=0, preempts=None, p=0.0, instr=False,
                 max_steps=400000):
        self.rng = random.Random(rng_seed)
        self.explicit = None
        if preempts is not None:
            self.explicit = {(t, s): g for t, s, g in preempts}
        self.p = p
        self.instr = instr
        self.max_steps = max_steps
        self.steps = 0
        self.tasks = []
        self.current = None
        self.main_lock = _alloc()
        self.abort = None
        self.log = []
        self.taken = []               # pre-emptions actually taken
        self.sig = []                 # interleaving signature
        self.stats = Counter()
        self.disk = None
        self.main_ident = _get_ident()
        self.armed = False            # inline (single task) arming
        self.op_step = 0
        self.kbd_at = None
        self.kbd_exc = KeyboardInterrupt
        self.call_n = 0
        self.call_at = None
        self.call_exc = MemoryError
        self.call_log = None
        self.last_line = None

    # -- log -------------------------------------------------------------
    def note(self, *a):
        self.log.append(a)

    # -- yield points -----------------------------------------------------
    def on_line(self, code, line):
        t = self.current
        if t is None:
            if self.armed and _get_ident() == self.main_ident:
                self.inline_point(code, line)
            return
        if t.ident != _get_ident():
            return
        if t.kbd_in is not None and line > 0:
            t.kbd_in -= 1
            if t.kbd_in <= 0:
                t.kbd_in = None
                self.stats['fault:keyboard_interrupt'] += 1
                self.note('kbd', t.id, code.co_name)
                raise KeyboardInterrupt('simulated')
        self.point(t, (code.co_name, line))

    def inline_point(self, code, line):
        self.op_step += 1
        self.steps += 1
        if self.kbd_at is not None and self.op_step == self.kbd_at:
            self.kbd_at = None
            self.last_line = (code.co_name, line)
            x = self.kbd_exc
            self.stats['fault:' + ('keyboard_interrupt' if x is KeyboardInterrupt else 'process_kill')] += 1
            self.note('kbd', code.co_name, self.op_step, x.__name__)
            raise x('simulated')
        if self.steps > self.max_steps:
            self.abort = 'step budget exceeded (%d lines) in %s' % (self.max_steps, code.co_name)
            raise SimAbort(self.abort)

    def point(self, t, where):
        if self.abort:
            raise SimAbort(self.abort)
        t.step += 1
        self.steps += 1
        if self.steps > self.max_steps:
            self.abort = 'step budget exceeded (%d)' % self.max_steps
            raise SimAbort(self.abort)
        if self.explicit is not None:
            g = self.explicit.get((t.id, t.step))
            if g is None:
                return
            target = self.tasks[g] if g < len(self.tasks) else None
            if target is None or target.done or target.blocked is not None or target is t:
                return
        else:
            if self.p <= 0.0:
                return
            v = t.visits.get(where, 0)
            t.visits[where] = v + 1
            if self.rng.random() >= self.p / (1.0 + 0.25 * v):
                return
            others = [o for o in self.tasks
                      if not o.done and o.blocked is None and o is not t]
            if not others:
                return
            target = others[self.rng.randrange(len(others))]
        self.taken.append([t.id, t.step, target.id])
        self.sig.append((t.id, where, target.id))
        self.stats['preemptions'] += 1
        self.switch(t, target)

    def io_point(self, where):
        """Yield point at a simulated system call."""
        t = self.current
        if t is not None and t.ident == _get_ident():
            self.point(t, where)

    def switch(self, t, target):
        self.current = target
        target.lock.release()
        t.lock.acquire()
        if self.abort:
            raise SimAbort(self.abort)

    def block(self, t, on):
        """Park t until unblocked; run somebody else."""
        t.blocked = on
        self.stats['lock_blocked'] += 1
        runnable = [o for o in self.tasks if not o.done and o.blocked is None]
        if not runnable:
            self.abort = 'deadlock: every task waits for a lock'
            raise SimAbort(self.abort)
        target = self.pick(t, runnable)
        self.switch(t, target)

    def pick(self, t, runnable):
        if self.explicit is not None:
            g = self.explicit.get((t.id, -1 - t.step))
            for o in runnable:
                if o.id == g:
                    return o
            return runnable[0]
        o = runnable[self.rng.randrange(len(runnable))]
        if o is not runnable[0]:
            self.taken.append([t.id, -1 - t.step, o.id])
        return o

    # -- tasks -------------------------------------------------------------
    def _body(self, t):
        t.lock.acquire()
        t.ident = _get_ident()
        try:
            if not self.abort:
                t.result = t.fn()
        except SimAbort:
            pass
        except BaseException as e:      # noqa: reported to the scenario
            t.exc = e
        t.done = True
        t.step += 1
        runnable = [o for o in self.tasks if not o.done and o.blocked is None]
        if self.abort:
            runnable = [o for o in self.tasks if not o.done]
            for o in runnable:
                o.blocked = None
        if runnable:
            nxt = self.pick(t, runnable)
            self.sig.append((t.id, 'end', nxt.id))
            self.current = nxt
            nxt.lock.release()
        else:
            if any(not o.done for o in self.tasks):
                self.abort = 'deadlock: remaining tasks wait for a lock'
                left = [o for o in self.tasks if not o.done]
                for o in left:
                    o.blocked = None
                self.current = left[0]
                left[0].lock.release()
                return
            self.current = None
            self.main_lock.release()

    def run_tasks(self, fns):
        """Run callables as concurrently scheduled client threads."""
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.main_lock.acquire()
        ths = [threading.Thread(target=self._body, args=(t,), daemon=True)
               for t in self.tasks]
        for th in ths:
            th.start()
        first = self.tasks[0]
        self.current = first
        first.lock.release()
        self.main_lock.acquire()
        self.main_lock.release()
        self.current = None
        for th in ths:
            th.join()
        if self.abort:
            raise Stuck(self.abort)
        return self.tasks

    # -- inline (single task) operations ------------------------------------
    def begin_op(self, kbd_at=None, call_at=None, call_exc=MemoryError, count_calls=False,
                 kbd_exc=KeyboardInterrupt):
        self.kbd_exc = kbd_exc
        self.op_step = 0
        self.call_n = 0
        self.kbd_at = kbd_at
        self.call_at = call_at
        self.call_exc = call_exc
        self.armed = True
        if call_at is not None or count_calls:
            set_events(calls=True)

    def end_op(self):
        self.armed = False
        self.kbd_at = None
        self.call_at = None
        set_events(calls=False)
        return self.op_step, self.call_n

    def on_call(self, code, fn):
        if not self.armed or _get_ident() != self.main_ident:
            return
        mod = getattr(fn, '__module__', None)
        if mod is None:
            mod = type(getattr(fn, '__self__', None)).__module__
        if not isinstance(mod, str):
            return
        root = mod.split('.')[0]
        if root not in ('numpy', 'scipy', 'astropy'):
            return
        self.call_n += 1
        if self.call_at is not None and self.call_n == self.call_at:
            self.call_at = None
            kbd = self.call_exc is KeyboardInterrupt
            self.stats['fault:' + ('keyboard_interrupt' if kbd else 'failed_allocation')] += 1
            name = getattr(fn, '__name__', type(fn).__name__)
            self.note('kbd' if kbd else 'memerr', code.co_name, name)
            self.last_line = (code.co_name, name)
            raise self.call_exc('simulated: %s in %s' % ('interrupt' if kbd else 'allocation failed', name))


# ---------------------------------------------------------------- monitoring
_state = {'on': False, 'instr': False, 'calls': False}
_MUTED = set()


def _cb_line(code, line):
    s = SIM
    if s is not None:
        s.on_line(code, line)


def _cb_instr(code, off):
    s = SIM
    if s is not None and s.current is not None:
        s.on_line(code, -off)


def _cb_call(code, off, fn, arg0):
    s = SIM
    if s is not None:
        s.on_call(code, fn)


def setup():
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, 'kcsim')
        E = MON.events
        MON.register_callback(TOOL, E.LINE, _cb_line)
        MON.register_callback(TOOL, E.INSTRUCTION, _cb_instr)
        MON.register_callback(TOOL, E.CALL, _cb_call)


def set_events(instr=None, calls=None, force=False):
    E = MON.events
    new = dict(_state)
    new['on'] = True
    if instr is not None:
        new['instr'] = instr
    if calls is not None:
        new['calls'] = calls
    if new == _state and not force:
        return
    _state.update(new)
    ev = E.LINE
    if new['instr']:
        ev |= E.INSTRUCTION
    if new['calls']:
        ev |= E.CALL
    for c in boot.FINDER.all_codes():
        MON.set_local_events(TOOL, c, ev)


# ---------------------------------------------------------------- locks
_real_Lock = threading.Lock
_real_RLock = threading.RLock


class SimLock:
    def __init__(self, reentrant=False):
        self.re = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        s = SIM
        if s is not None and s.current is not None and s.current.ident == _get_ident():
            return s, s.current
        return s, None

    def acquire(self, blocking=True, timeout=-1):
        s, t = self._me()
        key = t.id if t is not None else 'main'
        if t is not None:
            s.point(t, ('lock', 0))
        while self.owner is not None:
            if self.re and self.owner == key:
                self.count += 1
                return True
            if not blocking:
                return False
            if t is None:
                s.abort = 'deadlock: lock acquired twice by one thread'
                raise SimAbort(s.abort)
            s.block(t, self)
        self.owner = key
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count > 0:
            return
        self.owner = None
        s = SIM
        if s is not None:
            for o in s.tasks:
                if o.blocked is self:
                    o.blocked = None
        s, t = self._me()
        if t is not None and not s.abort:
            s.point(t, ('unlock', 0))

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        s, t = self._me()
        return self.owner == (t.id if t is not None else 'main')

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _mk_lock():
    if sys._getframe(1).f_code.co_filename.startswith(boot.PKG):
        return SimLock(False)
    return _real_Lock()


def _mk_rlock(*a, **k):
    if sys._getframe(1).f_code.co_filename.startswith(boot.PKG):
        return SimLock(True)
    return _real_RLock(*a, **k)


def patch_library_locks():
    """astropy guards every lazy property with one lock per class; a task can be
    parked inside (reading data), so the scheduler must own these locks too."""
    import gc
    from astropy.utils.decorators import lazyproperty
    n = 0
    for o in gc.get_objects():
        if type(o) is lazyproperty and not isinstance(o.__dict__.get('_lock'), SimLock):
            o._lock = SimLock(True)
            n += 1
    return n


def patch_locks():
    threading.Lock = _mk_lock
    threading.RLock = _mk_rlock
