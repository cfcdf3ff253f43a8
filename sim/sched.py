"""The thread, interrupt and garbage-collection seam.

Real threads, released one at a time: exactly one thread holds the baton, and it can
only lose it at a line of hickle's own source (sys.settrace) or when it blocks on one
of the cooperative locks below.  Who runs next is decided by the plan's seed or by the
recorded list of switches, never by the operating system.
"""
import _thread
import gc
import os
import random
import sys
import threading

import h5py._objects as _h5o

_phil = _h5o.phil
STUCK_S = 20.0      # wall-clock guard only: a run that hits it is inconclusive, never a verdict


PHIL = object()


class Deadlock(BaseException):
    pass


class Lines:
    """counts the lines executed in hickle's sources; acts at chosen ones"""

    def __init__(self, roots):
        self.roots = tuple(roots)
        self.cache = {}
        self.on = False
        self.sched = None

    def wanted(self, code):
        r = self.cache.get(code)
        if r is None:
            fn = code.co_filename
            r = self.cache[code] = fn.startswith(self.roots) and '/tests/' not in fn
        return r

    def trace(self, frame, event, arg):
        if not self.wanted(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.local_op
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.tick(frame)
        return self.local

    def local_op(self, frame, event, arg):
        if event == 'opcode':
            self.tick(frame)
        return self.local_op

    # -- single threaded use: interrupts and collections at exact lines
    def arm(self, events=(), gc_every=0, opcodes=False):
        """events: {n: action}; action 'gc' or an exception class"""
        self.n = 0
        self.events = dict(events)
        self.gc_every = gc_every
        self.opcodes = opcodes
        self.fired = []
        self.where = []
        self.tick = self.tick_single
        self.on = True
        sys.settrace(self.trace)

    def tick_single(self, frame):
        if not self.on:
            return
        n = self.n
        self.n += 1
        act = self.events.get(n)
        if act is None:
            if self.gc_every and n % self.gc_every == 0 and not _importing(frame):
                self.fired.append('gc')
                gc.collect()
            return
        if act == 'gc':
            self.fired.append('gc')
            gc.collect()
            return
        if _importing(frame):
            # an interrupt during an import leaves Python's own import state half done
            self.events[n + 1] = act
            return
        self.fired.append(act.__name__)
        self.where.append('%s:%s' % (frame.f_code.co_filename.rsplit('/', 1)[-1], frame.f_code.co_name))
        raise act('interrupted by the simulator')

    def disarm(self):
        sys.settrace(None)
        self.on = False
        return self.fired


def _importing(frame):
    while frame is not None:
        if frame.f_code.co_filename == '<frozen importlib._bootstrap>' and frame.f_code.co_name in (
                '_find_and_load', '_load_unlocked', 'exec_module', '_call_with_frames_removed'):
            return True
        frame = frame.f_back
    return False


class Sched:
    """baton scheduler over the threads of one `par` operation"""
    current = None      # the active scheduler (one per process)

    def __init__(self, lines, spec, nthreads):
        self.lines = lines
        self.spec = spec
        self.n = nthreads
        self.rng = random.Random(spec.get('seed', 0))
        self.p = spec.get('p', 0.1)
        self.mode = spec['mode']
        self.switch_at = {s[0]: s[1] for s in spec.get('switches', ())}
        self.step = 0
        self.switches = []
        self.gates = [_thread.allocate_lock() for _ in range(nthreads)]
        for g in self.gates:
            g.acquire()
        self.done_gate = _thread.allocate_lock()
        self.done_gate.acquire()
        self.state = ['ready'] * nthreads      # ready | blocked | done
        self.waiting = [None] * nthreads
        self.ident = {}
        self.cur = None
        self.deadlock = None
        self.phil_holder = None
        self.skipped = 0
        self.blocks = 0
        self.max_steps = spec.get('max_steps', 400000)
        if self.mode == 'pct':
            self.prio = list(range(nthreads))
            self.rng.shuffle(self.prio)
            horizon = spec.get('horizon', 3000)
            self.change = {self.rng.randrange(1, horizon): i for i in range(spec.get('depth', 2))}
            self.low = -1

    # -- called with the baton
    def runnable(self, but=None):
        return [t for t in range(self.n) if self.state[t] == 'ready' and t != but]

    def tick(self, frame):
        t = self.ident.get(_thread.get_ident())
        if t is None or t != self.cur:
            return
        self.step += 1
        if self.deadlock:
            raise Deadlock()
        if self.phil_holder == t and not _phil._is_owned():
            self.phil_free()
        if self.step > self.max_steps:
            return
        to = self.decide(t)
        if to is None or to == t:
            return
        if self.state[to] != 'ready' or _phil._is_owned() or _importing(frame):
            self.skipped += 1
            return
        self.handover(t, to)

    # -- h5py's lock: held natively, so it is only followed here.  A thread which waits for one of
    # hickle's locks while it holds h5py's keeps everybody else out of h5py until it goes on.
    def phil_free(self):
        self.phil_holder = None
        self.woken(PHIL)

    def enter_h5(self):
        t = self.ident.get(_thread.get_ident())
        while t is not None and t == self.cur and self.phil_holder not in (None, t) and not self.deadlock:
            self.block(t, PHIL)

    def decide(self, t):
        if self.mode == 'list':
            return self.switch_at.get(self.step)
        if self.mode == 'pct':
            if self.step in self.change:
                self.prio[t] = self.low
                self.low -= 1
            cand = self.runnable()
            return max(cand, key=lambda x: self.prio[x]) if cand else None
        if self.rng.random() < self.p:
            cand = self.runnable(but=t)
            if cand:
                return cand[self.rng.randrange(len(cand))]
        return None

    def pick(self, t):
        """somebody has to run: t blocked or ended"""
        cand = self.runnable()
        if not cand:
            return None
        if self.mode == 'list':
            to = self.switch_at.get(self.step)
            return to if to in cand else cand[0]
        if self.mode == 'pct':
            return max(cand, key=lambda x: self.prio[x])
        return cand[self.rng.randrange(len(cand))]

    def handover(self, t, to):
        self.switches.append([self.step, to])
        self.cur = to
        self.gates[to].release()
        self.park(t)

    def park(self, t):
        if not self.gates[t].acquire(True, STUCK_S * 3):
            raise SystemExit('stuck')
        if self.deadlock:
            raise Deadlock()

    def block(self, t, lock):
        """t waits for a cooperative lock"""
        self.blocks += 1
        if lock is not PHIL and _phil._is_owned():
            self.phil_holder = t
        self.state[t] = 'blocked'
        self.waiting[t] = lock
        self.step += 1
        to = self.pick(t)
        if to is None:
            self.deadlock = 'threads %s wait for locks held by each other' % [x for x in range(self.n) if self.state[x] == 'blocked']
            for x in range(self.n):
                if x != t and self.state[x] == 'blocked':
                    self.gates[x].release()
            self.state[t] = 'ready'
            raise Deadlock()
        self.handover(t, to)

    def woken(self, lock):
        prior = None
        for x in range(self.n):
            if self.state[x] == 'blocked' and self.waiting[x] is lock:
                self.state[x] = 'ready'
                self.waiting[x] = None
                if x == self.phil_holder and lock is not PHIL:
                    prior = x
        me = self.ident.get(_thread.get_ident())
        if prior is not None and me == self.cur and me is not None and not _phil._is_owned():
            # the others would get stuck in h5py
            self.step += 1
            self.handover(me, prior)

    # -- running
    def run(self, funcs):
        self.lines.opcodes = bool(self.spec.get('opcodes'))
        self.lines.tick = self.tick
        results = [None] * self.n

        def body(t):
            self.ident[_thread.get_ident()] = t
            self.gates[t].acquire()
            sys.settrace(self.lines.trace)
            try:
                results[t] = funcs[t]()
            except Deadlock:
                results[t] = 'deadlock'
            except BaseException as e:      # harness error, reported as such
                import traceback
                results[t] = 'harness: ' + ''.join(traceback.format_exception(e))[-1500:]
            finally:
                sys.settrace(None)
                self.state[t] = 'done'
                if self.phil_holder == t:
                    self.phil_free()
                self.step += 1
                to = self.pick(t)
                if to is None:
                    left = [x for x in range(self.n) if self.state[x] == 'blocked']
                    if left:
                        self.deadlock = self.deadlock or 'threads %s wait for a lock that is never released' % left
                        self.cur = left[0]
                        self.state[left[0]] = 'ready'
                        self.gates[left[0]].release()
                    else:
                        self.done_gate.release()
                else:
                    self.switches.append([self.step, to])
                    self.cur = to
                    self.gates[to].release()

        Sched.current = self
        threads = [_RealThread(target=body, args=(t,), daemon=True) for t in range(self.n)]
        for t in threads:
            t.start()
        while len(self.ident) < self.n:
            _sleep(0.0001)
        first = self.pick(None)
        self.cur = first
        self.gates[first].release()
        ok = self.done_gate.acquire(True, STUCK_S)
        if not ok and os.environ.get('VERIF_DEBUG'):
            import faulthandler
            with open('/tmp/stuck.txt', 'w') as f:
                f.write(repr([self.cur, self.state, self.step, self.switches[-3:]]) + chr(10))
                faulthandler.dump_traceback(f, True)
        Sched.current = None
        return results, ok

    def me(self):
        return self.ident.get(_thread.get_ident())


def _sleep(s):
    import time
    time.sleep(s)


_RealThread = threading.Thread


class CoopRLock:
    """re-entrant lock whose waiting the scheduler decides (a plain lock when no scheduler runs)"""
    reentrant = True

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.owner == me and self.reentrant:
            self.count += 1
            return True
        while self.owner is not None:
            s = Sched.current
            t = s.me() if s is not None else None
            if not blocking or timeout == 0:
                return False
            if t is None:
                raise RuntimeError('simulated deadlock: lock held by a thread that does not run')
            if timeout is not None and timeout > 0:
                return False        # simulated time: a timed wait expires
            s.block(t, self)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != _thread.get_ident()):
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s = Sched.current
            if s is not None:
                s.woken(self)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()


class CoopLock(CoopRLock):
    reentrant = False


def install_locks(roots):
    """locks created by hickle's own code are the cooperative ones, everybody else's stay real"""
    roots = tuple(roots)

    def factory(real, coop):
        def make(*a, **k):
            f = sys._getframe(1)
            return coop() if f.f_code.co_filename.startswith(roots) else real(*a, **k)
        return make
    threading.Lock = factory(threading.Lock, CoopLock)
    threading.RLock = factory(threading.RLock, CoopRLock)
