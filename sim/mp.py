"""A simulated `multiprocessing`: processes, queues, locks and time under one seeded scheduler.

A simulated process is a real Python thread that is parked except while the scheduler has handed it
the only run token; which one proceeds, and when a queue's feeder writes to its pipe, is decided by
the scheduler alone.  Queues follow CPython's multiprocessing.queues.Queue: put() appends to a
per-process buffer, a feeder pickles with the real ForkingPickler and writes to a bounded pipe under
a write lock, get() reads whole messages under a read lock and unpickles after releasing it, and a
process does not end before its feeders have flushed.
"""
import copy
import queue as _queue
import random
import threading
import time as _time
from multiprocessing.reduction import ForkingPickler

PIPE_CAPACITY = 65536
_real_lock = threading.Lock
_RealThread = threading.Thread


class SimDeadlock(BaseException):
    """Nothing can run any more and nothing ever will."""


class SimNoProgress(BaseException):
    """The step budget ran out: a livelock, under a scheduler that starves nobody for long."""


class Killed(BaseException):
    """Unwinds the thread of a simulated process that was terminated."""


class Proc(object):
    """A simulated process as the scheduler sees it."""

    def __init__(self, sched, pid, name):
        self.sched = sched
        self.pid = pid
        self.name = name
        self.gate = _real_lock()
        self.gate.acquire()
        self.ready = None       # predicate, or None when runnable
        self.wake_at = None     # virtual time at which a timed wait gives up
        self.why = 'new'
        self.state = 'new'      # new, running, exiting, dead
        self.killed = False
        self.kills = 0
        self.exitcode = None
        self.feeders = {}       # queue -> Feeder
        self.thread = None
        self.prio = 0.0
        self.local = {}
        self.owner = None

    def runnable(self):
        if self.state == 'dead':
            return False
        if self.killed:
            return True
        return self.ready is None or self.ready() or (self.wake_at is not None and self.sched.now >= self.wake_at)


class Feeder(object):
    def __init__(self, q, proc):
        self.q = q
        self.proc = proc
        self.buffer = []
        self.data = None        # message being written
        self.left = 0
        self.joined = True

    def pending(self):
        return bool(self.buffer) or self.data is not None

    def enabled(self):
        if self.data is not None:
            return self.q.used < self.q.capacity
        return bool(self.buffer) and self.q.wlock is None and self.q.used < self.q.capacity

    def step(self):
        q = self.q
        if self.data is None:
            obj = self.buffer.pop(0)
            try:
                self.data = bytes(ForkingPickler.dumps(obj))
            except Exception as e:
                # CPython's feeder prints a traceback, releases the slot and drops the item
                q.sched.trace('%s: feeder of %s lost an item: %s' % (self.proc.name, q.label, type(e).__name__))
                q.sched.count('queue item dropped by the feeder (not picklable)')
                q.slots -= 1
                return
            self.left = len(self.data) + 4
            q.wlock = self
        n = min(self.left, q.capacity - q.used)
        self.left -= n
        q.used += n
        q.written += n
        if self.left:
            q.sched.count('partial pipe write')
        else:
            q.messages.append(self.data)
            q.ends.append(q.written)
            self.data = None
            q.wlock = None


class Scheduler(object):
    """One run of the simulation."""

    def __init__(self, seed, policy='random', choices=None, ctx=None, max_steps=200000, capacity=PIPE_CAPACITY,
                 cpus=4, on_switch=None):
        self.rng = random.Random(seed)
        self.policy = policy
        self.script = list(choices) if choices is not None else None
        self.ctx = ctx
        self.max_steps = max_steps
        self.capacity = capacity
        self.cpus = cpus
        self.on_switch = on_switch
        self.now = 1.6e9
        self.steps = 0
        self.picks = []
        self.run_of_same = 0
        self.last = None
        self.procs = []
        self.queues = []
        self.counter = 0
        self.failed = None
        self.closing = False
        self.switches = 0
        self.main = Proc(self, 1000, 'main')
        self.main.state = 'running'
        self.main.thread = threading.current_thread()
        self.main.prio = self.rng.random()
        self.procs.append(self.main)
        self.current = self.main
        self.change = set()
        if policy == 'pct':
            self.change = {int(self.rng.random() ** 2 * 800) for _ in range(self.rng.randint(1, 6))}
        self.feeder_lazy = self.rng.random() if policy in ('random', 'pct') else 0.0
        self.pids = {}

    # -- bookkeeping
    def trace(self, line):
        if self.ctx is not None:
            self.ctx.trace('%6d t=%.6f %s' % (self.steps, self.now - 1.6e9, line))

    def count(self, kind):
        if self.ctx is not None:
            self.ctx.fault(kind)

    def me(self):
        return self.current

    # -- choosing
    def _events(self):
        out = []
        for p in self.procs:
            if p.state == 'dead':
                continue
            for f in p.feeders.values():
                if f.enabled():
                    out.append(f)
        return out

    def _choose(self, cands):
        n = len(cands)
        if n == 1:
            return 0
        if self.script is not None:
            k = self.script[len(self.picks)] % n if len(self.picks) < len(self.script) else 0
        elif self.policy == 'pct':
            if self.steps in self.change:
                self.current.prio = self.rng.random() * 0.1
            best, k = None, 0
            for i, c in enumerate(cands):
                pr = c.prio if isinstance(c, Proc) else (c.proc.prio + (0.5 - self.feeder_lazy))
                if best is None or pr > best:
                    best, k = pr, i
            if self.rng.random() < 0.02:
                k = self.rng.randrange(n)
        elif self.policy == 'sticky':
            k = 0 if self.rng.random() < 0.85 else self.rng.randrange(n)
        else:
            if self.feeder_lazy > 0.7 and self.rng.random() < 0.9:
                procs = [i for i, c in enumerate(cands) if isinstance(c, Proc)]
                k = self.rng.choice(procs) if procs else self.rng.randrange(n)
            else:
                k = self.rng.randrange(n)
        if cands[k] is self.last and self.run_of_same > 150:
            k = (k + 1 + self.rng.randrange(n - 1)) % n
        return k

    def _next(self):
        """Run feeder events until a process is chosen; return it."""
        while True:
            self.steps += 1
            if self.ctx is not None:
                self.ctx.steps = self.steps
            if self.steps > self.max_steps:
                self.failed = SimNoProgress('no progress within %d steps' % self.max_steps)
                return self.main
            cands = []
            if self.current.runnable():
                cands.append(self.current)
            for p in self.procs:
                if p is not self.current and p.runnable():
                    cands.append(p)
            cands += self._events()
            if not cands:
                times = [p.wake_at for p in self.procs if p.state != 'dead' and p.wake_at is not None]
                if times:
                    self.now = max(self.now, min(times))
                    if self.ctx is not None:
                        self.ctx.sim_time = self.now - 1.6e9
                    continue
                self.failed = SimDeadlock(self.describe())
                return self.main
            k = self._choose(cands)
            if len(cands) > 1:
                self.picks.append(k)
            c = cands[k]
            if c is self.last:
                self.run_of_same += 1
            else:
                self.run_of_same = 0
                self.last = c
            if isinstance(c, Feeder):
                self.trace('feed %s of %s' % (c.q.label, c.proc.name))
                c.step()
                continue
            return c

    def describe(self):
        return '; '.join('%s is %s' % (p.name, p.why if p.state == 'running' else p.state + ' (' + p.why + ')')
                         for p in self.procs if p.state != 'dead') + \
            ' | ' + ', '.join('%s: %d complete messages, %d bytes in the pipe' % (q.label, len(q.messages), q.used)
                              for q in self.queues)

    # -- switching
    def switch(self, why, ready=None, timeout=None):
        """A scheduling point of the current process.  True when `ready` holds, False on timeout."""
        me = self.current
        if self.closing:
            self._die(me)
        me.ready = ready
        me.why = why
        me.wake_at = None if timeout is None else self.now + max(0.0, timeout)
        self._transfer(me)
        ok = ready is None or ready()
        me.ready = None
        me.wake_at = None
        return ok

    def _transfer(self, me):
        nxt = self._next()
        if nxt is not me:
            self.switches += 1
            if self.on_switch:
                self.on_switch(me, nxt)
            self.current = nxt
            self.trace('run %s (%s)' % (nxt.name, nxt.why))
            nxt.gate.release()
            me.gate.acquire()
        if self.closing or me.killed:
            self._die(me)
        if me is self.main and self.failed is not None:
            f, self.failed = self.failed, None
            me.ready = None
            raise f

    def _die(self, me):
        if me is self.main:
            return
        me.kills += 1
        if me.kills > 40:
            _forever = _real_lock()
            _forever.acquire()
            _forever.acquire()
        raise Killed()

    # -- processes
    def spawn(self, name, target):
        self.counter += 1
        p = Proc(self, 1000 + self.counter, name)
        p.prio = self.rng.random()
        p.state = 'running'
        p.why = 'starting'
        self.procs.append(p)
        if self.on_switch:
            self.on_switch(self.current, p, True)

        def body():
            p.gate.acquire()
            code = 1
            try:
                if self.closing or p.killed:
                    return
                try:
                    target()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except Killed:
                    raise
                except BaseException as e:
                    self.trace('%s: uncaught %s' % (p.name, type(e).__name__))
                    code = 1
                p.state = 'exiting'
                self.switch('joining its feeder threads at exit',
                            lambda: not any(f.joined and f.pending() for f in p.feeders.values()))
            except Killed:
                code = -15
            finally:
                self._end(p, code)
        p.thread = _RealThread(target=body, daemon=True)
        p.thread.start()
        return p

    def _end(self, p, code):
        p.state = 'dead'
        p.why = 'exited'
        p.exitcode = code
        for f in p.feeders.values():
            if f.q.wlock is f and f.left and not self.closing:
                self.trace('%s died while writing to %s' % (p.name, f.q.label))
        self.trace('%s exited with %s' % (p.name, code))
        if self.closing:
            self.done.release()
            return
        try:
            nxt = self._next()
        except BaseException as e:   # pragma: no cover - a harness fault
            self.failed = e
            nxt = self.main
        if self.on_switch:
            self.on_switch(p, nxt)
        self.current = nxt
        nxt.gate.release()

    def shutdown(self):
        """End every simulated process that is still there; called by the driver, whatever happened."""
        self.closing = True
        self.current = self.main
        for p in self.procs[1:]:
            if p.state == 'dead':
                continue
            self.done = _real_lock()
            self.done.acquire()
            self.current = p
            p.gate.release()
            self.done.acquire(timeout=5)
        self.current = self.main
        if self.ctx is not None:
            self.ctx.sim_time = self.now - 1.6e9

    def alive(self):
        return [p for p in self.procs[1:] if p.state != 'dead']


CURRENT = None      # the active Scheduler


def sched():
    if CURRENT is None:
        raise RuntimeError('simulated multiprocessing used outside a simulation')
    return CURRENT


class Session(object):
    """with Session(...) as s: the body is the parent process of the simulation."""

    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs

    def __enter__(self):
        global CURRENT
        assert CURRENT is None
        CURRENT = Scheduler(*self.args, **self.kwargs)
        return CURRENT

    def __exit__(self, *exc):
        global CURRENT
        s = CURRENT
        try:
            s.shutdown()
        finally:
            CURRENT = None
        return False


# ---------------------------------------------------------------- the multiprocessing API

class Queue(object):
    _sync = False

    def __init__(self, maxsize=0, ctx=None):
        s = sched()
        self.sched = s
        self.label = 'queue%d' % len(s.queues)
        s.queues.append(self)
        self.maxsize = maxsize if maxsize and maxsize > 0 else 2 ** 31 - 1
        self.capacity = s.capacity
        self.messages = []
        self.ends = []
        self.used = 0
        self.written = 0
        self.read = 0
        self.wlock = None
        self.rlock = None
        self.slots = 0
        self.closed = set()
        self.unfinished = 0

    def _feeder(self):
        me = self.sched.me()
        f = me.feeders.get(self)
        if f is None:
            f = me.feeders[self] = Feeder(self, me)
        return f

    def put(self, obj, block=True, timeout=None):
        s = self.sched
        if s.me() in self.closed:
            raise ValueError('Queue %r is closed' % self)
        if self.slots >= self.maxsize:
            if not block or not s.switch('waiting for room in ' + self.label, lambda: self.slots < self.maxsize, timeout):
                raise _queue.Full
        self.slots += 1
        self.unfinished += 1
        f = self._feeder()
        f.buffer.append(obj)
        s.trace('%s: put on %s' % (s.me().name, self.label))
        s.switch('has put on ' + self.label)
        if self._sync:
            s.switch('writing to ' + self.label, lambda: not f.pending())

    def put_nowait(self, obj):
        return self.put(obj, False)

    def _unread(self):
        return self.written - self.read

    def get(self, block=True, timeout=None):
        s = self.sched
        me = s.me()
        if me in self.closed:
            raise ValueError('Queue %r is closed' % self)
        t_end = None if timeout is None else s.now + timeout
        if not block:
            t_end = s.now
            s.switch('polling ' + self.label)
            if self.rlock is not None or not self._unread():
                raise _queue.Empty
        elif not s.switch('waiting for the read lock of ' + self.label, lambda: self.rlock is None,
                          None if t_end is None else t_end - s.now):
            raise _queue.Empty
        self.rlock = me
        if block and not s.switch('waiting for a message on ' + self.label, lambda: self._unread() > 0,
                                  None if t_end is None else t_end - s.now):
            self.rlock = None
            raise _queue.Empty
        # drain the first message; its writer may still be at it
        while True:
            if self.messages:
                end = self.ends.pop(0)
                data = self.messages.pop(0)
                n = end - self.read
                self.read += n
                self.used -= n
                break
            n = self._unread()
            self.read += n
            self.used -= n
            s.switch('reading the rest of a message on ' + self.label, lambda: self._unread() > 0 or bool(self.messages))
        self.rlock = None
        self.slots -= 1
        s.trace('%s: got a message of %d bytes from %s' % (me.name, len(data), self.label))
        s.switch('has read from ' + self.label)
        return ForkingPickler.loads(data)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        self.sched.switch('asking whether %s is empty' % self.label)
        return self._unread() == 0

    def full(self):
        return self.slots >= self.maxsize

    def qsize(self):
        self.sched.switch('asking the size of ' + self.label)
        return self.slots

    def close(self):
        self.closed.add(self.sched.me())

    def join_thread(self):
        f = self.sched.me().feeders.get(self)
        if f is not None:
            self.sched.switch('joining the feeder of ' + self.label, lambda: not f.pending())

    def cancel_join_thread(self):
        self._feeder().joined = False

    def task_done(self):
        self.unfinished -= 1

    def join(self):
        self.sched.switch('joining ' + self.label, lambda: self.unfinished == 0)

    # a queue may only travel to a child by inheritance
    def __reduce__(self):
        raise RuntimeError('Queue objects should only be shared between processes through inheritance')


class SimpleQueue(Queue):
    _sync = True


class _Popen(object):
    def __init__(self, pid):
        self.pid = pid
        self.returncode = None


class Process(object):
    _Popen = staticmethod(lambda *a: None)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        s = sched()
        n = s.pids['n'] = s.pids.get('n', 0) + 1
        self._name = name or '%s-%d' % (type(self).__name__, n)
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self.daemon = bool(daemon)
        self._popen = None
        self._proc = None
        self._closed = False

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        self._name = v

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._proc is None, 'cannot start a process twice'
        s = sched()
        child = copy.copy(self)
        p = s.spawn(self._name, child.run)
        child._proc = p
        p.owner = child
        self._proc = p
        self._popen = _Popen(p.pid)
        s.trace('%s: started %s' % (s.me().name, self._name))
        s.switch('has started a process')

    def _check(self):
        if self._closed:
            raise ValueError('process object is closed')

    def is_alive(self):
        self._check()
        if self._proc is None:
            return False
        s = sched()
        if s.me() is self._proc:
            return True
        s.switch('looking at ' + self._name)
        return self._proc.state != 'dead'

    def join(self, timeout=None):
        self._check()
        assert self._proc is not None, 'can only join a started process'
        sched().switch('joining ' + self._name, lambda: self._proc.state == 'dead', timeout)

    def terminate(self):
        self._check()
        s = sched()
        if self._proc is not None and self._proc.state != 'dead':
            s.trace('terminate ' + self._name)
            s.count('process terminated')
            self._proc.killed = True
            s.switch('has terminated a process', lambda: self._proc.state == 'dead')

    kill = terminate

    def close(self):
        if self._proc is not None and self._proc.state != 'dead':
            raise ValueError('Cannot close a process while it is still running')
        self._closed = True

    @property
    def exitcode(self):
        self._check()
        return None if self._proc is None or self._proc.state != 'dead' else self._proc.exitcode

    @property
    def pid(self):
        return None if self._proc is None else self._proc.pid

    ident = pid

    @property
    def sentinel(self):
        return self._proc


class Lock(object):
    _recursive = False

    def __init__(self, ctx=None):
        self.holder = None
        self.depth = 0

    def acquire(self, block=True, timeout=None):
        s = sched()
        me = s.me()
        if self._recursive and self.holder is me:
            self.depth += 1
            return True
        if not block:
            s.switch('trying a lock')
            if self.holder is not None:
                return False
        elif not s.switch('waiting for a lock', lambda: self.holder is None, timeout):
            return False
        self.holder = me
        self.depth = 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.holder = None
        sched().switch('has released a lock')

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    _recursive = True


class Semaphore(object):
    def __init__(self, value=1, ctx=None):
        self.value = value

    def acquire(self, block=True, timeout=None):
        s = sched()
        if not block:
            s.switch('trying a semaphore')
            if self.value <= 0:
                return False
        elif not s.switch('waiting for a semaphore', lambda: self.value > 0, timeout):
            return False
        self.value -= 1
        return True

    def release(self):
        self.value += 1
        sched().switch('has released a semaphore')

    def get_value(self):
        return self.value

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Event(object):
    def __init__(self, ctx=None):
        self.flag = False

    def is_set(self):
        sched().switch('looking at an event')
        return self.flag

    def set(self):
        self.flag = True
        sched().switch('has set an event')

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        return sched().switch('waiting for an event', lambda: self.flag, timeout)


class _Value(object):
    def __init__(self, typecode, value=0, lock=True):
        self.value = value
        self._lock = RLock()

    def get_lock(self):
        return self._lock


class _MainProcess(object):
    name = 'MainProcess'
    daemon = False
    pid = ident = 1000
    exitcode = None

    def is_alive(self):
        return True


_MAIN = _MainProcess()


def current_process():
    if CURRENT is None or CURRENT.me().owner is None:
        return _MAIN
    return CURRENT.me().owner


def active_children():
    s = sched()
    return [p.owner for p in s.procs[1:] if p.state != 'dead']


def cpu_count():
    return CURRENT.cpus if CURRENT is not None else 4


def sim_time():
    return CURRENT.now if CURRENT is not None else 1.6e9


def sim_sleep(secs):
    if CURRENT is None:
        return
    CURRENT.switch('sleeping', lambda: False, secs)


class _Context(object):
    pass


_API = {'Queue': Queue, 'JoinableQueue': Queue, 'SimpleQueue': SimpleQueue, 'Process': Process, 'Lock': Lock, 'RLock': RLock,
        'Semaphore': Semaphore, 'BoundedSemaphore': Semaphore, 'Event': Event, 'Value': _Value,
        'current_process': current_process, 'active_children': active_children, 'cpu_count': cpu_count}


def get_context(method=None):
    c = _Context()
    for k, v in _API.items():
        setattr(c, k, v)
    c.get_context = get_context
    c.get_start_method = lambda *a: 'fork'
    return c


def install(clock=True):
    """Replace multiprocessing, time.sleep and time.time.  Must run before MTfit is imported."""
    import gc
    import multiprocessing
    import multiprocessing.queues
    import sys
    assert 'MTfit' not in sys.modules
    for k, v in _API.items():
        setattr(multiprocessing, k, v)
    multiprocessing.get_context = get_context
    multiprocessing.queues.Queue = Queue
    multiprocessing.queues.SimpleQueue = SimpleQueue
    multiprocessing.process.current_process = current_process
    gc.collect = lambda *a: 0
    if clock:
        _time.sleep = sim_sleep
        _time.time = sim_time
