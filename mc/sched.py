"""Controlled scheduler: explores thread interleavings of real code.

Tasks are OS threads, of which exactly one runs at a time. At every scheduling point the
running task picks the next one, following a list of choices; :func:`explore` enumerates
all choice lists up to a bound on deviations (preemptions, and timers that fire while
another task could run). Time is virtual: it advances when no task can run.

With a cache, executions that reach a state that was already explored, with as many
deviations left, are cut off. The state is everything that the tasks can see: their
frames (position and locals, including those of suspended generators), what they wait
for, and the shared objects, see :func:`digest`.

The shims (:class:`Lock`, :class:`Condition`, ...) stand in for threading, queue and time.
Called outside a task, eg during setup, they don't block.
"""
import _thread
import collections
import logging
import os
import queue as real_queue
import sys
import threading as real
import time as real_time
import types


class Kill(BaseException):
    """Ends a task when the execution is over."""


class Deadlock(Exception):
    pass


class Worker:
    """An OS thread, reused by many tasks."""
    idle = []
    pid = None

    def __init__(self):
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.job = None
        _thread.start_new_thread(self.loop, ())

    def loop(self):
        while True:
            self.go.acquire()
            job, self.job = self.job, None
            job()

    @classmethod
    def run(cls, job):
        if cls.pid != os.getpid():
            cls.pid, cls.idle = os.getpid(), []
        w = cls.idle.pop() if cls.idle else cls()
        w.job = job
        w.go.release()
        return w


class Task:
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.id = len(sched.tasks)
        self.done = False
        self.error = None
        self.label = 'start'
        self.enabled = None     # callable or None
        self.wake = None        # virtual time at which it becomes enabled anyway
        self.timed_out = False
        self.frame = None
        self.mover = True
        self.steps = 0
        self.local = {}
        self.worker = Worker.run(self._run)

    def _run(self):
        self.sem.acquire()
        _current.task = self
        try:
            if not self.sched.killed:
                if self.sched.trace_files:
                    sys.settrace(self.sched.tracer)
                self.fn()
        except Kill:
            pass
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            _current.task = None
            self.frame = None
            self.done = True
            Worker.idle.append(self.worker)
            self.sched.finish(self)

    def ready(self):
        return self.enabled is None or self.enabled()


class _Local(real.local):
    task = None


_current = _Local()


def current():
    return _current.task


def point(label, enabled=None, timeout=None, mover=False):
    """A scheduling point. Returns False if the wait timed out.

    Args:
      mover (bool): the operation commutes with all operations of other tasks that can come
        before it, once it is enabled. It's then done right away, without alternatives.
      enabled (callable): the task can only go on when this returns True
      timeout (float): virtual seconds after which the task goes on anyway
    """
    t = _current.task
    if t is None:
        return True if enabled is None else bool(enabled())
    return t.sched.switch(t, label, enabled, timeout, mover)


class Sched:
    def __init__(self, choices=(), trace_files=(), early_timers=False, horizon=1e9,
                 max_steps=20000, trace_names=None, on_step=None, cache=None,
                 shared=None, bound=None, opcodes=False, trace_skip=()):
        self.tasks = []
        self.choices = list(choices)
        self.points = []        # (number of options, costs, labels)
        self.taken = []
        self.now = 1_700_000_000.0
        self.start = self.now
        self.killed = False
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.cache, self.shared, self.bound = cache, shared, bound
        self.cost = 0
        self.pruned = False
        self.base = None        # [task that ran before movers did]
        self.stop = None        # ends the execution when it returns True
        self.trace_files = frozenset(trace_files)
        self.trace_names = trace_names
        self.trace_skip = trace_skip
        self.opcodes = opcodes
        self.early_timers = early_timers
        self.horizon = horizon
        self.max_steps = max_steps
        self.steps = 0
        self.truncated = False
        self.diverged = False
        self.on_step = on_step

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        return t

    def tracer(self, frame, event, arg):
        code = frame.f_code
        if (code.co_filename in self.trace_files and code.co_name not in self.trace_skip
                and (not self.trace_names or code.co_name in self.trace_names)):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._line

    def _line(self, frame, event, arg):
        if event in ('line', 'opcode'):
            point(f'line {frame.f_lineno}')
        return self._line

    # scheduling: runs in whichever task holds the token

    def pick(self, cur):
        """Returns the next task, or None if the execution is over."""
        if self.killed:
            return None
        if self.on_step:
            self.on_step(self)
        if self.stop and self.stop():
            return None
        while True:
            ready = [t for t in self.tasks if not t.done and t.ready()]
            waiting = sorted((t for t in self.tasks
                              if not t.done and t.wake is not None and t not in ready),
                             key=lambda t: (t.wake, t.id))
            due = [t for t in waiting if t.wake <= self.now]
            ready += due
            if ready:
                break
            if not waiting or waiting[0].wake > self.start + self.horizon:
                return None
            self.now = waiting[0].wake
        self.steps += 1
        if self.steps > self.max_steps:
            self.truncated = True
            return None
        movers = [t for t in ready if t.mover and t.ready()]
        if movers:
            # all the others stay enabled. going on with cur afterward is no preemption
            if self.base is None:
                self.base = [cur]
            movers[0].wake = None
            return movers[0]
        if self.base is not None:
            cur, self.base = self.base[0], None
        ready.sort(key=lambda t: (t is not cur, t.id))
        options = list(ready)
        cur_ready = cur in ready
        costs = [0] + [1 if cur_ready else 0] * (len(ready) - 1)
        if self.early_timers:
            early = [t for t in waiting if t not in ready]
            if early:
                options.append(early[0])
                costs.append(1)
        i = 0
        if len(options) > 1:
            n = len(self.points)
            if self.cache is not None and n >= len(self.choices) and self.seen(cur):
                self.pruned = True
                return None
            if n < len(self.choices):
                i = self.choices[n]
                if i >= len(options):
                    self.diverged = True
                    i = 0
            self.points.append((len(options), costs))
            self.taken.append(i)
            self.cost += costs[i]
        t = options[i]
        if not t.ready():
            # a timer fires
            self.now = max(self.now, t.wake)
            t.timed_out = True
        t.wake = None
        return t

    def switch(self, t, label, enabled, timeout, mover=False):
        if self.killed:
            raise Kill()
        t.label, t.enabled, t.timed_out, t.mover = label, enabled, False, mover
        t.wake = None if timeout is None else self.now + timeout
        t.steps += 1
        t.frame = sys._getframe(1)
        nxt = self.pick(t)
        if nxt is not t:
            (nxt.sem if nxt else self.main).release()
            t.sem.acquire()
            if self.killed:
                raise Kill()
        t.enabled = None
        return not t.timed_out

    def finish(self, t):
        if self.killed:
            self.main.release()
            return
        nxt = self.pick(None)
        (nxt.sem if nxt else self.main).release()

    def run(self):
        """Runs all tasks until none can go on, or the horizon."""
        nxt = self.pick(None)
        if nxt:
            nxt.sem.release()
            self.main.acquire()
        # what each task was doing at the end
        self.blocked = {t.name: t.label for t in self.tasks if not t.done}

    def seen(self, cur):
        """Whether the current state was explored before, with as many deviations left."""
        d = _Digest(self)
        sig = [round(self.now - self.start, 3), self.bound is not None and cur and not cur.done and cur.name]
        for t in self.tasks:
            if t.done:
                sig.append((t.name, repr(t.error) if t.error else None))
                continue
            frames = []
            f = t.frame
            while f is not None and f.f_code is not _RUN:
                if f.f_code.co_filename != __file__:
                    frames.append((f.f_code.co_name, f.f_lasti, d(f.f_locals)))
                f = f.f_back
            sig.append((t.name, t.label, t.steps, t.ready(),
                        t.wake and round(t.wake - self.now, 3), d(t.local), tuple(frames)))
        sig.append(d(self.shared() if self.shared else None))
        sig = hash(tuple(sig))
        left = 1e9 if self.bound is None else self.bound - self.cost
        if self.cache.get(sig, -1) >= left:
            return True
        self.cache[sig] = left
        return False

    def kill(self):
        """Ends all tasks. Must be called at the end of every execution."""
        self.killed = True
        for t in self.tasks:
            if not t.done:
                t.sem.release()
                self.main.acquire()


_RUN = Task._run.__code__
_ATOMS = (int, str, bool, bytes, type(None), complex)
_NAMED = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type,
          types.MethodType)
DIGESTERS = {}      # type => function to something that can be digested


class _Digest:
    """Digests objects into something hashable that identifies their state."""
    MAX = 12

    def __init__(self, sched):
        self.sched = sched
        self.stack = []

    def __call__(self, o):
        t = type(o)
        if t in _ATOMS:
            return o
        if t is float:
            return round(o - self.sched.start, 3) if o > 1e9 else o
        if isinstance(o, _NAMED):
            return getattr(o, '__name__', None)
        if t is Task:
            return o.name
        if o is self.sched or t in _OPAQUE:
            return t.__name__
        if any(o is x for x in self.stack):
            return 'cycle'
        if len(self.stack) >= self.MAX:
            return ('deep', t.__name__)
        self.stack.append(o)
        try:
            return self.compound(o, t)
        finally:
            self.stack.pop()

    def compound(self, o, t):
        for cls in t.__mro__:
            if cls in DIGESTERS:
                return (t.__name__, self(DIGESTERS[cls](o)))
        if isinstance(o, dict):
            return (t.__name__, tuple((self(k), self(v)) for k, v in o.items()))
        if isinstance(o, (set, frozenset)):
            return (t.__name__, hash(frozenset(self(x) for x in o)))
        if isinstance(o, (list, tuple, collections.deque)):
            return (t.__name__, tuple(self(x) for x in o))
        if isinstance(o, types.GeneratorType):
            f = o.gi_frame
            return ('gen', o.__name__) if f is None else (
                'gen', o.__name__, f.f_lasti, o.gi_running or self(f.f_locals))
        if t.__module__ == 'builtins' and hasattr(o, '__length_hint__'):
            return (t.__name__, o.__length_hint__())
        if isinstance(o, types.CellType):
            try:
                return self(o.cell_contents)
            except ValueError:
                return 'empty'
        if hasattr(o, '__dict__'):
            return (t.__name__, self(vars(o)))
        return ('?', t.__name__)


def explore(ctx, run, bound, cap=None):
    """Enumerates all schedules with at most bound deviations.

    Args:
      run (callable): list of choices => Sched, after the execution and its checks
    """
    stack = [((), 0)]
    n = 0
    while stack:
        prefix, cost = stack.pop()
        if ctx.expired():
            return n
        if cap and n >= cap:
            ctx.capped = True
            return n
        s = run(prefix)
        n += 1
        ctx.execution()
        ctx.step(s.steps)
        ctx.state(len(s.points))
        ctx.count('schedules')
        if s.truncated:
            ctx.count('truncated_schedules')
        if s.pruned:
            ctx.count('merged_schedules')
        if s.diverged:
            ctx.count('diverged_schedules')
            continue
        c = 0
        for i, (k, costs) in enumerate(s.points):
            if i >= len(prefix):
                for alt in range(k - 1, 0, -1):
                    if bound is None or cost + costs[alt] <= bound:
                        # points after the prefix took choice 0, which costs nothing
                        stack.append((tuple(s.taken[:i]) + (alt,), cost + costs[alt]))
    return n


_OPAQUE = {logging.Logger, Sched}
# stand-ins for threading, queue and time

class Lock:
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _current.task
        if me is None:
            return True
        if me.sched.killed:
            return True
        if not blocking:
            point('try lock')
            if not self._owner_ok(me):
                return False
        else:
            ok = point('lock', lambda: self._owner_ok(me), timeout if timeout >= 0 else None)
            if not ok:
                return False
        if self.owner is not me:
            self.count = 0
        self.owner, self.count = me, self.count + 1
        return True

    def _owner_ok(self, me):
        return (self.owner is None or self.reentrant and self.owner is me
                # left over from an execution that was ended
                or self.owner.sched is not me.sched)

    def release(self):
        me = _current.task
        if me is None or me.sched.killed:
            return
        if self.owner is not me:
            raise RuntimeError('release of a lock that is not held')
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


class RLock(Lock):
    reentrant = True


class Condition:
    def __init__(self, lock=None):
        self.lock = lock or RLock()
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *exc):
        self.lock.release()

    def wait(self, timeout=None):
        me = _current.task
        if me is None:
            return True
        if self.lock.owner is not me and not me.sched.killed:
            raise RuntimeError('cannot wait on un-acquired lock')
        token = [False]
        self.waiters.append(token)
        count, self.lock.owner, self.lock.count = self.lock.count, None, 0
        ok = point('wait', lambda: token[0], timeout)
        if token in self.waiters:
            self.waiters.remove(token)
        if not me.sched.killed:
            point('relock', lambda: self.lock._owner_ok(me))
            self.lock.owner, self.lock.count = me, count
        return ok

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout):
                return predicate()
        return True

    def notify(self, n=1):
        me = _current.task
        if me is not None and self.lock.owner is not me and not me.sched.killed:
            raise RuntimeError('cannot notify on un-acquired lock')
        for token in self.waiters[:n]:
            token[0] = True
            self.waiters.remove(token)

    def notify_all(self):
        self.notify(len(self.waiters))


class Event:
    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def set(self):
        point('event set', mover=True)
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        point('event wait', lambda: self.flag, timeout, mover=True)
        return self.flag


class Semaphore:
    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        if not blocking:
            point('try semaphore')
            ok = self.value > 0
        else:
            ok = point('semaphore', lambda: self.value > 0, timeout)
        if ok:
            self.value -= 1
        return ok

    def release(self, n=1):
        self.value += n

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


class Queue:
    """SimpleQueue, or Queue."""
    on_get = None   # called with (queue, task) when a task starts to wait

    def __init__(self, maxsize=0):
        self.items = []
        self.maxsize = maxsize
        self.creator = _current.task and _current.task.name

    def put(self, item, block=True, timeout=None):
        if self.maxsize and len(self.items) >= self.maxsize:
            if not block:
                raise real_queue.Full()
            if not point('queue put', lambda: len(self.items) < self.maxsize, timeout):
                raise real_queue.Full()
        else:
            point('queue put', mover=not self.maxsize)
        self.items.append(item)

    def put_nowait(self, item):
        self.put(item, block=False)

    def get(self, block=True, timeout=None):
        if self.on_get:
            Queue.on_get(self, _current.task)
        if not block:
            point('queue try get')
            if not self.items:
                raise real_queue.Empty()
        elif not point('queue get', lambda: bool(self.items), timeout, mover=not self.maxsize):
            raise real_queue.Empty()
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)


class SimpleQueue(Queue):
    def __init__(self):
        super().__init__()


class Thread(real.Thread):
    pass


CLOCK = [0.0]


def _sched():
    return _current.task.sched if _current.task else None


def time():
    s = _sched()
    if s is None:
        return CLOCK[0] or 1_700_000_000.0
    s.now += 1e-6    # time always passes
    return s.now


def sleep(secs):
    point('sleep', (lambda: False) if secs and secs > 0 else None,
          secs if secs and secs > 0 else None, mover=True)


def _shim_module(orig, **names):
    m = types.ModuleType(orig.__name__)
    m.__dict__.update({k: v for k, v in vars(orig).items() if not k.startswith('__')})
    m.__dict__.update(names)
    return m


threading_shim = _shim_module(
    real, Lock=Lock, RLock=RLock, Condition=Condition, Event=Event, Semaphore=Semaphore,
    BoundedSemaphore=Semaphore)
queue_shim = _shim_module(real_queue, Queue=Queue, SimpleQueue=SimpleQueue)
time_shim = _shim_module(real_time, time=time, monotonic=time, sleep=sleep,
                         perf_counter=time)

_TYPES = [(type(real.Lock()), Lock), (type(real.RLock()), RLock), (real.Condition, Condition),
          (real.Event, Event), (real.Semaphore, Semaphore)]
_NAMES = {real.Lock: Lock, real.RLock: RLock, real.Condition: Condition, real.Event: Event,
          real.Semaphore: Semaphore, real_queue.Queue: Queue, real_queue.SimpleQueue: SimpleQueue,
          real_time.time: time, real_time.sleep: sleep, real_time.monotonic: time}
_MODULES = {real: threading_shim, real_queue: queue_shim, real_time: time_shim}


def shim(owner):
    """Replaces everything from threading, queue and time in a module or class.

    Returns a function that undoes it.
    """
    undo = []
    for k, v in list(vars(owner).items()):
        if k.startswith('__'):
            continue
        new = None
        if isinstance(v, types.ModuleType):
            new = _MODULES.get(v)
        elif isinstance(v, type) or callable(v):
            try:
                new = _NAMES.get(v)
            except TypeError:
                pass
        if new is None:
            for t, cls in _TYPES:
                if type(v) is t:
                    new = cls()
        if new is not None:
            undo.append((k, v))
            setattr(owner, k, new)

    def restore():
        for k, v in undo:
            setattr(owner, k, v)
    return restore
