"""Deterministic scheduler for code that uses multiprocessing.

The processes of the code under test run as tasks (threads of which exactly
one is running at any time).  Every operation on a shared object is a point at
which the next task is chosen: by default round robin, stay with the running
task; every deviation from it is a symbolic Boolean of the harness (delay
bounded scheduling, see Emmi, Qadeer, Rakamaric, POPL 2011), so that the
explored schedules are all those with at most `delays` deviations.
"""
import threading

STEPS = 4000
SPIN = 80


class Dead(BaseException):
    """Ends the task of a finished run."""


class Task(object):
    def __init__(self, sched, name, f):
        self.sched, self.name, self.f = sched, name, f
        self.enabled = lambda: True
        self.sleeping = False
        self.done = False
        self.go = threading.Semaphore(0)
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        self.go.acquire()
        try:
            if not self.sched.dead:
                self.f()
        except Dead:
            pass
        except BaseException as e:                          # noqa: B902
            self.sched.error = self.sched.error or (self, e)
        self.done = True
        self.sched.back.release()


class Sched(object):
    def __init__(self, env, delays):
        self.env, self.delays = env, delays
        self.tasks, self.back = [], threading.Semaphore(0)
        self.current, self.error, self.dead = None, None, False
        self.step, self.trace = 0, []

    def spawn(self, name, f):
        t = Task(self, name, f)
        self.tasks.append(t)
        return t

    # ------------------------------------------------- called by the tasks
    def point(self, what, enabled=None, sleep=False):
        t = self.current
        if t is None or threading.current_thread() is not t.thread:
            if enabled is not None and not enabled():
                raise RuntimeError('operation would block: ' + what)
            return
        t.enabled = enabled or (lambda: True)
        t.sleeping = sleep
        t.what = what
        self.back.release()
        t.go.acquire()
        if self.dead:
            raise Dead()
        t.sleeping = False
        t.enabled = lambda: True

    # ---------------------------------------------------------- scheduling
    def pick(self, spin):
        n = len(self.tasks)
        i = self.tasks.index(self.current) if self.current else 0
        order = self.tasks[i:] + self.tasks[:i]
        if spin:
            order = order[1:] + order[:1]
        ready = [t for t in order if not t.done and t.enabled()]
        awake = [t for t in ready if not t.sleeping]
        ready = awake + [t for t in ready if t.sleeping]
        k, m = 0, len(awake)
        while self.delays > 0 and k + 1 < m and bool(
                self.env.bool('delay_%d_%d' % (self.step, k))):
            self.delays -= 1
            k += 1
        return ready[k] if ready else None

    def run(self, main):
        """Run until the task main is done; False: dead lock or endless."""
        same = idle = 0
        try:
            while not main.done:
                t = self.pick(same > SPIN)
                if t is None:
                    return False
                idle = idle + 1 if t.sleeping else 0
                same = same + 1 if t is self.current else 0
                self.step += 1
                if self.step > STEPS or idle > 50:
                    return False
                self.current = t
                t.go.release()
                self.back.acquire()
                if self.error:
                    raise self.error[1]
            return True
        finally:
            self.kill()

    def kill(self):
        self.dead = True
        for t in self.tasks:
            while not t.done:
                t.go.release()
                t.thread.join(0.05)
        self.current = None


class Lock(object):
    def __init__(self, s):
        self.s, self.owner = s, None

    def acquire(self, *a, **k):
        self.s.point('lock', lambda: self.owner is None)
        self.owner = self.s.current or self
        return True

    def release(self):
        self.owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Value(object):
    def __init__(self, s, init=0):
        self.s, self.v = s, init

    @property
    def value(self):
        self.s.point('read')
        return self.v

    @value.setter
    def value(self, v):
        self.s.point('write')
        self.v = int(v)

    def get_lock(self):
        return Lock(self.s)


class Empty(Exception):
    pass


class Queue(object):
    def __init__(self, s, maxsize=0):
        self.s, self.max, self.items = s, maxsize, []

    def get(self, block=True, timeout=None):
        if block and timeout is None:
            self.s.point('get', lambda: len(self.items) > 0)
        else:
            self.s.point('get', sleep=timeout is not None)
            if not self.items:
                import queue
                raise queue.Empty()
        return self.items.pop(0)

    def put(self, x, block=True, timeout=None):
        free = lambda: self.max <= 0 or len(self.items) < self.max  # noqa
        if block and timeout is None:
            self.s.point('put', free)
        else:
            self.s.point('put', sleep=timeout is not None)
            if not free():
                import queue
                raise queue.Full()
        self.items.append(x)

    def get_nowait(self):
        return self.get(False)

    def put_nowait(self, x):
        return self.put(x, False)

    def empty(self):
        self.s.point('empty')
        return not self.items

    def full(self):
        self.s.point('full')
        return 0 < self.max <= len(self.items)

    def qsize(self):
        self.s.point('qsize')
        return len(self.items)


class Process(object):
    def __init__(self, s, target=None, args=(), kwargs=None, name=None,
                 daemon=None):
        self.s, self.target, self.daemon = s, target, daemon
        self.args, self.kwargs = args, kwargs or {}
        self.task = None

    def start(self):
        self.task = self.s.spawn(self.target.__name__, lambda: self.target(
            *self.args, **self.kwargs))

    def is_alive(self):
        self.s.point('alive')
        return self.task is not None and not self.task.done

    def join(self, timeout=None):
        if timeout is None:
            self.s.point('join', lambda: self.task.done)

    def terminate(self):
        pass


class Multiprocessing(object):
    """Stands in for the module of that name."""

    def __init__(self, s):
        self.s = s
        self.queues, self.values = [], []

    def Value(self, typecode, init=0, lock=True):           # noqa: N802
        v = Value(self.s, init)
        self.values.append(v)
        return v

    def Lock(self):                                         # noqa: N802
        return Lock(self.s)

    RLock = Lock

    def Queue(self, maxsize=0):                             # noqa: N802
        q = Queue(self.s, maxsize)
        self.queues.append(q)
        return q

    def Manager(self):                                      # noqa: N802
        return self

    def Process(self, *a, **k):                             # noqa: N802
        return Process(self.s, *a, **k)


class Time(object):
    def __init__(self, s):
        self.s = s

    def sleep(self, seconds):
        self.s.point('sleep', sleep=True)

    def time(self):
        return 0.

    perf_counter = monotonic = time
