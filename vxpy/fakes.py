"""Stand-ins for the modules threading and time, under the control of the run."""
import types
from .engine import Abort, Run, Unsupported, Violation


def run():
    r = Run.cur
    if r is None:
        raise Unsupported("used outside a run")
    return r


class _Obj:
    def __init__(self):
        r = Run.cur
        if r is None:
            raise Unsupported("a lock created outside a run")
        self._vx_serial = r.new_object(self)
        r.locks.append(self)


class Lock(_Obj):
    recursive = False

    def __init__(self):
        super().__init__()
        self.owner, self.count = None, 0

    def _vx_key(self):
        return (self._vx_serial, self.owner.id if self.owner else -1, self.count)

    def acquire(self, blocking=True, timeout=-1):
        r = run()
        if r.over:
            raise Abort()
        me = r.running
        if self.recursive and self.owner is me:
            self.count += 1
            return True
        if not blocking:
            r.point("trying a lock")
            if self.owner is not None:
                r.observe("busy")
                return False
        else:
            res = r.block("waiting for a lock", lambda: self.owner is None, None if timeout is None or timeout < 0 else r.now + timeout) if len(r.tasks) > 1 or self.owner else "ok"
            if res == "timeout":
                return False
        self.owner, self.count = me, 1
        me.held.append(self)
        return True

    def release(self):
        r = run()
        if r.over:
            return
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.recursive and self.owner is not r.running:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            if self in self.owner.held:
                self.owner.held.remove(self)
            self.owner = None

    def locked(self):
        run().point("looking at a lock")
        run().observe(self.owner is not None)
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    recursive = True


class Condition(_Obj):
    def __init__(self, lock=None):
        super().__init__()
        self._lock = RLock() if lock is None else lock
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self.waiters = []

    def _vx_key(self):
        return (self._vx_serial, tuple(t.id for t in self.waiters))

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def _owned(self):
        r = run()
        if r.over:
            raise Abort()
        if self._lock.owner is not r.running:
            raise RuntimeError("cannot wait on or notify an un-acquired lock")
        return r

    def wait(self, timeout=None):
        r = self._owned()
        me = r.running
        n, self._lock.count, self._lock.owner = self._lock.count, 0, None
        me.held.remove(self._lock)
        self.waiters.append(me)
        res = r.block("waiting for a condition", lambda: me not in self.waiters, None if timeout is None else r.now + max(timeout, 0))
        if me in self.waiters:
            self.waiters.remove(me)
        r.block("waiting for a lock", lambda: self._lock.owner is None)
        self._lock.owner, self._lock.count = me, n
        me.held.append(self._lock)
        return res == "ok"

    def wait_for(self, predicate, timeout=None):
        end, waittime = None, timeout
        result = predicate()
        while not result:
            if waittime is not None:
                if end is None:
                    end = run().now + waittime
                else:
                    waittime = end - run().now
                    if waittime <= 0:
                        break
            self.wait(waittime)
            result = predicate()
        return result

    def notify(self, n=1):
        self._owned()
        del self.waiters[:n]

    def notify_all(self):
        self._owned()
        del self.waiters[:]
    notifyAll = notify_all


class Event:
    def __init__(self):
        self._cond, self._flag = Condition(Lock()), False

    def is_set(self):
        with self._cond:
            run().observe(self._flag)
            return self._flag

    def set(self):
        with self._cond:
            self._flag = True
            self._cond.notify_all()

    def clear(self):
        with self._cond:
            self._flag = False

    def wait(self, timeout=None):
        with self._cond:
            run().observe(self._flag)
            if not self._flag:
                self._cond.wait(timeout)
            run().observe(self._flag)
            return self._flag


class Semaphore:
    bounded = False

    def __init__(self, value=1):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self._cond, self._value, self._initial = Condition(Lock()), value, value

    def _see(self):
        from .engine import key_of
        run().observe(("sem", key_of(self._value, run())))

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            self._see()
            ok = bool(self._cond.wait_for(lambda: self._value > 0, timeout)) if blocking else self._value > 0
            if ok:
                self._value -= 1
            self._see()
            return ok

    def release(self, n=1):
        with self._cond:
            self._see()
            if self.bounded and self._value + n > self._initial:
                raise ValueError("Semaphore released too many times")
            self._value += n
            self._cond.notify(n)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    bounded = True


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._t, self._target, self._args, self._kwargs, self.name, self.daemon = None, target, args, kwargs or {}, name, daemon

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        r = run()
        self._t = r.spawn(self.run, self.name)
        r.point("starting a thread")

    def join(self, timeout=None):
        r = run()
        r.block("waiting for a thread", lambda: self._t.done, None if timeout is None else r.now + max(timeout, 0))

    def is_alive(self):
        run().point("looking at a thread")
        run().observe(self._t.done)
        return self._t is not None and not self._t.done


def missing(module):
    def f(n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (module, n))
    return f


class _Float(type):
    def __call__(cls, *a):
        from .engine import Sym
        return a[0] if a and isinstance(a[0], Sym) else float(*a)

    def __instancecheck__(cls, x):
        from .engine import Sym
        return isinstance(x, (float, Sym))


class Float(metaclass=_Float):
    """float, which leaves symbolic numbers as they are"""


def make():
    th, tm = types.ModuleType("threading"), types.ModuleType("time")
    for c in (Lock, RLock, Condition, Event, Semaphore, BoundedSemaphore, Thread):
        setattr(th, c.__name__, c)
    for m in (th, tm):
        m.__getattr__ = missing(m.__name__)
    th.get_ident = lambda: run().running.id + 1
    th.current_thread = lambda: run().running

    def now():
        r = run()
        r.observe(r.now if isinstance(r.now, (int, float)) else ("now", str(r.now)))
        return r.clock if hasattr(r, "clock") else r.now
    tm.time = tm.monotonic = tm.perf_counter = now
    tm.time_ns = tm.monotonic_ns = tm.perf_counter_ns = lambda: now() * 1000000000

    def sleep(s):
        r = run()
        r.block("sleeping", lambda: False, r.now + max(s, 0))
    tm.sleep = sleep
    return th, tm


def pause():
    """Goes on only when no other thread can (waits with a time limit may still run out)."""
    r = run()
    r.block("pausing", lambda: True, None, True)


class Shared:
    """Variables of the harness read and written by several threads: each access is a scheduling point."""
    def __init__(self, **kw):
        object.__setattr__(self, "_vx_serial", run().new_object(self))
        self.__dict__.update(kw)
        run().objects.append(self)

    def __getattribute__(self, n):
        if n.startswith("_"):
            return object.__getattribute__(self, n)
        r = run()
        r.point("reading " + n)
        v = object.__getattribute__(self, n)
        from .engine import key_of
        r.observe(("r", n, key_of(v, r)))
        return v

    def __setattr__(self, n, v):
        run().point("writing " + n)
        object.__setattr__(self, n, v)


def instrument(cls):
    """Accesses to the attributes of the objects of a class of the repository are observed."""
    from .engine import key_of
    base_set, base_get, base_init = cls.__setattr__, cls.__getattribute__, cls.__init__

    def attr_get(self, n):
        r = Run.cur
        if r is None or r.over or n.startswith("__") or n == "_vx_serial":
            return base_get(self, n)
        d = object.__getattribute__(self, "__dict__")
        if n in d:
            r.access(self, n, False)
            v = base_get(self, n)
            r.observe(("r", n, key_of(v, r)))
            return v
        return base_get(self, n)

    def attr_set(self, n, v):
        r = Run.cur
        if r is not None and not r.over and n != "_vx_serial":
            d = object.__getattribute__(self, "__dict__")
            if "_vx_serial" not in d:
                object.__setattr__(self, "_vx_serial", r.new_object(self))
                r.objects.append(self)
            r.access(self, n, True)
        base_set(self, n, v)
    cls.__getattribute__, cls.__setattr__ = attr_get, attr_set


HOOKED = {}  # name of a module of the repository -> what its imports give instead


def hook_imports():
    """Imports of the repository's modules, wherever they are written, give the stand-ins."""
    import builtins
    if getattr(builtins.__import__, "vx", False):
        return
    real = builtins.__import__

    def imports(name, globals=None, locals=None, fromlist=(), level=0):
        if globals is not None and not level and HOOKED:
            for prefix, table in HOOKED.items():
                if (globals.get("__name__") or "").startswith(prefix):
                    top, _, rest = name.partition(".")
                    if top in table:
                        m = table[top]
                        for part in rest.split(".") if rest and fromlist else ():
                            m = getattr(m, part)
                        return m
        return real(name, globals, locals, fromlist, level)
    imports.vx = True
    builtins.__import__ = imports
