"""Symbolic execution of Python code: the real functions run in CPython on symbolic values (z3 terms); every branch on a
symbolic condition, every choice of the harness and every scheduling decision is forked by running again with another
sequence of decisions. Threads run one at a time; the stand-ins of threading.py and time.py (fakes.py) decide who goes on."""
import enum
import fractions
import operator
import threading as real_threading
import types
import z3


class Abort(BaseException):
    """Leaves a run that is over (pruned, assumption false)."""


class Unsupported(BaseException):
    """The run did something the machinery cannot represent: no verdict."""


class Restart(BaseException):
    """A shared attribute without a common lock was found: accesses to it become scheduling points."""


class Violation(BaseException):
    def __init__(self, kind, msg, where=""):
        self.kind, self.msg, self.where = kind, msg, where


def term(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        n, d = fractions.Fraction(x).as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d)
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(x.numerator) / z3.RealVal(x.denominator)
    return None


class Sym:
    __slots__ = ("e",)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "<symbolic>"

    def __str__(self):
        raise Unsupported("text of a symbolic value")

    def __format__(self, spec):
        raise Unsupported("text of a symbolic value")


def wrap(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_bool(e):
        return SymBool(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymNum(e)


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return Run.cur.branch(self.e)

    def __eq__(self, o):
        t = term(o)
        if t is None or not z3.is_bool(t):
            return NotImplemented
        return wrap(self.e == t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r if isinstance(r, bool) else wrap(z3.Not(r.e)))

    def __and__(self, o):
        return wrap(z3.And(self.e, term(o)))

    def __or__(self, o):
        return wrap(z3.Or(self.e, term(o)))

    def __xor__(self, o):
        return wrap(z3.Xor(self.e, term(o)))
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))


def _as_number(n):
    def g(self, o):
        return getattr(operator, n)(int(self), int(o) if isinstance(o, SymBool) else o)
    return g


for _n in ("lt", "le", "gt", "ge", "add", "sub", "mul"):
    setattr(SymBool, "__%s__" % _n, _as_number(_n))
SymBool.__radd__, SymBool.__rmul__, SymBool.__rsub__ = SymBool.__add__, SymBool.__mul__, lambda self, o: o - int(self)


def _bin(f, swap=False):
    def g(self, o):
        t = term(o)
        if t is None:
            return NotImplemented
        if z3.is_bool(t):
            t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
        a, b = (t, self.e) if swap else (self.e, t)
        if z3.is_int(a) != z3.is_int(b):
            a, b = (z3.ToReal(x) if z3.is_int(x) else x for x in (a, b))
        return wrap(f(a, b))
    return g


class SymNum(Sym):
    """An integer of any size, or a real number."""
    __slots__ = ()
    __add__, __radd__ = _bin(lambda a, b: a + b), _bin(lambda a, b: a + b)
    __sub__, __rsub__ = _bin(lambda a, b: a - b), _bin(lambda a, b: a - b, True)
    __mul__, __rmul__ = _bin(lambda a, b: a * b), _bin(lambda a, b: a * b)
    __lt__, __le__, __gt__, __ge__ = _bin(lambda a, b: a < b), _bin(lambda a, b: a <= b), _bin(lambda a, b: a > b), _bin(lambda a, b: a >= b)
    __eq__, __ne__ = _bin(lambda a, b: a == b), _bin(lambda a, b: a != b)

    def __truediv__(self, o):
        t = term(o)
        if not isinstance(o, (int, float)) or o == 0:
            raise Unsupported("division by a symbolic value")
        return wrap((z3.ToReal(self.e) if z3.is_int(self.e) else self.e) / (z3.ToReal(t) if z3.is_int(t) else t))

    def __neg__(self):
        return wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.e < 0, -self.e, self.e))

    def __bool__(self):
        return Run.cur.branch(self.e != 0)

    def __float__(self):
        raise Unsupported("machine number from a symbolic value")
    __int__ = __index__ = __float__

    def __round__(self, n=None):
        raise Unsupported("rounding a symbolic value")


def key_of(v, run, depth=0):
    """A value as part of a state: equal keys mean equal values."""
    if isinstance(v, Sym):
        return ("z", v.e.get_id()) if run.keep(v.e) else None
    if v is None or isinstance(v, (bool, int, float, str, bytes, fractions.Fraction)):
        return v
    if depth < 4 and isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(key_of(x, run, depth + 1) for x in v)
    if depth < 4 and isinstance(v, dict):
        return ("d",) + tuple((key_of(k, run, depth + 1), key_of(x, run, depth + 1)) for k, x in v.items())
    if depth < 4 and isinstance(v, (set, frozenset)):
        return ("s", tuple(sorted(map(repr, v))))
    s = getattr(v, "_vx_serial", None)
    if s is not None:
        return ("o", s)
    if isinstance(v, enum.Enum):
        return ("e", type(v).__qualname__, v.name)
    if isinstance(v, (type, types.FunctionType)) and not getattr(v, "__closure__", None):
        return ("f", v.__module__, v.__qualname__)
    run.nomatch = True
    return ("u", id(v))


class Task:
    def __init__(self, run, fn, name):
        self.run, self.fn, self.name, self.id = run, fn, name, len(run.tasks)
        self.sem = real_threading.Semaphore(0)
        self.ready, self.deadline, self.idle = None, None, False
        self.done, self.hist, self.held, self.result = False, 0, [], None
        self.where = "start"
        self.steps = 0

    def body(self):
        r = self.run
        self.sem.acquire()
        try:
            if not r.over:
                self.fn()
        except (Abort, Violation, Unsupported, Restart) as e:
            r.stop(e)
        except BaseException as e:  # the code raised something nobody caught
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            r.stop(Violation("exception", "%s: %s" % (type(e).__name__, e), "%s:%d" % (tb.tb_frame.f_code.co_filename, tb.tb_lineno)))
        self.done = True
        self.held = []
        if r.over:
            r.finished.release()
        else:
            try:
                if self.id == 0:
                    r.stop(None)
                    r.finished.release()
                else:
                    r.switch(self, leaving=True)
            except BaseException as e:
                r.stop(e)
                r.finished.release()


class Run:
    cur = None

    def __init__(self, ex, prefix, values=None):
        self.ex, self.prefix, self.values = ex, prefix, values
        self.concrete = values is not None
        self.trace, self.model_terms = [], []
        self.choices = []
        self.solver = None if self.concrete else ex.solver()
        self.tasks, self.running = [], None
        self.over, self.outcome = False, None
        self.finished = real_threading.Semaphore(0)
        self.serial, self.objects, self.locks, self.kept = 0, [], [], []
        self.now = 0
        self.steps = 0
        self.out = []
        self.schedule = []
        self.fair = self.spin = self.preempted = 0
        self.nomatch = False

    def keep(self, e):
        self.ex.kept[e.get_id()] = e
        return True

    # decisions
    def decide(self, n, forced=None):
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
            for k in range(1, n):
                self.ex.pending.append(self.trace + [k])
                self.ex.forks += 1
        self.trace.append(c)
        return c

    def choose(self, label, n):
        if n <= 1:
            return 0
        c = self.decide(n)
        self.choices.append((label, c))
        self.observe(("c", label, c))
        return c

    def observe(self, x):
        if self.running is not None:
            self.running.hist = hash((self.running.hist, x))

    def branch(self, e):
        if self.concrete:
            self.leave(Unsupported("symbolic value in a concrete run"))
        i = len(self.trace)
        if i < len(self.prefix):
            out = self.prefix[i]
        else:
            can = self.ex.check(self.solver, e)
            cannot = self.ex.check(self.solver, z3.Not(e)) if can else True
            if can and cannot:
                out = 1
                self.ex.pending.append(self.trace + [0])
                self.ex.forks += 1
            else:
                out = 1 if can else 0
        self.trace.append(out)
        self.solver.add(e if out else z3.Not(e))
        self.observe(("b", e.get_id() if self.keep(e) else 0, out))
        return bool(out)

    # values
    def sym(self, name, make, default):
        n = "%s#%d" % (name, len(self.model_terms))
        if self.concrete:
            v = self.values.get(n, default)
            self.model_terms.append((n, v))
            return v
        e = make(n)
        self.model_terms.append((n, e))
        return e

    def sym_int(self, name):
        v = self.sym(name, z3.Int, 0)
        return v if self.concrete else SymNum(v)

    def sym_real(self, name):
        v = self.sym(name, z3.Real, 0)
        return fractions.Fraction(v) if self.concrete else SymNum(v)

    def sym_bool(self, name):
        v = self.sym(name, z3.Bool, False)
        return v if self.concrete else SymBool(v)

    def assume(self, c):
        if isinstance(c, Sym):
            if len(self.trace) >= len(self.prefix) and not self.ex.check(self.solver, c.e):
                self.leave(Abort())
            self.solver.add(c.e)
        elif not c:
            self.leave(Abort())

    def check(self, c, msg):
        self.ex.asserts += 1
        if isinstance(c, SymBool):
            if len(self.trace) < len(self.prefix):
                self.solver.add(c.e)
                return
            if self.ex.check(self.solver, z3.Not(c.e)):
                self.solver.add(z3.Not(c.e))
                self.leave(Violation("assert", msg))
            self.solver.add(c.e)
        elif not c:
            self.leave(Violation("assert", msg))

    def equal(self, a, b, msg):
        """Two values, or two sequences of values of the same length, are equal: left to the solver whenever one is symbolic."""
        if not isinstance(a, (list, tuple)):
            a, b = [a], [b]
        pairs = []
        for x, y in zip(a, b):
            ex, ey = (v.e if hasattr(v, "e") else v for v in (x, y))
            if z3.is_expr(ex) or z3.is_expr(ey):
                tx, ty = (v if z3.is_expr(v) else term(v) for v in (ex, ey))
                if tx is None or ty is None or z3.is_bool(tx) != z3.is_bool(ty):
                    self.check(False, msg)
                if not z3.is_bool(tx) and z3.is_int(tx) != z3.is_int(ty):
                    tx, ty = (z3.ToReal(v) if z3.is_int(v) else v for v in (tx, ty))
                pairs.append(tx == ty)
            else:
                self.check(bool(x == y), msg)
        if pairs:
            self.check(SymBool(z3.And(pairs) if len(pairs) > 1 else pairs[0]), msg)

    def cover(self, label):
        self.ex.covers[label] = self.ex.covers.get(label, 0) + 1

    def model(self):
        if self.concrete:
            return dict(self.values)
        if self.solver.check() != z3.sat:
            self.leave(Unsupported("no model for a violation"))
        m = self.solver.model()
        out = {}
        for n, e in self.model_terms:
            v = m.eval(e, model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = "%d/%d" % (v.numerator_as_long(), v.denominator_as_long())
            else:
                out[n] = z3.is_true(v)
        return out

    # threads
    def spawn(self, fn, name=None):
        t = Task(self, fn, name or "thread %d" % len(self.tasks))
        self.tasks.append(t)
        th = real_threading.Thread(target=t.body, daemon=True)
        th.start()
        t.thread = th
        t.ready = lambda: True
        return t

    def leave(self, e):
        self.stop(e)
        raise e

    def stop(self, outcome):
        if not self.over:
            self.over, self.outcome = True, outcome

    def new_object(self, o):
        s = self.serial
        self.serial += 1
        return s

    def state_key(self):
        return hash((tuple((t.hist, t.done, t.where, t.deadline) for t in self.tasks), tuple(l._vx_key() for l in self.locks),
                     tuple((o._vx_serial, tuple((k, key_of(v, self)) for k, v in sorted(object.__getattribute__(o, "__dict__").items()) if k != "_vx_serial")) for o in self.objects), self.now, self.fair, self.preempted if self.ex.max_preempt is not None else 0))

    def switch(self, me, leaving=False):
        """The current thread gives way; returns "ok" or "timeout" when it goes on."""
        if self.over:
            raise Abort()
        self.steps += 1
        self.spin = 0
        options = []
        order = ([] if leaving else [me]) + [t for t in self.tasks if t is not me or leaving]
        seen = set()
        for t in order:
            if t.done or t.id in seen:
                continue
            seen.add(t.id)
            if t.idle:
                continue
            if t.ready():
                options.append((t, False))
            elif t.deadline is not None:
                options.append((t, True))
        if not [o for o in options if not o[1]]:
            options += [(t, False) for t in self.tasks if t.idle and not t.done]
        if not options:
            self.leave(Violation("deadlock", "no thread can go on: " + "; ".join("%s %s" % (t.name, "ended" if t.done else "in " + t.where) for t in self.tasks)))
        if self.steps > self.ex.max_steps:
            # long runs: every thread in turn from here on
            self.fair += 1
            if self.fair > 3000:
                self.leave(Violation("nontermination", "the threads go on forever: " + "; ".join("%s %s" % (t.name, "ended" if t.done else "in " + t.where) for t in self.tasks)))
            live = [o for o in options if not o[1]] or options
            pick = live[self.fair % len(live)]
        elif len(options) > 1 and not (self.ex.max_preempt is not None and self.preempted >= self.ex.max_preempt and options[0] == (me, False) and not me.idle):
            if not self.concrete and len(self.trace) >= len(self.prefix):
                k = (self.state_key(), me.id if not leaving else -1)
                if k in self.ex.visited and not self.nomatch:
                    self.ex.pruned += 1
                    self.leave(Abort())
                self.ex.visited.add(k)
            c = self.decide(len(options))
            self.choices.append(("thread", c))
            pick = options[c]
            if c and options[0] == (me, False):
                self.preempted += 1
        else:
            pick = options[0]
        t, timed = pick
        self.schedule.append((t.id, int(timed)))
        if timed:
            self.now = max(self.now, t.deadline)
        t.result = "timeout" if timed else "ok"
        self.running = t
        if t is not me:
            t.sem.release()
            if leaving:
                return None
            me.sem.acquire()
            if self.over:
                raise Abort()
        return me.result

    def block(self, where, ready, deadline=None, idle=False):
        me = self.running
        me.ready, me.deadline, me.where, me.idle = ready, deadline, where, idle
        r = self.switch(me)
        me.ready, me.deadline, me.idle, me.where = (lambda: True), None, False, "running"
        self.observe((where, r))
        return r

    def point(self, where):
        if self.over:
            raise Abort()
        if len(self.tasks) > 1:
            self.block(where, lambda: True)

    # shared attributes
    def access(self, obj, name, write):
        if self.over or self.running is None:
            return
        self.spin += 1
        if self.spin > 5000:
            self.leave(Violation("nontermination", "%s goes on forever without letting any other thread go on" % self.running.name))
        live = [t for t in self.tasks if not t.done]
        k = (type(obj).__qualname__, name)
        if k in self.ex.racy:
            if len(live) > 1:
                self.point(("write " if write else "read ") + name)
            return
        me = self.running
        if len(live) > 1:
            a = self.attrs.setdefault((id(obj), name), [None, set(), False])
            held = set(id(l) for l in me.held)
            a[0] = held if a[0] is None else a[0] & held
            a[1].add(me.id)
            a[2] |= write
            if a[2] and len(a[1]) > 1 and not a[0]:
                self.ex.racy.add(k)
                self.leave(Restart())

    def go(self, fn):
        self.attrs = {}
        Run.cur = self
        main = self.spawn(fn, "main")
        self.running = main
        main.sem.release()
        self.finished.acquire()
        # everything still there is told to leave
        n = 1
        while n < len(self.tasks) or any(t.thread.is_alive() for t in self.tasks):
            for t in self.tasks:
                if t.thread.is_alive():
                    t.sem.release()
            for t in self.tasks:
                t.thread.join(0.02)
            n = len(self.tasks)
            if not any(t.thread.is_alive() for t in self.tasks):
                break
        Run.cur = None
        return self.outcome


class Explorer:
    def __init__(self, entry, args, max_steps=400, max_time=240, timeout_ms=60000, max_preempt=None):
        self.max_preempt = max_preempt
        self.entry, self.args, self.max_steps, self.max_time, self.timeout_ms = entry, args, max_steps, max_time, timeout_ms
        self.racy = set()
        self.reset()

    def reset(self):
        self.pending, self.visited, self.covers = [[]], set(), {}
        self.paths = self.pruned = self.asserts = self.queries = self.sat = self.unsat = self.forks = self.steps = 0
        self.solver_s = 0.0
        self.kept = {}
        self.samples = []

    def solver(self):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        return s

    def check(self, s, e):
        import time
        t0 = time.perf_counter()
        r = s.check(e)
        self.solver_s += time.perf_counter() - t0
        self.queries += 1
        if r == z3.unknown:
            raise Unsupported("the solver gave no answer")
        if r == z3.sat:
            self.sat += 1
        else:
            self.unsat += 1
        return r == z3.sat

    def explore(self):
        """Runs until every decision has been tried; returns ("ok"|"violation"|"error", details)."""
        import time
        t0 = time.time()
        while self.pending:
            if time.time() - t0 > self.max_time:
                return "error", "time limit of %d s, %d runs not explored" % (self.max_time, len(self.pending))
            r = Run(self, self.pending.pop())
            out = r.go(lambda: self.entry(r, *self.args))
            self.steps += r.steps
            if isinstance(out, Restart):
                self.reset()
                continue
            if isinstance(out, Unsupported):
                return "error", str(out)
            if isinstance(out, Abort):
                continue
            if isinstance(out, Violation):
                try:
                    values = r.model()
                except Unsupported as e:
                    return "error", str(e)
                return "violation", {"kind": out.kind, "msg": out.msg, "where": out.where, "values": values, "choices": r.choices, "schedule": r.schedule,
                                     "racy": sorted(self.racy)}
            self.paths += 1
            if len(self.samples) < 2 and not r.concrete:
                try:
                    self.samples.append({"inputs": r.model(), "choices": list(r.choices), "schedule": list(r.schedule)})
                except Unsupported:
                    pass
        return "ok", None

    def replay(self, rec):
        """The same choices with the values of the counterexample."""
        self.racy = set(tuple(x) for x in rec["racy"])
        self.pending = []
        r = Run(self, [c for _, c in rec["choices"]], {k: (fractions.Fraction(v) if isinstance(v, str) else v) for k, v in rec["values"].items()})
        r.ex.pending = []
        return r.go(lambda: self.entry(r, *self.args))
