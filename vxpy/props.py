"""The harnesses of the Python properties. An entry gets the run and its arguments."""
import importlib
import os
import sys
import types
from . import fakes, rematch
from .fakes import Shared, pause

REPO = os.environ.get("VX_REPO", "/repo")
ENTRIES = {}
loaded = {}


def entry(f):
    ENTRIES[f.__name__] = f
    return f


def load():
    """The modules of py_utils, with the stand-ins of threading and time."""
    if loaded:
        return loaded
    th, tm = fakes.make()
    fakes.HOOKED["py_utils."] = {"threading": th, "time": tm}
    fakes.hook_imports()
    real = {k: sys.modules.get(k) for k in ("threading", "time")}
    sys.modules["threading"], sys.modules["time"] = th, tm
    sys.path.insert(0, os.path.join(REPO, "py_utils"))
    sys.dont_write_bytecode = True
    try:
        for m in ("wait.WaitHandler", "wait.IntWaitHandler", "wait.BooleanWaitHandler", "time.Timer"):
            loaded[m.split(".")[1]] = importlib.import_module("py_utils." + m)
    finally:
        sys.path.pop(0)
        for k, v in real.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    done = []
    for m in [sys.modules[k] for k in list(sys.modules) if k.startswith("py_utils.")]:
        vars(m).setdefault("float", fakes.Float)
        for c in list(vars(m).values()):
            if isinstance(c, type) and c.__module__.startswith("py_utils.") and c not in done and not hasattr(c, "__members__") and not issubclass(c, BaseException):
                done.append(c)
    for c in done:
        if not any(b in done for b in c.__mro__[1:]):
            fakes.instrument(c)
    loaded["threading"], loaded["time"] = th, tm
    return loaded


def threads(*fs):
    t = [loaded["threading"].Thread(target=f, name="abc"[i]) for i, f in enumerate(fs)]
    for x in t:
        x.start()
    return t


def holds(op, v, k):
    return v == k if op == 0 else v >= k if op == 1 else v > k


def wait_op(h, op, k, timeout=None):
    return h.wait_equal(k, timeout) if op == 0 else h.wait_greater_equal(k, timeout) if op == 1 else h.wait_greater(k, timeout)


def mods():
    m = load()
    return m["IntWaitHandler"].IntWaitHandler, m["BooleanWaitHandler"].BooleanWaitHandler, m["WaitHandler"].WaitHandler, m["WaitHandler"].AwakeReason


# ------------------------------------------------------------------ C46
@entry
def c46_alone(r):
    Int, _, _, R = mods()
    v, k, on = r.sym_int("value"), r.sym_int("expected"), r.sym_bool("enabled")
    op = r.choose("operator", 3)
    t = (5, 0, -1, 0.25)[r.choose("timeout", 4)]
    h = Int(on, v)
    w = wait_op(h, op, k, t)
    if not on:
        r.check(w == R.disabled, "a wait on a disabled handler returns disabled")
        r.cover("disabled")
    elif holds(op, v, k):
        r.check(w == R.condition_met, "a wait whose condition holds returns condition met")
        r.check(r.now == 0, "it returns at once")
        r.cover("met")
    else:
        r.check(w == R.timeout, "a wait whose condition does not hold runs out of time")
        r.check(r.now >= t, "timeout before the deadline")
        r.cover("timeout")
    r.equal(h.get_value(), v, "waiting changed the value")
    r.equal(h.enabled(), on, "waiting changed the enabled state")


@entry
def c46_sequence(r, n):
    Int, _, _, R = mods()
    v, on = r.sym_int("value"), bool(r.choose("enabled", 2))
    h = Int(on, v)
    for _ in range(n):
        o = r.choose("operation", 8)
        x = r.sym_int("operand")
        if o == 0:
            h.set_value(x)
            v = x
        elif o == 1:
            h.increase(x)
            v = v + x
        elif o == 2:
            h.decrease(x)
            v = v - x
        elif o == 3:
            h.increase()
            h.increase()
            h.decrease()
            v = v + 1
        elif o == 4:
            h.enable()
            on = True
        elif o == 5:
            h.disable()
            on = False
        elif o == 6:
            h.blocking_disable()
            on = False
        else:
            op = r.choose("operator", 3)
            w = wait_op(h, op, x, 1)
            r.check(w == (R.disabled if not on else R.condition_met if holds(op, v, x) else R.timeout), "the reason follows from the state")
        r.equal(h.get_value(), v, "the value")
        r.equal(h.enabled(), on, "the enabled state")
    r.cover("sequence")


@entry
def c46_setter(r, n, timed):
    """a waiter and n changes of any kind; the waiter always returns, with the true reason"""
    Int, _, _, R = mods()
    k, op = r.sym_int("expected"), r.choose("operator", 3)
    v = [r.sym_int("value")]
    kinds = [r.choose("change", 3) for _ in range(n)]
    xs = [r.sym_int("operand") for _ in range(n)]
    for i in range(n):
        v.append(xs[i] if kinds[i] == 0 else v[-1] + xs[i] if kinds[i] == 1 else v[-1] - xs[i])
    h = Int(True, v[0])
    s = Shared(begun=0, done=0, disabled=False)
    got = {}

    def waiter():
        got["from"] = s.done
        got["t0"] = r.now
        got["w"] = wait_op(h, op, k, 5 if timed else None)
        got["to"] = s.begun
        got["dis"] = s.disabled
        got["t1"] = r.now
    t = threads(waiter)
    for i in range(n):
        s.begun = i + 1
        (h.set_value, h.increase, h.decrease)[kinds[i]](xs[i])
        s.done = i + 1
    last = holds(op, v[n], k)
    stop = False
    if not timed and not last:
        stop = True
        s.disabled = True
        h.disable()
    t[0].join()
    w = got["w"]
    met = [holds(op, v[i], k) for i in range(got["from"], got["to"] + 1)]
    if w == R.condition_met:
        r.check(any(met), "condition met, but no value held meanwhile satisfies it")
        r.cover("met")
    elif w == R.timeout:
        r.check(timed, "timeout reported by a wait without time limit")
        r.check(not all(met), "timeout although the condition held all the time")
        r.check(got["t1"] - got["t0"] >= 5, "timeout before the deadline")
        r.cover("timeout")
    else:
        r.check(w == R.disabled and stop and got["dis"], "disabled reported for a handler that was not disabled")
        r.cover("disabled")
    r.equal(h.get_value(), v[n], "every change counts")


@entry
def c46_count(r, n):
    """changes by several threads are all counted, and the waiter of the total wakes"""
    Int, _, _, R = mods()
    v0 = r.sym_int("value")
    xs = [r.sym_int("operand") for _ in range(n)]
    down = [r.choose("down", 2) for _ in range(n)]
    total = v0
    for i in range(n):
        total = total - xs[i] if down[i] else total + xs[i]
    h = Int(True, v0)

    def change(i):
        return lambda: h.decrease(xs[i]) if down[i] else h.increase(xs[i])
    t = threads(*[change(i) for i in range(n)])
    r.check(h.wait_equal(total) == R.condition_met, "the waiter of the total")
    for x in t:
        x.join()
    r.equal(h.get_value(), total, "a change of the value was lost")
    r.cover("count")


@entry
def c46_two(r, change, first, second):
    """two waiters on different conditions and one change of the kind given: both return"""
    Int, _, _, R = mods()
    v0, x, a, b = r.sym_int("value"), r.sym_int("operand"), r.sym_int("expected"), r.sym_int("expected")
    v1 = (x, v0 + x, v0 - x)[change]
    r.assume(holds(first, v1, a))
    r.assume(holds(second, v1, b))
    h = Int(True, v0)
    got = {}

    def wa():
        got["a"] = wait_op(h, first, a, None)

    def wb():
        got["b"] = wait_op(h, second, b, None)
    t = threads(wa, wb)
    (h.set_value, h.increase, h.decrease)[change](x)
    for x in t:
        x.join()
    r.check(got["a"] == R.condition_met and got["b"] == R.condition_met, "reason of a waiter whose condition holds")
    r.cover("two")


@entry
def c46_open(r):
    """two waiters of a closed handler that is opened: both return"""
    _, Bool, _, R = mods()
    h = Bool(True, False)
    got = {}

    def waiter(i):
        def f():
            got[i] = h.wait()
        return f
    t = threads(waiter(0), waiter(1))
    h.open()
    for x in t:
        x.join()
    r.check(got[0] == R.condition_met and got[1] == R.condition_met, "reason of a waiter of a handler that was opened")
    r.equal(h.get_value(), True, "open afterwards")
    r.cover("open")


@entry
def c46_disable(r, blocking, waiters, timed):
    """waiters of a condition that never holds; the handler is disabled"""
    Int, _, Base, R = mods()
    v, k = r.sym_int("value"), r.sym_int("expected")
    r.assume(v < k)
    h = Int(True, v)
    s = Shared(begun=False)
    got = {}

    def waiter(i):
        def f():
            w = h.wait_greater_equal(k, 5 if timed else None) if i == 0 else h.wait(timeout=5 if timed else None)
            r.check(w == R.disabled or (timed and w == R.timeout), "the reason of a waiter whose handler is disabled")
            if w == R.disabled:
                r.check(s.begun, "disabled reported for a handler that was not disabled")
            else:
                r.cover("timeout")
            got[i] = w
        return f
    t = threads(*[waiter(i) for i in range(waiters)])
    s.begun = True
    h.blocking_disable() if blocking else h.disable()
    r.equal(h.enabled(), False, "disabled afterwards")
    for x in t:
        x.join()
    r.check(len(got) == waiters, "every waiter returns")
    r.cover("disable")


@entry
def c46_left(r, waiters, enable):
    """when the blocking disable returns, the threads that were waiting have left: nothing that follows changes their reason"""
    Int, _, _, R = mods()
    v, k, x = r.sym_int("value"), r.sym_int("expected"), r.sym_int("operand")
    r.assume(v < k)
    h = Int(True, v)
    got = []

    def waiter():
        got.append(h.wait_greater_equal(k))
    t = threads(*[waiter] * waiters)
    pause()  # until they wait
    r.check(got == [], "the wait ended early")
    h.blocking_disable()
    if enable:
        h.set_value(x)
        h.enable()
    for y in t:
        y.join()
    r.check(got == [R.disabled] * waiters, "the threads that waited have left as disabled")
    r.cover("left")


@entry
def c46_entering(r, twice):
    """a wait that begins while the handler is disabled for good, from one or two threads"""
    Int, _, _, R = mods()
    v, k = r.sym_int("value"), r.sym_int("expected")
    h = Int(True, v)
    got = []

    def waiter():
        got.append(h.wait_equal(k))

    def other():
        h.blocking_disable()
    t = threads(waiter, *([other] if twice else []))
    h.blocking_disable()
    for x in t:
        x.join()
    if not (v == k):
        r.check(got == [R.disabled], "the waiter returns as disabled")
    else:
        r.check(got[0] in (R.disabled, R.condition_met), "the waiter returns")
    r.check(h.wait_equal(k) == R.disabled, "a wait on a disabled handler returns at once")
    r.cover("entering")


@entry
def c46_again(r):
    """disabled and enabled again while a thread waits: it may leave, or it goes on and sees the value"""
    Int, _, _, R = mods()
    v, k = r.sym_int("value"), r.sym_int("expected")
    r.assume(v != k)
    h = Int(True, v)
    got = []

    def waiter():
        got.append(h.wait_equal(k))
    t = threads(waiter)
    h.disable()
    h.enable()
    h.set_value(k)
    t[0].join()
    r.check(got[0] in (R.disabled, R.condition_met), "the waiter returns")
    r.cover("left" if got[0] == R.disabled else "stayed")


@entry
def c46_reenabled(r, waiters):
    """disabled and enabled again while threads wait, which may go on waiting; a blocking disable after that still waits for them to leave"""
    Int, _, _, R = mods()
    v, k = r.sym_int("value"), r.sym_int("expected")
    r.assume(v != k)
    h = Int(True, v)
    got = []

    def waiter():
        got.append(h.wait_equal(k))
    t = threads(*[waiter] * waiters)
    pause()  # until they wait
    h.disable()
    h.enable()
    h.blocking_disable()
    h.enable()
    for x in t:
        x.join()
    r.check(got == [R.disabled] * waiters, "the threads that waited have left as disabled")
    r.cover("reenabled")


@entry
def c46_boolean(r, timed):
    _, Bool, _, R = mods()
    v, on = r.sym_bool("open"), r.sym_bool("enabled")
    h = Bool(on, v)
    n = r.choose("change", 4)
    got = []

    def waiter():
        got.append(h.wait(5) if timed else h.wait())
    s = Shared(begun=False, closed=False)
    t = threads(waiter)
    s.begun = True
    if n == 0:
        h.open()
        r.equal(h.get_value(), True, "open")
    elif n == 1:
        h.close()
        r.equal(h.get_value(), False, "closed")
        if not timed:
            h.open()
    elif n == 2:
        h.disable()
    else:
        h.close()
        h.open()
        h.close()
        if not timed:
            h.disable()
    t[0].join()
    w = got[0]
    if not on:
        r.check(w == R.disabled, "a wait on a disabled handler returns disabled")
    elif w == R.condition_met:
        r.check(v if n == 2 or (n == 1 and timed) else True, "condition met while closed all the time")
        r.cover("met")
    elif w == R.disabled:
        r.check(n == 2 or n == 3, "disabled reported for a handler that was not disabled")
        r.cover("disabled")
    else:
        r.check(timed, "timeout reported by a wait without time limit")
        r.check(not v or n in (1, 3), "timeout although the handler was open")
        r.cover("timeout")


# ------------------------------------------------------------------ C47
@entry
def c47_timer(r, n):
    m = load()
    r.clock = r.sym_real("clock")
    start = r.clock
    t = m["Timer"].Timer()
    r.equal(t.elapsed(), 0, "nothing has elapsed at first")
    for _ in range(n):
        r.clock = r.clock + r.sym_real("step")
        o = r.choose("operation", 3)
        if o == 0:
            t.reset()
            start = r.clock
            r.cover("reset")
        elif o == 1:
            r.equal(t.elapsed(), r.clock - start, "the time since the last reset")
            r.cover("elapsed")
        else:
            other = m["Timer"].Timer()
            r.equal(other.elapsed(), 0, "timers are independent")
    r.equal(t.elapsed(), r.clock - start, "the time since the last reset")
    r.cover("timer")


# ------------------------------------------------------------------ C48
IDENT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
GEN = "dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py"


def base_name(p):
    from . import strs
    return strs.Ops.split(p, "/")[-1]


class Paths:
    """os: nothing of the real file system is touched. The folder of the output may exist or not."""
    sep, linesep, altsep, curdir = "/", "\n", None, "."

    def __init__(self, r):
        self.r, self.known = r, None
        self.path = self
        self.basename = base_name

    def there(self):
        if self.known is None:
            self.known = bool(self.r.choose("folder", 2))
        return self.known

    def abspath(self, p):
        return p
    realpath = normpath = fspath = abspath

    def dirname(self, p):
        return "somewhere"

    def exists(self, p):
        return self.there()
    isdir = exists

    def join(self, *a):
        from . import strs
        return strs.Ops.join("/", [x for x in a if len(x)])

    def makedirs(self, p, mode=511, exist_ok=False):
        if self.there() and not exist_ok:
            raise FileExistsError("the folder exists")
        self.known = True

    def mkdir(self, p, mode=511):
        self.makedirs(p)


class File:
    def __init__(self, r, os_, name, mode):
        self.r, self.name, self.mode, self.text = r, name, mode, []
        if "/" in name and not os_.there():
            raise FileNotFoundError("the folder does not exist")
        r.files.append(self)

    def write(self, t):
        self.text.append(t)
        return len(t)

    def writelines(self, ts):
        self.text += list(ts)

    def close(self):
        pass
    flush = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def path_class(r, os_):
    class Path:
        def __init__(self, p):
            self.p = p.p if isinstance(p, Path) else p
            self.name = base_name(self.p)

        @property
        def parent(self):
            return Path("somewhere")

        def mkdir(self, mode=511, parents=False, exist_ok=False):
            os_.makedirs(self.p, mode, exist_ok)

        def exists(self):
            return os_.there()
        is_dir = exists

        def resolve(self):
            return self
        absolute = resolve

        def open(self, mode="r", **k):
            return File(r, os_, self.p, mode)

        def write_text(self, t, **k):
            return self.open("w").write(t)
    return Path


def generator(r, argv):
    from . import strs
    r.files = []

    class Sys:
        pass
    s = Sys()
    s.argv = [strs.VStr(GEN)] + list(argv)
    s.exit = lambda c=0: r.check(c == 0, "the script fails")
    import types
    paths = Paths(r)
    lib = types.SimpleNamespace(Path=path_class(r, paths), PurePath=path_class(r, paths))
    rex = types.SimpleNamespace(**{n: getattr(rematch, n) for n in rematch.NAMES})
    fakes.HOOKED["enumeration_builder"] = {"os": paths, "sys": s, "pathlib": lib, "re": rex}
    fakes.hook_imports()
    return strs.load(os.path.join(REPO, GEN), "enumeration_builder", open=lambda n, mode="r", **k: File(r, paths, n.p if isinstance(n, lib.Path) else n, mode)), strs


def sym_names(r, strs, what, lens):
    """names of the given lengths, as a text with separators, with blanks anywhere but not inside the separators"""
    names, out = [], []
    sep = (";", ",")[r.choose("separator", 2)] if len(lens) > 1 else ""
    for i, n in enumerate(lens):
        name = [strs.sym_char(what, IDENT[:53] if j == 0 else IDENT) for j in range(n)]
        names.append(tuple(name))
        if i:
            out += [ord(sep)]
        at = r.choose("blank", n + 2)  # where a blank is: none, before, inside, after
        for j in range(n + 1):
            if at == j + 1:
                out += [32] * (1 + (j == 0))
            if j < n:
                out.append(name[j])
    return names, strs.make(out)


def tokens(r, strs, t):
    """the C++ tokens of a text, its comments, and whether a placeholder is left"""
    c = strs.chars(t)
    n, i, toks, comments = len(c), 0, [], []
    ident = frozenset(map(ord, IDENT))

    def at(k):
        return c[k] if k < n else None

    def is_ident(x):
        return x is not None and strs.char_in(x, ident)
    while i < n:
        x = c[i]
        if is_ident(x):
            j = i
            while j < n and is_ident(c[j]):
                j += 1
            toks.append(("id", c[i:j]))
            i = j
        elif strs.char_in(x, strs.SPACE):
            i += 1
        elif x == 47 and at(i + 1) == 47:
            j = i
            while j < n and c[j] != 10:
                j += 1
            comments.append((len(toks), c[i + 2:j]))
            i = j
        elif x == 47 and at(i + 1) == 42:
            j = i + 2
            while j + 1 < n and not (c[j] == 42 and c[j + 1] == 47):
                j += 1
            r.check(j + 1 < n, "a comment without end")
            comments.append((len(toks), c[i + 2:j]))
            i = j + 2
        elif x == 34:
            j = i + 1
            while j < n and c[j] != 34:
                j += 1
            r.check(j < n, "a text without end")
            toks.append(("str", c[i + 1:j]))
            i = j + 1
        elif x == 35:
            j = i
            while j < n and c[j] != 10:
                j += 1
            i = j
        else:
            r.check(isinstance(x, int), "a character that is not part of a name")
            toks.append((chr(x), ()))
            i += 1
    k = 0
    while k < n:  # %something% left over
        if c[k] == 37:
            j = k + 1
            while j < n and isinstance(c[j], int) and chr(c[j]) in IDENT:
                j += 1
            r.check(not (j > k + 1 and j < n and c[j] == 37), "a placeholder is left in the output")
        k += 1
    return toks, comments


def same(r, strs, got, want, msg):
    r.check(len(got) == len(want), msg)
    r.equal(tuple(got), tuple(want), msg)


def word(s):
    return tuple(map(ord, s))


def plain(t):
    return t[0] == "id" and all(isinstance(x, int) for x in t[1]) and "".join(map(chr, t[1]))


def check_header(r, strs, text, enum, values, spaces):
    toks, comments = tokens(r, strs, text)
    i = 0
    # namespaces
    opened = []
    while i < len(toks) and plain(toks[i]) == "namespace" and len(opened) < len(spaces):
        r.check(toks[i + 1][0] == "id", "a namespace without name")
        opened.append(toks[i + 1][1])
        i += 2
        while toks[i][0] == ":" and toks[i + 1][0] == ":":
            opened.append(toks[i + 2][1])
            i += 3
        r.check(toks[i][0] == "{", "a namespace is opened with a brace")
        i += 1
    r.check(len(opened) == len(spaces), "the namespaces opened")
    for a, b in zip(opened, spaces):
        same(r, strs, a, b, "the namespaces opened, in order")
    depth = sum(1 if t[0] == "{" else -1 if t[0] == "}" else 0 for t in toks[i:])
    r.check(depth == -len([t for t in toks[:i] if t[0] == "{"]), "every brace opened is closed")
    last = len(toks)
    while last and toks[last - 1][0] == "}":
        last -= 1
    closing = [c for k, c in comments if k > last and find_word(strs, c, "namespace") >= 0]
    if closing:
        r.check(len(closing) == len(spaces), "the namespaces closed")
        for c, b in zip(closing, reversed(spaces)):
            k = find_word(strs, c, "namespace") + len("namespace")
            got = [x for x in c[k:] if not (isinstance(x, int) and x == 32)]
            same(r, strs, got, b, "the namespaces closed, in reverse order")
    # enum class E { a, b };
    r.check(plain(toks[i]) == "enum", "the enumeration")
    i += 1
    if plain(toks[i]) in ("class", "struct"):
        i += 1
    same(r, strs, toks[i][1], enum, "the name of the enumeration")
    i += 1
    r.check(toks[i][0] == "{", "the values")
    i += 1
    got = []
    while toks[i][0] != "}":
        r.check(toks[i][0] == "id", "a value")
        got.append(toks[i][1])
        i += 1
        if toks[i][0] == ",":
            i += 1
        else:
            r.check(toks[i][0] == "}", "the values are separated")
    r.check(len(got) == len(values), "exactly the values given")
    for a, b in zip(got, values):
        same(r, strs, a, b, "the values, in order")
    # the texts
    number = str(len(values))
    arr = [k for k in range(i, len(toks) - 1) if toks[k][0] == "=" and toks[k + 1][0] == "{"]
    r.check(len(arr) == 1, "the array of texts")
    k = arr[0]
    same(r, strs, toks[k - 1][1], word("NAMES_") + tuple(enum), "the name of the array")
    r.check(toks[k - 2][0] == ">" and plain(toks[k - 3]) == number, "the size of the array")
    k += 2
    got = []
    while toks[k][0] != "}":
        r.check(toks[k][0] == "str", "a text")
        got.append(toks[k][1])
        k += 1
        if toks[k][0] == ",":
            k += 1
        else:
            r.check(toks[k][0] == "}", "the texts are separated")
    r.check(len(got) == len(values), "a text for each value")
    for a, b in zip(got, values):
        same(r, strs, a, b, "the texts, in the order of the values")
    # the count
    cnt = [q for q in range(k, len(toks) - 2) if toks[q][0] == "=" and toks[q - 1][0] == "id" and toks[q + 2][0] == ";" and len(toks[q - 1][1]) == 9 + len(enum)
           and all(isinstance(x, int) for x in toks[q - 1][1][:9]) and "".join(map(chr, toks[q - 1][1][:9])) == "N_VALUES_"]
    r.check(len(cnt) == 1, "the number of values is declared")
    same(r, strs, toks[cnt[0] - 1][1][9:], enum, "the name of the number of values")
    r.check(plain(toks[cnt[0] + 1]) == number, "the number of values")
    for q in range(k, len(toks) - 3):
        if toks[q][0] == "<" and plain(toks[q - 1]) == "i" and toks[q + 2][0] == ";" and plain(toks[q + 1]) and plain(toks[q + 1])[0].isdigit():
            r.check(plain(toks[q + 1]) == number, "the values searched")
            r.cover("searched")
    for f in ("from_string_", "string_vector_"):
        hits = [t for t in toks if t[0] == "id" and len(t[1]) == len(f) + len(enum) and t[1][:len(f)] == word(f)]
        r.check(hits, "the conversions are there")
        for t in hits:
            same(r, strs, t[1][len(f):], enum, "the names of the conversions")


def find_word(strs, c, w):
    return strs.find(tuple(x if isinstance(x, int) else -1 for x in c), word(w))


@entry
def c48_values(r, *lens):
    m, strs = generator(r, [])
    names, text = sym_names(r, strs, "value", lens)
    m.sys.argv += [strs.VStr("--values"), text]
    got = m.parse_values(text)
    r.check(len(got) == len(lens), "as many names as there are between the separators")
    for a, b in zip(got, names):
        same(r, strs, strs.chars(a), b, "the names, without blanks")
    out = m.generate_file_text(m.TEMPLATE_TEXT, strs.VStr("Kind"), got, [strs.VStr("a"), strs.VStr("b")], strs.VStr("dir/file.hpp"))
    check_header(r, strs, out, word("Kind"), names, [word("a"), word("b")])
    r.cover("values")


@entry
def c48_words(r):
    """names that are words of the template"""
    m, strs = generator(r, [])
    sets = ("values", "enum_name", "year"), ("Kind", "n_values", "class"), ("e", "a", "a_1", "A1_", "i", "x_"), ("quotes_values", "output_file")
    names = sets[r.choose("values", 4)]
    enum = ("Kind", "n_values", "values", "eprosima_enum", "E_9")[r.choose("enum", 5)]
    spaces = (("eprosima",), ("eprosima", "eprosima"), ("enum_name", "std_", "values"), ("a", "b", "c", "d", "e"))[r.choose("namespaces", 4)]
    out = (None, "x/values.hpp", "o.txt", "/t/a b.hpp")[r.choose("output", 4)]
    args = types.SimpleNamespace(enum=strs.VStr(enum), values=strs.VStr(";".join(names)), namespaces=strs.VStr(" ;".join(spaces)), output=out and strs.VStr(out), debug=False)
    m.parse_options = lambda *a: args
    m.sys.argv += [strs.VStr("-e"), args.enum, strs.VStr("--values"), args.values, strs.VStr("-n"), args.namespaces]
    m.main()
    r.check(len(r.files) == 1 and "w" in r.files[0].mode, "one file is written")
    same(r, strs, strs.chars(r.files[0].name), word(out or enum + ".hpp"), "the path of the file")
    check_header(r, strs, strs.Ops.join("", r.files[0].text), word(enum), [word(x) for x in names], [word(x) for x in spaces])
    r.cover("words")


@entry
def c48_namespaces(r, *lens):
    m, strs = generator(r, [])
    spaces, text = sym_names(r, strs, "namespace", lens)
    m.sys.argv += [strs.VStr("--namespaces"), text]
    out = m.generate_file_text(m.TEMPLATE_TEXT, strs.VStr("Kind"), [strs.VStr("one"), strs.VStr("two")], m.parse_values(text), strs.VStr("file.hpp"))
    check_header(r, strs, out, word("Kind"), [word("one"), word("two")], spaces)
    r.cover("namespaces")


@entry
def c48_main(r, e, v, n):
    """the whole script with its arguments already parsed; nothing is written to the real file system"""
    m, strs = generator(r, [])
    import types
    enum = [strs.sym_char("enum", IDENT[:53] if j == 0 else IDENT) for j in range(e)]
    names, text = sym_names(r, strs, "value", [v] * 2)
    spaces, ntext = sym_names(r, strs, "namespace", [n])
    out = (None, strs.VStr("some/dir/out.hpp"), strs.VStr("C:\\x\\o.hpp"))[r.choose("output", 3)]
    args = types.SimpleNamespace(enum=strs.make(enum), values=text, namespaces=ntext, output=out, debug=False)
    m.parse_options = lambda *a: args
    m.sys.argv += [strs.VStr("-e"), args.enum, strs.VStr("--values"), text, strs.VStr("-n"), ntext] + ([strs.VStr("-o"), out] if out else [])
    m.main()
    r.check(len(r.files) == 1 and "w" in r.files[0].mode, "one file is written")
    name = strs.chars(r.files[0].name)
    same(r, strs, name, strs.chars(out) if out else tuple(enum) + word(".hpp"), "the path of the file")
    check_header(r, strs, strs.Ops.join("", r.files[0].text), enum, names, spaces)
    r.cover("main")


# ------------------------------------------------------------------ C49
class Output:
    """What is written to the standard outputs."""
    def __init__(self, r, events):
        self.r, self.events = r, events

    def write(self, s):
        self.events.append(("out", s))
        return len(s)

    def flush(self):
        pass


def with_logging(r, body):
    """Runs body(module of the logger, module of the decorators, events) with the real logging library writing into events."""
    import logging
    from .engine import Sym
    events = []
    check, name, enabled = logging._checkLevel, logging.getLevelName, logging.Logger.isEnabledFor
    logging._checkLevel = lambda v: v if isinstance(v, Sym) else check(v)
    logging.getLevelName = lambda v: "LEVEL" if isinstance(v, Sym) else name(v)

    def is_enabled(self, level):
        # without the memory of earlier answers, which needs plain numbers
        return not self.disabled and not self.manager.disable >= level and level >= self.getEffectiveLevel()
    logging.Logger.isEnabledFor = is_enabled

    def log_any(self, level, msg, *args, **kwargs):
        if self.isEnabledFor(level):
            self._log(level, msg, args, **kwargs)
    log = logging.Logger.log
    logging.Logger.log = log_any
    outs = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = Output(r, events)
    sys.path.insert(0, os.path.join(REPO, "py_utils"))
    sys.dont_write_bytecode = True

    def forget():
        for k in [k for k in sys.modules if k == "py_utils" or k.startswith("py_utils.")]:
            del sys.modules[k]
    try:
        forget()
        body(importlib.import_module("py_utils.logging.log_utils"), importlib.import_module("py_utils.debugging.debug_utils"), events)
    finally:
        forget()
        sys.path.pop(0)
        sys.stdout, sys.stderr = outs
        logging._checkLevel, logging.getLevelName, logging.Logger.isEnabledFor, logging.Logger.log = check, name, enabled, log


def text_of(events):
    return "".join(e[1] for e in events if e[0] == "out")


def emit(r, lg, msg):
    """Logs msg with some level; returns it."""
    k = r.choose("how", 6)
    if k == 5:
        lv = r.sym_int("level of a message")
        r.assume(lv >= 1)
        lg.log(lv, msg)
        return lv
    (lg.debug, lg.info, lg.warning, lg.error, lg.critical)[k](msg)
    return (10, 20, 30, 40, 50)[k]


@entry
def c49_logger(r, n):
    def body(log, dbg, events):
        own, init = r.choose("own", 3), 20
        if own == 0:
            lg, name = log.logger, "GLOBAL_LOG"
        elif own == 1:
            lg, name = log.CustomLogger(), "GLOBAL_LOG"
        else:
            init = r.sym_int("initial level")
            r.assume(init >= 1)
            lg, name = log.CustomLogger(init, "mine"), "mine"
        level, fmt = init, None
        for i in range(n):
            o = r.choose("operation", 4)
            if o == 0:
                level = r.sym_int("level")
                r.assume(level >= 1)
                lg.set_log_level(level)
            elif o == 1:
                lg.activate_debug()
                level = 10
            elif o == 2:
                fmt = "%d<%%(message)s>" % i
                lg.set_format(fmt)
            else:
                msg = "message %d" % i
                del events[:]
                lv = emit(r, lg, msg)
                got = text_of(events)
                if lv >= level:
                    if fmt is None:
                        r.check(got.count(msg) == 1 and got.endswith(msg + "\n") and got.count("\n") == 1, "a message at or above the level is written once")
                        r.check("[%s]" % name in got, "the name of the logger in the default format")
                    else:
                        r.check(got == fmt % {"message": msg} + "\n", "a message at or above the level is written once, in the format set last")
                        r.cover("formatted")
                    r.cover("written")
                else:
                    r.check(got == "", "a message below the level is not written")
                    r.cover("ignored")
    with_logging(r, body)


@entry
def c49_separate(r):
    """a logger does not disturb another"""
    def body(log, dbg, events):
        a = log.logger if r.choose("global", 2) else log.CustomLogger(20, "a")
        b = log.CustomLogger(30, "b")
        la, lb = r.sym_int("level"), 30
        r.assume(la >= 1)
        a.set_log_level(la)
        changed = r.choose("format", 3)
        if changed == 1:
            a.set_format("A%(message)s")
        elif changed == 2:
            b.set_format("B%(message)s")
        del events[:]
        lv = emit(r, b, "text")
        got = text_of(events)
        if lv >= lb:
            r.check(got == "Btext\n" if changed == 2 else "[b]" in got and got.count("text") == 1 and got.endswith("text\n"), "the other logger's settings were used")
        else:
            r.check(got == "", "the other logger's level was used")
        del events[:]
        lv = emit(r, a, "text")
        got = text_of(events)
        r.check((got.count("text") == 1) if lv >= la else got == "", "written exactly when at or above the level")
        r.cover("separate")
    with_logging(r, body)


class Thing:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "thing-" + self.name


@entry
def c49_decorator(r):
    def body(log, dbg, events):
        level = r.sym_int("level")
        r.assume(level >= 1)
        log.logger.set_log_level(level)
        log.logger.set_format("%(message)s")
        na, nk = r.choose("positional", 4), r.choose("named", 4)
        args = tuple(Thing("p%d" % i) for i in range(na)) if na < 3 else (None, 0, "")
        named = ({}, {"key": Thing("k")}, {"key": None, "more": Thing("k")}, {"key": 0, "more": "", "self": False})[nk]
        outcome = r.choose("outcome", 4)
        value = (Thing("result"), None, r.sym_int("result"), ValueError("refused"))[outcome]

        def some_function(*a, **k):
            events.append(("call", a, k))
            if outcome == 3:
                raise value
            return value
        f = dbg.debug_function_decorator(some_function)
        r.check(not events, "decorating calls nothing and writes nothing")
        times = 1 + r.choose("times", 2)
        for _ in range(times):
            del events[:]
            try:
                got = f(*args, **named)
                r.check(outcome != 3, "an exception of the function was lost")
                r.check(got is value or (outcome == 2 and not isinstance(got, Thing) and got is not None), "the result of the function")
                if outcome == 2:
                    r.equal(got, value, "the result of the function")
            except ValueError as e:
                r.check(outcome == 3 and e is value, "an exception the function did not throw")
                r.cover("raised")
            calls = [i for i, e in enumerate(events) if e[0] == "call"]
            r.check(len(calls) == 1, "the function is called once for each call")
            c = events[calls[0]]
            r.check(len(c[1]) == na and all(x is y for x, y in zip(c[1], args)), "the positional arguments")
            r.check(sorted(c[2]) == sorted(named) and all(c[2][k] is named[k] for k in named), "the named arguments")
            before, after = text_of(events[:calls[0]]), text_of(events[calls[0]:])
            if level <= 10:
                r.check(before.count("\n") == 1 and "some_function" in before, "the call is written before it starts")
                r.check(all(repr(x) in before for x in args) and all(k in before and repr(v) in before for k, v in named.items()), "the arguments are written")
                if outcome != 3:
                    r.check(after.count("\n") == 1 and "some_function" in after, "the end of the call is written after it")
                    r.cover("finished")
            else:
                r.check(before + after == "", "nothing is written unless debug messages are wanted")
                r.cover("quiet")
    with_logging(r, body)


@entry
def c49_introspection(r):
    def body(log, dbg, events):
        level = r.sym_int("level")
        r.assume(level >= 1)
        log.logger.set_log_level(level)
        log.logger.set_format("%(message)s")

        class Sample:
            data = 5

            def first_method(self):
                events.append(("call",))

            @staticmethod
            def second_method():
                events.append(("call",))
        o = (Sample(), 5, "text", Sample)[r.choose("object", 4)]
        dbg.debug_object_introspection(o)
        got = text_of(events)
        r.check(not any(e[0] == "call" for e in events), "looking at an object calls nothing")
        if level <= 10:
            r.check(got.count("\n") == 1 and type(o).__name__ in got, "the class is written")
            r.check(all(repr(m) in got for m in dir(o) if callable(getattr(o, m))), "the methods are written")
            r.check(not any(repr(m) in got for m in dir(o) if not callable(getattr(o, m))), "what is no method is not written")
            r.cover("written")
        else:
            r.check(got == "", "nothing is written unless debug messages are wanted")
            r.cover("quiet")
    with_logging(r, body)
