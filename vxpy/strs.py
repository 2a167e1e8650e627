"""Texts with symbolic characters, and the loader that makes a module of the repository work on them: its string literals,
f-strings and the name str are replaced in the syntax tree by equivalents that accept such texts; everything else is executed
by CPython as it is."""
import ast
import builtins
import types
import z3
from .engine import Run, Sym, SymBool, Unsupported, wrap

SPACE = frozenset(map(ord, " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"))

DIGITS = frozenset(map(ord, "0123456789"))
LETTERS = frozenset(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))  # texts are ASCII


class Char:
    """A symbolic character: an integer term and the code points it may have."""
    __slots__ = ("e", "dom")

    def __init__(self, e, dom):
        self.e, self.dom = e, dom

    def is_in(self, codes):
        codes = codes & self.dom
        if not codes:
            return False
        if codes == self.dom:
            return True
        return Run.cur.branch(z3.Or([self.e == c for c in sorted(codes)]))


def char_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return a.is_in(frozenset((b,)))
    if a is b or a.e.eq(b.e):
        return True
    if not (a.dom & b.dom):
        return False
    return Run.cur.branch(a.e == b.e)


def char_in(c, codes):
    return c in codes if isinstance(c, int) else c.is_in(codes)


def sym_char(name, dom):
    r = Run.cur
    dom = frozenset(map(ord, dom))
    v = r.sym(name, z3.Int, min(dom))
    if r.concrete:
        return v
    codes = sorted(dom)
    ranges, lo = [], codes[0]
    for i, c in enumerate(codes):
        if i + 1 == len(codes) or codes[i + 1] != c + 1:
            ranges.append(z3.And(v >= lo, v <= c))
            if i + 1 < len(codes):
                lo = codes[i + 1]
    r.solver.add(z3.Or(ranges))
    return Char(v, dom)


def chars(s):
    if isinstance(s, SymStr):
        return s.c
    if isinstance(s, str):
        return tuple(map(ord, s))
    raise TypeError("a text is needed, not %s" % type(s).__name__)


def make(cs):
    cs = tuple(cs)
    return VStr("".join(map(chr, cs))) if all(isinstance(x, int) for x in cs) else SymStr(cs)


def is_text(x):
    return isinstance(x, (str, SymStr))


def find(h, n, start=0):
    for i in range(start, len(h) - len(n) + 1):
        if all(char_eq(h[i + j], n[j]) for j in range(len(n))):
            return i
    return -1


class Ops:
    """What a text can do, on its sequence of characters."""

    def _c(self):
        return chars(self)

    def replace(self, old, new, count=-1):
        h, o, n, out, i = chars(self), chars(old), chars(new), [], 0
        if not o:
            raise Unsupported("replacing the empty text")
        while count != 0:
            k = find(h, o, i)
            if k < 0:
                break
            out += h[i:k] + n
            i = k + len(o)
            count -= 1
        return make(tuple(out) + h[i:])

    def split(self, sep=None, maxsplit=-1):
        h = chars(self)
        if sep is None:
            out, cur = [], []
            for i, x in enumerate(h):
                if char_in(x, SPACE):
                    if cur:
                        out.append(make(cur))
                        cur = []
                else:
                    if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                        return out + [make(h[i:]).rstrip()]
                    cur.append(x)
            return out + ([make(cur)] if cur else [])
        s, out, i = chars(sep), [], 0
        if not s:
            raise ValueError("empty separator")
        while maxsplit < 0 or len(out) < maxsplit:
            k = find(h, s, i)
            if k < 0:
                break
            out.append(make(h[i:k]))
            i = k + len(s)
        return out + [make(h[i:])]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            if maxsplit < 0:
                return Ops.split(self, sep)
            raise Unsupported("rsplit")
        parts = Ops.split(self, sep)
        if len(parts) <= maxsplit + 1:
            return parts
        k = len(parts) - maxsplit
        return [Ops.join(sep, parts[:k])] + parts[k:]

    def partition(self, sep):
        h, s = chars(self), chars(sep)
        k = find(h, s)
        return (make(h), VStr(""), VStr("")) if k < 0 else (make(h[:k]), make(s), make(h[k + len(s):]))

    def rpartition(self, sep):
        parts = Ops.split(self, sep)
        return (VStr(""), VStr(""), make(chars(self))) if len(parts) == 1 else (Ops.join(sep, parts[:-1]), make(chars(sep)), parts[-1])

    def rfind(self, x):
        h, n = chars(self), chars(x)
        for i in range(len(h) - len(n), -1, -1):
            if all(char_eq(h[i + j], n[j]) for j in range(len(n))):
                return i
        return -1

    def rindex(self, x):
        k = Ops.rfind(self, x)
        if k < 0:
            raise ValueError("substring not found")
        return k

    def splitlines(self, keepends=False):
        if keepends:
            raise Unsupported("splitlines")
        out = Ops.split(self, "\n")
        return out[:-1] if not chars(out[-1]) else out

    def join(self, items):
        s, out = chars(self), []
        for k, x in enumerate(items):
            if k:
                out += s
            out += chars(x)
        return make(out)

    def lstrip(self, what=None):
        h, w = chars(self), SPACE if what is None else frozenset(chars(what))
        i = 0
        while i < len(h) and char_in(h[i], w):
            i += 1
        return make(h[i:])

    def rstrip(self, what=None):
        h, w = chars(self), SPACE if what is None else frozenset(chars(what))
        i = len(h)
        while i and char_in(h[i - 1], w):
            i -= 1
        return make(h[:i])

    def strip(self, what=None):
        return Ops.rstrip(Ops.lstrip(self, what), what)

    def startswith(self, x):
        if isinstance(x, tuple):
            return any(Ops.startswith(self, y) for y in x)
        h, n = chars(self), chars(x)
        return len(n) <= len(h) and all(char_eq(a, b) for a, b in zip(h, n))

    def endswith(self, x):
        if isinstance(x, tuple):
            return any(Ops.endswith(self, y) for y in x)
        h, n = chars(self), chars(x)
        return len(n) <= len(h) and all(char_eq(a, b) for a, b in zip(h[len(h) - len(n):], n))

    def removesuffix(self, x):
        return make(chars(self)[:len(chars(self)) - len(chars(x))]) if chars(x) and Ops.endswith(self, x) else make(chars(self))

    def removeprefix(self, x):
        return make(chars(self)[len(chars(x)):]) if Ops.startswith(self, x) else make(chars(self))

    def find(self, x, start=0):
        return find(chars(self), chars(x), start)

    def index(self, x, start=0):
        k = find(chars(self), chars(x), start)
        if k < 0:
            raise ValueError("substring not found")
        return k

    def count(self, x):
        return len(Ops.split(self, x)) - 1

    def translate(self, table):
        out = []
        for x in chars(self):
            for k, v in table.items():
                if char_eq(x, k if isinstance(k, int) else ord(k)):
                    out += () if v is None else (v,) if isinstance(v, int) else chars(v)
                    break
            else:
                out.append(x)
        return make(out)

    def format(self, *a, **k):
        import string
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(str(self)):
            out += chars(lit)
            if field is None:
                continue
            if spec or conv:
                raise Unsupported("format specification")
            if field == "":
                field, auto = str(auto), auto + 1
            v = a[int(field)] if field.isdigit() else k[field]
            out += chars(text(v))
        return make(out)

    def format_map(self, m):
        return Ops.format(self, **m)

    def ljust(self, n, fill=" "):
        return make(chars(self) + chars(fill) * (n - len(chars(self))))

    def __add__(self, o):
        return make(chars(self) + chars(o)) if is_text(o) else NotImplemented

    def __radd__(self, o):
        return make(chars(o) + chars(self)) if is_text(o) else NotImplemented

    def __mul__(self, n):
        return make(chars(self) * n)
    __rmul__ = __mul__

    def __contains__(self, x):
        return find(chars(self), chars(x)) >= 0

    def __eq__(self, o):
        if not is_text(o):
            return False
        a, b = chars(self), chars(o)
        return len(a) == len(b) and all(char_eq(x, y) for x, y in zip(a, b))

    def __ne__(self, o):
        return not Ops.__eq__(self, o)

    def __getitem__(self, i):
        c = chars(self)[i]
        return make(c if isinstance(i, slice) else (c,))

    def __iter__(self):
        return iter([make((x,)) for x in chars(self)])

    def isspace(self):
        h = chars(self)
        return bool(h) and all(char_in(x, SPACE) for x in h)

    def isdigit(self):
        h = chars(self)
        return bool(h) and all(char_in(x, DIGITS) for x in h)

    def isalpha(self):
        h = chars(self)
        return bool(h) and all(char_in(x, LETTERS) for x in h)

    def isalnum(self):
        h = chars(self)
        return bool(h) and all(char_in(x, DIGITS | LETTERS) for x in h)

    def isidentifier(self):
        h, name = chars(self), DIGITS | LETTERS | {95}
        return bool(h) and not char_in(h[0], DIGITS) and all(char_in(x, name) for x in h)


class SymStr(Ops):
    def __hash__(self):
        return 0

    def __init__(self, c):
        self.c = tuple(c)

    def __len__(self):
        return len(self.c)

    def __repr__(self):
        return "'" + "".join(chr(x) if isinstance(x, int) else "?" for x in self.c) + "'"
    __str__ = __repr__

    def __format__(self, spec):
        raise Unsupported("text of a symbolic text")

    def __getattr__(self, n):
        if hasattr(str, n):
            raise Unsupported("str." + n)
        raise AttributeError(n)


class VStr(str):
    """A concrete text whose operations accept symbolic ones."""
    __hash__ = str.__hash__

    def __mod__(self, a):
        a = a if isinstance(a, tuple) else (a,)
        if not any(isinstance(x, SymStr) for x in a):
            return VStr(str.__mod__(self, a))
        parts = str(self).split("%s")
        if "%" in "".join(parts).replace("%%", "") or len(parts) != len(a) + 1:
            raise Unsupported("text formatting")
        out = list(chars(parts[0].replace("%%", "%")))
        for x, p in zip(a, parts[1:]):
            out += chars(text(x)) + chars(p.replace("%%", "%"))
        return make(out)


def _mix(n):
    plain, sym = getattr(str, n), getattr(Ops, n)

    def f(self, *a, **k):
        def has(x):
            return isinstance(x, SymStr) or (isinstance(x, (list, tuple)) and any(isinstance(y, SymStr) for y in x))
        if n == "join":
            a = (list(a[0]),)
        if any(has(x) for x in a) or any(has(x) for x in k.values()):
            return sym(self, *a, **k)
        r = plain(self, *a, **k)
        return VStr(r) if type(r) is str else [VStr(x) for x in r] if isinstance(r, list) else r
    return f


for _n in ("replace", "split", "rsplit", "partition", "rpartition", "rfind", "rindex", "join", "strip", "lstrip", "rstrip", "startswith", "endswith", "removesuffix", "removeprefix", "find", "index",
           "count", "format", "__add__", "__contains__", "__eq__", "__ne__", "splitlines", "__getitem__", "__mul__", "ljust"):
    setattr(VStr, _n, _mix(_n))
VStr.__radd__ = lambda self, o: make(chars(o) + chars(self)) if is_text(o) else NotImplemented
VStr.__iter__ = lambda self: iter([VStr(x) for x in str.__iter__(self)])


def text(x=""):
    if is_text(x):
        return x
    if isinstance(x, Sym):
        raise Unsupported("text of a symbolic value")
    return VStr(str(x))


class _Meta(type):
    def __call__(cls, *a):
        return text(*a)

    def __instancecheck__(cls, x):
        return is_text(x)

    def __getattr__(cls, n):
        f = getattr(Ops, n, None)
        return f if f is not None else getattr(str, n)


class Text(metaclass=_Meta):
    pass


def fstring(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if isinstance(v, SymStr) and (spec or conv not in (-1, 115)):
                raise Unsupported("format specification")
            out += chars(v) if isinstance(v, SymStr) else chars(text(format(repr(v) if conv == 114 else str(v) if conv == 115 else v, spec)) if not isinstance(v, Sym) else text(v))
        else:
            out += chars(p)
    return make(out)


class Rewrite(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, str):
            return ast.copy_location(ast.Call(ast.Name("__vx_lit", ast.Load()), [n], []), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name("__vx_f", ast.Load()), parts, []), n)

    def body(self, n):
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
        return self.generic_visit(n)
    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = visit_Module = body

    def visit_MatchValue(self, n):
        return n

    def visit_keyword(self, n):
        return self.generic_visit(n)


def load(path, name, **replaced):
    tree = Rewrite().visit(ast.parse(open(path).read(), path))
    ast.fix_missing_locations(tree)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__.update({"__vx_lit": VStr, "__vx_f": fstring, "str": Text})
    exec(compile(tree, path, "exec"), m.__dict__)
    m.__dict__.update(replaced)
    return m
