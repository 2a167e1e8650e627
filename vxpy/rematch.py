"""The re library on texts with symbolic characters: patterns are parsed by CPython, matched here with forking."""
try:
    from re import _parser as sre_parse, _constants as C
except ImportError:
    import sre_parse
    import sre_constants as C
from . import strs
from .engine import Unsupported

NAMES = ("compile", "sub", "split", "match", "fullmatch", "search", "findall", "finditer", "escape", "subn", "IGNORECASE", "I", "MULTILINE", "M", "DOTALL", "S", "VERBOSE", "X", "error")
import re as _re
IGNORECASE = I = _re.I
MULTILINE = M = _re.M
DOTALL = S = _re.S
VERBOSE = X = _re.X
error = _re.error
ALL = frozenset(range(256))
WORD = frozenset(c for c in ALL if chr(c) == "_" or (c < 128 and chr(c).isalnum()))
DIGIT = frozenset(range(48, 58))


def category(c):
    base = {"SPACE": strs.SPACE, "DIGIT": DIGIT, "WORD": WORD}
    n = str(c).split("CATEGORY_")[1]
    return ALL - base[n[4:]] if n.startswith("NOT_") else base[n]


def members(items):
    out, neg = set(), False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.add(av)
        elif op is C.RANGE:
            out.update(range(av[0], av[1] + 1))
        elif op is C.CATEGORY:
            out |= category(av)
        else:
            raise Unsupported("regular expression")
    return ALL - out if neg else frozenset(out)


class Match:
    def __init__(self, h, spans):
        self.h, self.spans = h, spans

    def group(self, *n):
        n = n or (0,)
        out = tuple(None if self.spans.get(k) is None else strs.make(self.h[self.spans[k][0]:self.spans[k][1]]) for k in n)
        return out[0] if len(n) == 1 else out
    __getitem__ = group

    def groups(self):
        return tuple(self.group(k) for k in range(1, self.count + 1))

    def start(self, n=0):
        return self.spans[n][0]

    def end(self, n=0):
        return self.spans[n][1]

    def span(self, n=0):
        return self.spans[n]


class Pattern:
    def __init__(self, p, flags=0):
        if isinstance(p, strs.SymStr):
            raise Unsupported("a symbolic regular expression")
        self.pattern, self.tree = p, sre_parse.parse("".join(map(chr, strs.chars(p))), int(flags))
        self.flags = self.tree.state.flags
        if self.flags & _re.I:
            raise Unsupported("a regular expression without case")
        self.count = self.tree.state.groups - 1

    def run(self, ops, k, h, i, g):
        """Ends of the matches of ops[k:] from i on, with the groups, in the order of preference."""
        if k == len(ops):
            yield i, g
            return
        op, av = ops[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
            s = frozenset((av,)) if op is C.LITERAL else ALL - {av} if op is C.NOT_LITERAL else members(av) if op is C.IN else ALL if self.flags & _re.S else ALL - {10}
            if i < len(h) and strs.char_in(h[i], s):
                yield from self.run(ops, k + 1, h, i + 1, g)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            greedy = op is C.MAX_REPEAT

            def more(n, j, gg):
                def on():
                    if n < hi:
                        for e, g2 in self.run(sub, 0, h, j, gg):
                            if e > j or n < lo:
                                yield from more(n + 1, e, g2)

                def stop():
                    if n >= lo:
                        yield from self.run(ops, k + 1, h, j, gg)
                for f in ((on, stop) if greedy else (stop, on)):
                    yield from f()
            yield from more(0, i, g)
        elif op is C.SUBPATTERN:
            group, add, rem, sub = av
            if add or rem:
                raise Unsupported("flags in a regular expression")
            for e, g2 in self.run(sub, 0, h, i, g):
                yield from self.run(ops, k + 1, h, e, dict(g2, **{}) if group is None else {**g2, group: (i, e)})
        elif op is C.BRANCH:
            for sub in av[1]:
                for e, g2 in self.run(sub, 0, h, i, g):
                    yield from self.run(ops, k + 1, h, e, g2)
        elif op is C.AT:
            n = str(av)
            at = lambda q: 0 <= q < len(h) and strs.char_in(h[q], WORD)
            ok = {"AT_BEGINNING": lambda: i == 0 or bool(self.flags & _re.M) and strs.char_in(h[i - 1], frozenset((10,))), "AT_BEGINNING_STRING": lambda: i == 0,
                  "AT_END": lambda: i == len(h) or (i == len(h) - 1 or bool(self.flags & _re.M)) and strs.char_in(h[i], frozenset((10,))), "AT_END_STRING": lambda: i == len(h),
                  "AT_BOUNDARY": lambda: at(i - 1) != at(i), "AT_NON_BOUNDARY": lambda: at(i - 1) == at(i)}.get(n)
            if ok is None:
                raise Unsupported("regular expression")
            if ok():
                yield from self.run(ops, k + 1, h, i, g)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            if av[0] < 0:
                raise Unsupported("looking behind in a regular expression")
            found = next(iter(self.run(av[1], 0, h, i, g)), None)
            if (found is not None) == (op is C.ASSERT):
                yield from self.run(ops, k + 1, h, i, found[1] if found else g)
        else:
            raise Unsupported("regular expression: %s" % op)

    def at(self, h, i, full=False, nonempty=False):
        for e, g in self.run(list(self.tree), 0, h, i, {}):
            if (not full or e == len(h)) and (not nonempty or e > i):
                m = Match(h, {**g, 0: (i, e)})
                m.count = self.count
                return m
        return None

    def match(self, s):
        return self.at(strs.chars(s), 0)

    def fullmatch(self, s):
        return self.at(strs.chars(s), 0, True)

    def search(self, s):
        h = strs.chars(s)
        return next((m for m in (self.at(h, i) for i in range(len(h) + 1)) if m), None)

    def finditer(self, s):
        h, i, must = strs.chars(s), 0, False
        while i <= len(h):
            m = self.at(h, i, nonempty=must)
            if m is None:
                i, must = i + 1, False
                continue
            yield m
            must = m.end() == m.start()
            i = m.end()

    def findall(self, s):
        fill = lambda x: strs.VStr("") if x is None else x
        return [m.group(0) if not self.count else fill(m.group(1)) if self.count == 1 else tuple(map(fill, m.groups())) for m in self.finditer(s)]

    def subn(self, new, s, count=0):
        h, out, i, n = strs.chars(s), [], 0, 0
        if not callable(new) and 92 in strs.chars(new):
            raise Unsupported("groups in a replacement")
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += h[i:m.start()] + strs.chars(new(m) if callable(new) else new)
            i, n = m.end(), n + 1
        return strs.make(tuple(out) + h[i:]), n

    def sub(self, new, s, count=0):
        return self.subn(new, s, count)[0]

    def split(self, s, maxsplit=0):
        h, out, i, n = strs.chars(s), [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(strs.make(h[i:m.start()]))
            out += m.groups()
            i, n = m.end(), n + 1
        return out + [strs.make(h[i:])]


def compile(p, flags=0):
    return p if isinstance(p, Pattern) else Pattern(p, flags)


def escape(p):
    return strs.VStr(_re.escape(str.__str__(p)))


def sub(p, new, s, count=0, flags=0):
    return compile(p, flags).sub(new, s, count)


def subn(p, new, s, count=0, flags=0):
    return compile(p, flags).subn(new, s, count)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def _simple(n):
    def f(p, s, flags=0):
        return getattr(compile(p, flags), n)(s)
    f.__name__ = n
    return f


match, fullmatch, search, findall, finditer = map(_simple, ("match", "fullmatch", "search", "findall", "finditer"))
