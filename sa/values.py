"""Abstract values of the interpreter."""
from __future__ import annotations

import math

EMPTY = frozenset()
INF = float("inf")


class V:
    """kinds:
    const  c = Python constant (None, bool, int, float, str, bytes, Ellipsis)
    num    num = Interval, c = 'int' | 'float'
    typ    c = python/ext type name of an otherwise unknown value ('str','bool','list','dict',...)
    seq    c = 'tuple' | 'list', items = tuple of V           (exact content)
    dict   items = tuple of (key, V), c = V of unknown further entries or None
    obj    c = ClassInfo, oid = identity
    fn     c = FuncInfo, items = captured environment holder (closure) or None
    bound  c = FuncInfo, items = receiver V
    cls    c = ClassInfo
    ext    c = dotted name of something outside the package (module, function, class)
    mod    c = ModuleInfo
    super  c = (ClassInfo start-after, ClassInfo mro-of), items = receiver V
    union  items = tuple of V
    top    unknown
    """

    __slots__ = ("k", "c", "lab", "sym", "items", "num", "oid", "mn", "_h")

    def __init__(self, k, c=None, lab=EMPTY, sym=None, items=None, num=None, oid=None, mn=True):
        self.k = k
        self.c = c
        self.lab = lab
        self.sym = sym
        self.items = items
        self.num = num
        self.oid = oid
        self.mn = mn  # may be None (obj/typ/top only)
        self._h = None

    def key(self):
        c = self.c
        if self.k == "const":
            if isinstance(c, float) and math.isnan(c):
                c = "nan!"
            c = (type(c).__name__, c)
        return (self.k, c, self.lab, self.sym, self.items, self.num, self.oid, self.mn)

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and hash(self) == hash(o) and self.key() == o.key())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def with_lab(self, lab):
        lab = frozenset(lab)
        if lab == self.lab:
            return self
        return V(self.k, self.c, lab, self.sym, self.items, self.num, self.oid, self.mn)

    def add_lab(self, *labs):
        return self.with_lab(self.lab | frozenset(labs))

    def with_sym(self, sym):
        return V(self.k, self.c, self.lab, sym, self.items, self.num, self.oid, self.mn)

    def not_none(self):
        if not self.mn:
            return self
        return V(self.k, self.c, self.lab, self.sym, self.items, self.num, self.oid, False)

    def __repr__(self):
        s = self.k
        if self.k == "const":
            s = f"={self.c!r}"
        elif self.k in ("obj", "cls", "fn", "bound"):
            s = f"{self.k}:{getattr(self.c, 'name', self.c)}"
        elif self.k in ("ext", "typ"):
            s = f"{self.k}:{self.c}"
        elif self.k == "num":
            s = f"{self.num}"
        elif self.k in ("seq", "union"):
            s = f"{self.k}{list(self.items)}"
        elif self.k == "dict":
            s = f"dict{dict(self.items)}+{self.c}"
        if self.lab:
            s += "#" + ",".join(sorted(map(str, self.lab)))
        return f"<{s}>"


class Interval:
    """Set of reals between lo and hi (open flags); never contains NaN."""

    __slots__ = ("lo", "hi", "lo_open", "hi_open")

    def __init__(self, lo, hi, lo_open=False, hi_open=False):
        self.lo, self.hi, self.lo_open, self.hi_open = lo, hi, lo_open, hi_open

    def key(self):
        return (self.lo, self.hi, self.lo_open, self.hi_open)

    def __eq__(self, o):
        return isinstance(o, Interval) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"{'(' if self.lo_open else '['}{self.lo},{self.hi}{')' if self.hi_open else ']'}"

    def lt(self, o):
        """True/False/None for self < o."""
        if self.hi < o.lo or (self.hi == o.lo and (self.hi_open or o.lo_open)):
            return True
        if self.lo >= o.hi:
            return False
        return None

    def le(self, o):
        r = o.lt(self)
        return None if r is None else not r

    def eq(self, o):
        if self.lt(o) is True or o.lt(self) is True:
            return False
        if self.lo == self.hi == o.lo == o.hi:
            return True
        return None

    def empty(self):
        return self.lo > self.hi or (self.lo == self.hi and (self.lo_open or self.hi_open))

    def meet(self, o):
        lo, lo_open = max((self.lo, self.lo_open), (o.lo, o.lo_open))
        if self.hi < o.hi or (self.hi == o.hi and self.hi_open):
            hi, hi_open = self.hi, self.hi_open
        else:
            hi, hi_open = o.hi, o.hi_open
        return Interval(lo, hi, lo_open, hi_open)


def const(c, lab=EMPTY, sym=None):
    return V("const", c, lab, sym)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def top(lab=EMPTY, sym=None, mn=True):
    return V("top", None, frozenset(lab), sym, mn=mn)


def typ(t, lab=EMPTY, sym=None, mn=False):
    return V("typ", t, frozenset(lab), sym, mn=mn)


def all_labels(v, depth=0):
    """Labels of the value and of everything inside containers."""
    out = v.lab
    if depth > 4:
        return out
    if v.k in ("seq", "union"):
        for i in v.items:
            out = out | all_labels(i, depth + 1)
    elif v.k == "dict":
        for _, i in v.items:
            out = out | all_labels(i, depth + 1)
        if v.c is not None:
            out = out | all_labels(v.c, depth + 1)
    return out


def as_interval(v):
    if v.k == "num":
        return v.num
    if v.k == "const" and isinstance(v.c, (int, float)) and not isinstance(v.c, bool):
        if isinstance(v.c, float) and math.isnan(v.c):
            return None
        return Interval(v.c, v.c)
    if v.k == "const" and isinstance(v.c, bool):
        return Interval(int(v.c), int(v.c))
    return None


def is_nan(v):
    return v.k == "const" and isinstance(v.c, float) and math.isnan(v.c)


def join(a, b):
    if a == b:
        return a
    if a.k == b.k == "const" and type(a.c) is type(b.c) and a.c == b.c:
        return V("const", a.c, a.lab | b.lab, a.sym if a.sym == b.sym else None)
    if a.k == b.k == "obj" and a.c is b.c and a.oid == b.oid:
        return V("obj", a.c, a.lab | b.lab, a.sym if a.sym == b.sym else None, oid=a.oid, mn=a.mn or b.mn)
    if a.k == b.k == "dict":
        ka, kb = dict(a.items), dict(b.items)
        if set(ka) == set(kb):
            rest = a.c if b.c is None else b.c if a.c is None else join(a.c, b.c)
            return V("dict", rest, a.lab | b.lab, a.sym if a.sym == b.sym else None,
                     tuple((k, join(ka[k], kb[k])) for k in ka))
    if a.k == b.k == "seq" and a.c == b.c and len(a.items) == len(b.items):
        return V("seq", a.c, a.lab | b.lab, a.sym if a.sym == b.sym else None,
                 tuple(join(x, y) for x, y in zip(a.items, b.items)))
    alts = []
    for v in (a.items if a.k == "union" else (a,)) + (b.items if b.k == "union" else (b,)):
        if v not in alts:
            alts.append(v)
    if any(v.k == "top" and v.sym is None for v in alts) or len(alts) > 5:
        lab = EMPTY
        for v in alts:
            lab |= all_labels(v)
        return top(lab)
    lab = a.lab | b.lab
    return V("union", None, lab, ("join",) + tuple(sorted((repr(v) for v in alts))), tuple(alts))
