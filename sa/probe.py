"""Probes: abstract client programs over classes of inputs, with the outcome they must have."""
from __future__ import annotations

import ast

from .client import client
from .interp import Budget, Hooks, Interp, State, lit_value
from .values import INF, V, Interval, const, top, typ


def num(lo, hi, lo_open=False, hi_open=False, c="float", sym=("given",)):
    return V("num", c, sym=sym, num=Interval(lo, hi, lo_open, hi_open), mn=False)


NEG = ("any negative number", lambda s: num(-INF, 0, True, True, sym=s))
NONPOS = ("any number <= 0", lambda s: num(-INF, 0, True, False, sym=s))
ZERO = ("zero", lambda s: const(0.0, sym=s))
POS = ("any positive finite number", lambda s: num(0, INF, True, True, sym=s))
POSINT = ("any positive integer", lambda s: num(1, INF, False, True, c="int", sym=s))
NEGINT = ("any negative integer", lambda s: num(-INF, -1, True, False, c="int", sym=s))
NAN = ("not-a-number", lambda s: const(float("nan"), sym=s))
PINF = ("infinity", lambda s: const(INF, sym=s))
STR = ("a text value", lambda s: typ("str", sym=s))
BADSTR = ("an unknown option name", lambda s: const("no-such-option", sym=s))
NONE = ("None", lambda s: const(None, sym=s))
TRUE = ("True", lambda s: const(True, sym=s))
FALSE = ("False", lambda s: const(False, sym=s))
LIST = ("a list", lambda s: V("seq", "list", sym=s, items=(const("x"), const("y"), const("z"))))
def pyval(x):
    return (repr(x), lambda s: lit_value(x, s))


TRIPLE = ("three numbers", lambda s: lit_value((1.0, 2.0, 3.0), s))
QUAD = ("four numbers", lambda s: lit_value((1.0, 2.0, 3.0, 4.0), s))
SINGLE = ("a list of one number", lambda s: lit_value([1.0], s))
DICT = ("a dictionary", lambda s: V("dict", None, sym=s, items=(("a", const("x")),)))


def rng(lo, hi, lo_open=False, hi_open=False):
    return (f"any number in {'(' if lo_open else '['}{lo}, {hi}{')' if hi_open else ']'}", lambda s: num(lo, hi, lo_open, hi_open, sym=s))


def lit(x):
    return (repr(x), lambda s: const(x, sym=s))


class ProbeHooks(Hooks):
    def __init__(self, noinline=(), max_rec=1):
        self.noinline = set(noinline)
        self.max_rec = max_rec

    def inline(self, I, func, depth):
        return func.name not in self.noinline and func.short not in self.noinline

    def after_call(self, I, st, node, fv, pos, kw, v):
        """Results of the functions named in noinline count as unrelated to the probed arguments (they validate nothing)."""
        if fv.k in ("fn", "bound") and "given" in v.lab and (fv.c.name in self.noinline or fv.c.short in self.noinline):
            v = v.with_lab(v.lab - {"given"})
        return v


def run_probe(prog, src, args, objs=None, noinline=(), max_depth=16, cap=12, budget=60000, hooks=None, heap=None, max_rec=1, mon=None, loop=None):
    """-> (outs, interp); outs None when the analysis gave up."""
    f = client(prog, src)
    noinline = set(noinline) | {"_rng_init", "_simdir_init"}
    I = Interp(prog, hooks or ProbeHooks(noinline, max_rec), max_depth=max_depth, cap=cap, budget=budget)
    if loop is not None:
        I.loop = loop
    a = {}
    for n, c in (objs or {}).items():
        a[n] = I.self_obj(prog.cls(c), oid=n)
    for n, v in args.items():
        a[n] = v[1](("given", n)).add_lab("given") if isinstance(v, tuple) else v
    try:
        return I.run(f, args=a, st=State(heap=dict(heap or {}), **({} if mon is None else {"mon": mon}))), I
    except Budget:
        return None, I


def outcome(outs):
    if outs is None:
        return "unknown"
    ks = {k for k, v, s in outs}
    if ks == {"raise"}:
        return "reject"
    if ks == {"ret"}:
        return "accept"
    if not ks:
        return "unknown"
    return "either"


def guard_lines(fn, node):
    """Lines of the tests that enclose a statement or expression within its function."""
    lines = set()

    def inside(x):
        return any(c is node for c in ast.walk(x))

    def visit(stmts):
        for x in stmts:
            if not inside(x):
                continue
            if isinstance(x, (ast.If, ast.While)):
                lines.update(range(x.test.lineno, x.test.end_lineno + 1))
            for f in ("body", "orelse", "finalbody"):
                visit(getattr(x, f, None) or [])
            for h in getattr(x, "handlers", None) or []:
                visit(h.body)
    body = getattr(fn, "body", [])
    visit(body if isinstance(body, list) else [])
    for x in ast.walk(fn):
        if isinstance(x, (ast.IfExp, ast.BoolOp, ast.Assert)) and inside(x):
            lines.update(range(x.lineno, x.end_lineno + 1))
    return lines


def strong(outs):
    """Accepting paths on which no undecided test of the probed value guards a rejection."""
    guards = set()
    for k, e, s in outs:
        if k == "raise":
            lines = guard_lines(e.func.node, e.node)
            for t in s.trail:
                if t[0].endswith("?") and t[0][:-1] == e.func.short and t[1] in lines:
                    guards.add((t[0], t[1]))
    return [(k, v, s) for k, v, s in outs if k == "ret" and not any((t[0], t[1]) in guards for t in s.trail)]
