"""Sums of monomials with rational exponents over opaque positive symbols: {((atom, exponent), ...): coefficient}."""
from __future__ import annotations

from fractions import Fraction


def frac(x):
    return Fraction(x).limit_denominator(1000)


def num(x):
    return {(): float(x)} if x else {}


def atom(a):
    return {((a, Fraction(1)),): 1.0}


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def add(a, b, k=1.0):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0.0) + k * c
        if abs(v) <= 1e-12 * max(abs(out.get(m, 0.0)), abs(c)):
            out.pop(m, None)
        else:
            out[m] = v
    return out


def _mono(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, Fraction(0)) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=repr))


def mul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mono(m, n)
            out[k] = out.get(k, 0.0) + c * d
    return {m: c for m, c in out.items() if c}


def power(p, e):
    """p ** e, or None when it is not a monomial (or a small natural power)."""
    e = frac(e)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 or e.denominator == 1:
            return {tuple((a, x * e) for a, x in m): c ** float(e)}
    if e.denominator == 1 and 0 <= e <= 3:
        out = num(1)
        for _ in range(int(e)):
            out = mul(out, p)
        return out
    return None


def div(a, b):
    r = power(b, -1) if b else None
    return mul(a, r) if r is not None else None


def same(a, b):
    return a is not None and b is not None and set(a) == set(b) and all(close(a[m], b[m]) for m in a)


def frozen(p):
    return tuple(sorted(((m, float(f"{c:.10g}")) for m, c in p.items()), key=repr))


def sym_of(p):
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1.0 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ("ALG", frozen(p))


def of_sym(s):
    if isinstance(s, tuple) and len(s) == 2 and s[0] == "ALG":
        return dict(s[1])
    if isinstance(s, tuple) and len(s) == 2 and s[0] in ("float", "int"):
        return of_sym(s[1])
    if isinstance(s, tuple) and len(s) == 2 and s[0] == "x" and s[1] in ("math.pi", "numpy.pi", "scipy.constants.pi"):
        return num(3.141592653589793)
    return atom(s)


def vague(s):
    return s is None or isinstance(s, tuple) and bool(s) and (s[0] == "join" or any(vague(x) for x in s if isinstance(x, tuple)))


def of(v):
    """The algebraic value of an abstract value, or None."""
    if v.k == "const":
        return num(v.c) if isinstance(v.c, (int, float)) and not isinstance(v.c, bool) else None
    if v.k == "union" or vague(v.sym):
        return None
    return of_sym(v.sym)


def show(p, names=str):
    if p is None:
        return "something unknown"
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=repr):
        fs = [names(a) + ("" if e == 1 else f"^{e}") for a, e in m]
        out.append(("" if close(c, 1.0) and fs else f"{c:.6g} ") + "*".join(fs))
    return " + ".join(out).strip()
