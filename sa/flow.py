"""Structured path analysis of one function with exceptional exits.

A client supplies transfer functions on small immutable states; the walker enumerates, per statement, the sets of
states with which control falls through, returns, raises, breaks or continues.  A statement may raise when it
contains a call, a subscript, an arithmetic operation, an import, an assertion, a yield or a raise; the state at the
raise is the one before the statement (and the one after it, when the client asks for it)."""
from __future__ import annotations

import ast

MAY = (ast.Call, ast.Subscript, ast.Raise, ast.Assert, ast.BinOp, ast.Yield, ast.YieldFrom, ast.Await, ast.Import, ast.ImportFrom)


def shallow(node):
    """Nodes of a statement's own expressions (not of nested statements, functions or classes)."""
    stack = [node]
    while stack:
        n = stack.pop()
        yield n
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(ch, ast.stmt) and isinstance(n, ast.stmt):
                continue
            if isinstance(ch, (ast.ExceptHandler, ast.match_case)) and isinstance(n, ast.stmt):
                continue
            stack.append(ch)


def may_raise(node):
    return any(isinstance(n, MAY) for n in shallow(node))


class Exits:
    __slots__ = ("fall", "ret", "exc", "brk", "cont")

    def __init__(self, fall=(), ret=(), exc=(), brk=(), cont=()):
        self.fall, self.ret, self.exc, self.brk, self.cont = set(fall), set(ret), set(exc), set(brk), set(cont)

    def join(self, o):
        self.ret |= o.ret
        self.exc |= o.exc
        self.brk |= o.brk
        self.cont |= o.cont


class Walker:
    """Subclass: simple(stmt, state) -> list of states; expr(node, state) -> list of states (tests, iterables, with items);
    test(node, state, truth) -> state or None; raises(node, state) -> bool; enter_with / leave_with."""

    def simple(self, s, st):
        return [st]

    def expr(self, e, st):
        return [st]

    def test(self, e, st, truth):
        return st

    def raises(self, node, st):
        return may_raise(node)

    def after_raise(self, node, st):
        """Further states a statement may leave when it raises after taking effect."""
        return ()

    def enter_with(self, item, st):
        return [st]

    def leave_with(self, item, st):
        return [st]

    # ------------------------------------------------------------------
    def run(self, fn, st):
        body = fn.body if isinstance(fn.body, list) else []
        x = self.block(body, {st})
        return x

    def block(self, body, states):
        out = Exits(fall=states)
        for s in body:
            if not out.fall:
                break
            cur, out.fall = out.fall, set()
            for st in cur:
                r = self.stmt(s, st)
                out.join(r)
                out.fall |= r.fall
            if len(out.fall) > 400:
                raise OverflowError
        return out

    def _exc(self, node, st, out):
        if self.raises(node, st):
            out.exc.add(st)
            out.exc.update(self.after_raise(node, st))

    def stmt(self, s, st):
        out = Exits()
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.fall.add(st)
            return out
        if isinstance(s, ast.Return):
            if s.value is not None:
                self._exc(s.value, st, out)
            out.ret.update(self.simple(s, st))
            return out
        if isinstance(s, ast.Raise):
            out.exc.update(self.simple(s, st))
            return out
        if isinstance(s, ast.Break):
            out.brk.add(st)
            return out
        if isinstance(s, ast.Continue):
            out.cont.add(st)
            return out
        if isinstance(s, ast.If):
            self._exc(s.test, st, out)
            for st2 in self.expr(s.test, st):
                for truth, body in ((True, s.body), (False, s.orelse)):
                    t = self.test(s.test, st2, truth)
                    if t is not None:
                        r = self.block(body, {t})
                        out.join(r)
                        out.fall |= r.fall
            return out
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            head = s.test if isinstance(s, ast.While) else s.iter
            self._exc(head, st, out)
            seen, work = set(), {x for x in self.expr(head, st)}
            ends = set()
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            for _ in range(4):
                new = work - seen
                if not new:
                    break
                seen |= new
                if not forever:
                    ends |= new
                enter = new
                if isinstance(s, ast.While):
                    enter = {y for x in new for y in [self.test(s.test, x, True)] if y is not None}
                elif isinstance(s, ast.For):
                    enter = {y for x in new for y in self.bind_for(s, x)}
                r = self.block(s.body, enter)
                out.ret |= r.ret
                out.exc |= r.exc
                out.fall |= r.brk
                work = r.fall | r.cont
            r = self.block(s.orelse, ends)
            out.join(r)
            out.fall |= r.fall
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            states = {st}
            entered = []
            for it in s.items:
                nxt = set()
                for x in states:
                    self._exc(it.context_expr, x, out)
                    nxt |= set(self.enter_with(it, x))
                states = nxt
                entered.append(it)
            r = self.block(s.body, states)

            def leave(ss):
                for it in reversed(entered):
                    ss = {y for x in ss for y in self.leave_with(it, x)}
                return ss
            out.fall |= leave(r.fall)
            out.ret |= leave(r.ret)
            out.exc |= leave(r.exc)
            out.brk |= leave(r.brk)
            out.cont |= leave(r.cont)
            if any(self.swallows(it) for it in s.items):
                out.fall |= leave(r.exc)
            return out
        if isinstance(s, (ast.Try,)) or s.__class__.__name__ == "TryStar":
            r = self.block(s.body, {st})
            mid = Exits(ret=r.ret, brk=r.brk, cont=r.cont)
            r2 = self.block(s.orelse, r.fall)
            mid.join(r2)
            mid.fall |= r2.fall
            catch_all = False
            for h in s.handlers:
                hs = set()
                for x in r.exc:
                    hs |= set(self.handler(h, x))
                rh = self.block(h.body, hs)
                mid.join(rh)
                mid.fall |= rh.fall
                catch_all = catch_all or h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException")
            if not catch_all:
                mid.exc |= r.exc
            if s.finalbody:
                res = Exits()
                for kind in ("fall", "ret", "exc", "brk", "cont"):
                    ss = getattr(mid, kind)
                    if not ss:
                        continue
                    rf = self.block(s.finalbody, set(ss))
                    res.join(rf)
                    getattr(res, kind).update(rf.fall)
                return res
            return mid
        if isinstance(s, ast.Match):
            self._exc(s.subject, st, out)
            for c in s.cases:
                r = self.block(c.body, {st})
                out.join(r)
                out.fall |= r.fall
            last = s.cases[-1]
            if not (isinstance(last.pattern, ast.MatchAs) and last.pattern.pattern is None and last.guard is None):
                out.fall.add(st)
            return out
        self._exc(s, st, out)
        out.fall.update(self.simple(s, st))
        return out

    def bind_for(self, s, st):
        return [st]

    def handler(self, h, st):
        return [st]

    def swallows(self, item):
        e = item.context_expr
        if isinstance(e, ast.Call):
            d = ast.unparse(e.func)
            return d.endswith("suppress")
        return False
