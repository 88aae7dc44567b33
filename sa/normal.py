"""Brings equivalent spellings to one form before anything is analysed.

Every rewriting keeps the meaning and the line numbers:
  const < x           ->  x > const           (and the other comparisons; two names are put in order)
  not (a is b)        ->  a is not b          (and in / not in)
  t = E; if t: ...    ->  if E: ...           when t is assigned once and read once
  t = E; return t     ->  return E            likewise, and likewise  t = E; self.a = t
"""
import ast

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
INV = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def simple(e):
    """Evaluating it changes nothing and depends on no order."""
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return simple(e.value)
    if isinstance(e, ast.UnaryOp):
        return simple(e.operand)
    return False


def rank(e):
    """Literals go to the right."""
    if isinstance(e, ast.UnaryOp):
        return rank(e.operand)
    return 1 if isinstance(e, ast.Constant) else 0


class Spelling(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            l, r = n.left, n.comparators[0]
            if (rank(l), 0) > (rank(r), 0) or (rank(l) == rank(r) and simple(l) and simple(r) and type(n.ops[0]) in (ast.Gt, ast.GtE)):
                n.left, n.comparators[0] = r, l
                n.ops[0] = FLIP[type(n.ops[0])]()
            elif rank(l) == rank(r) and simple(l) and simple(r) and isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and ast.unparse(l) > ast.unparse(r):
                n.left, n.comparators[0] = r, l
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1 and type(n.operand.ops[0]) in INV:
            c = n.operand
            c.ops[0] = INV[type(c.ops[0])]()
            return c
        return n


def own(f):
    """The nodes of a function, its inner functions included."""
    for s in f.body:
        yield from ast.walk(s)


def first_use(e, name):
    """Is `name` read in e before anything that could have an effect? -> True / False / None (not read)"""
    if isinstance(e, ast.Name):
        return True if e.id == name else None
    if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
        return False
    if isinstance(e, ast.BoolOp):
        r = first_use(e.values[0], name)
        return r if r is not None else False
    if isinstance(e, ast.IfExp):
        r = first_use(e.test, name)
        return r if r is not None else False
    for c in ast.iter_child_nodes(e):
        if isinstance(c, (ast.expr_context, ast.operator, ast.unaryop, ast.cmpop, ast.boolop)):
            continue
        if isinstance(c, ast.keyword):
            c = c.value
        r = first_use(c, name)
        if r is not None:
            return r
        if not simple(c):
            return False
    return None


class Put(ast.NodeTransformer):
    def __init__(self, name, e):
        self.name, self.e = name, e

    def visit_Name(self, n):
        return self.e if n.id == self.name else n


def inline_conditions(f):
    counts = {}
    for n in own(f):
        if isinstance(n, ast.Name):
            c = counts.setdefault(n.id, [0, 0])
            c[0 if isinstance(n.ctx, ast.Load) else 1] += 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                counts[x] = [9, 9]
    params = {a.arg for n in ast.walk(f) if isinstance(n, ast.arguments) for a in n.posonlyargs + n.args + n.kwonlyargs + [y for y in (n.vararg, n.kwarg) if y]}
    once = {x for x, c in counts.items() if c == [1, 1]} - params
    if not once:
        return

    def block(b):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                i += 1
                continue
            for fld in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, fld, None), list):
                    block(getattr(s, fld))
            for h in getattr(s, "handlers", ()):
                block(h.body)
            while isinstance(s, (ast.If, ast.Assert)) and i and isinstance(b[i - 1], ast.Assign) and len(b[i - 1].targets) == 1 and isinstance(b[i - 1].targets[0], ast.Name):
                name = b[i - 1].targets[0].id
                if name not in once or not first_use(s.test, name):
                    break
                s.test = Put(name, b[i - 1].value).visit(s.test)
                del b[i - 1]
                i -= 1
            while i and isinstance(b[i - 1], ast.Assign) and len(b[i - 1].targets) == 1 and isinstance(b[i - 1].targets[0], ast.Name):
                name = b[i - 1].targets[0].id
                if name not in once or not isinstance(getattr(s, "value", None), ast.Name) or s.value.id != name:
                    break
                if not (isinstance(s, ast.Return) or (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name))):
                    break
                s.value = b[i - 1].value
                del b[i - 1]
                i -= 1
            i += 1
    block(f.body)


def normalise(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            inline_conditions(n)
    return Spelling().visit(tree)
