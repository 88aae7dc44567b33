"""Program model of the analysed repository: modules, resolved imports, classes with
their MRO, properties (including the repository's own recording descriptor), functions and
the component registry.  Built from /repo's current source by parsing only; nothing of the
repository is ever imported or executed."""
from __future__ import annotations

import ast
import os
from pathlib import Path

from .normal import normalise

REPO = Path(os.environ.get("SA_REPO", "/repo"))
PKG = "cratermaker"


class AnalysisBroken(Exception):
    """An anchor the analysis depends on is missing: neither pass nor violation."""


class FuncInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent  # enclosing FuncInfo for nested functions
        self.name = getattr(node, "name", "<lambda>")
        decos = []
        for d in getattr(node, "decorator_list", []):
            decos.append(_deco_name(d))
        self.decos = decos
        self.is_static = "staticmethod" in decos
        self.is_classmethod = "classmethod" in decos
        self.is_abstract = any(d.endswith("abstractmethod") for d in decos)

    @property
    def qual(self):
        if self.parent is not None:
            return f"{self.parent.qual}.<locals>.{self.name}"
        if self.cls is not None:
            return f"{self.cls.qual}.{self.name}"
        return f"{self.module.name}.{self.name}"

    @property
    def short(self):
        if self.parent is not None:
            return f"{self.parent.short}.{self.name}"
        return f"{self.cls.name}.{self.name}" if self.cls else self.name

    @property
    def path(self):
        return self.module.relpath

    @property
    def args(self):
        return self.node.args

    def params(self):
        """Ordered parameter names without self/cls."""
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if self.cls is not None and not self.is_static and names and self.parent is None:
            names = names[1:]
        return names + [x.arg for x in a.kwonlyargs]

    def __repr__(self):
        return f"<Func {self.qual}>"


def _deco_name(d):
    if isinstance(d, ast.Call):
        return _deco_name(d.func)
    if isinstance(d, ast.Attribute):
        return f"{_deco_name(d.value)}.{d.attr}"
    if isinstance(d, ast.Name):
        return d.id
    return "?"


class PropInfo:
    """property or the repository's recording 'parameter' descriptor."""

    def __init__(self, name, cls, recording):
        self.name = name
        self.cls = cls
        self.recording = recording
        self.fget = None
        self.fset = None
        self.fdel = None
        self.cached = False

    def __repr__(self):
        return f"<Prop {self.cls.name}.{self.name}>"


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = f"{module.name}.{node.name}"
        self.methods = {}
        self.props = {}
        self.attrs = {}  # class level assigned names -> value node (or None)
        self.anns = {}
        self.base_nodes = node.bases
        self.bases = []  # ClassInfo or dotted str
        self.decos = [_deco_name(d) for d in node.decorator_list]
        self.registered = None
        self.nested = {}  # classes defined in the body
        self.is_dataclass = any(d.split(".")[-1] == "dataclass" for d in self.decos)
        self.is_frozen = self.is_dataclass and any(
            isinstance(d, ast.Call) and any(k.arg == "frozen" and isinstance(k.value, ast.Constant) and k.value.value is True for k in d.keywords)
            for d in node.decorator_list)
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                seqs.append(list(b.mro()) if isinstance(b, ClassInfo) else [b])
            seqs.append(list(self.bases))
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h and x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def nested_class(self, name):
        return next((c.nested[name] for c in self.cmro() if name in c.nested), None)

    def cmro(self):
        return [c for c in self.mro() if isinstance(c, ClassInfo)]

    def ext_bases(self):
        return [c for c in self.mro() if not isinstance(c, ClassInfo)]

    def dc_fields(self):
        """Fields of a dataclass: (name, default or None, is it an argument of the constructor)."""
        out = {}
        for c in reversed(self.cmro()):
            if not c.is_dataclass:
                continue
            for a in c.anns:
                d = c.attrs.get(a)
                init = True
                if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "field":
                    kw = {k.arg: k.value for k in d.keywords}
                    init = not (isinstance(kw.get("init"), ast.Constant) and kw["init"].value is False)
                    d = kw.get("default")
                out[a] = (a, d, init)
        return list(out.values())

    def lookup(self, name, after=None):
        """Find (owner, kind, item) of an attribute in the MRO.  `after`: start after that class."""
        ms = self.cmro()
        if after is not None:
            ms = ms[ms.index(after) + 1:] if after in ms else []
        for c in ms:
            if name in c.props:
                return c, "prop", c.props[name]
            if name in c.methods:
                return c, "method", c.methods[name]
            if name in c.attrs:
                return c, "attr", c.attrs[name]
        return None

    def method(self, name):
        r = self.lookup(name)
        return r[2] if r and r[1] == "method" else None

    def prop(self, name):
        r = self.lookup(name)
        return r[2] if r and r[1] == "prop" else None

    def is_subclass(self, other):
        if isinstance(other, str):
            return other in [x if isinstance(x, str) else x.qual for x in self.mro()]
        return other in self.mro()

    def __repr__(self):
        return f"<Class {self.name}>"


class ModuleInfo:
    def __init__(self, name, path, relpath, tree, src):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.src = src
        self.imports = {}  # local name -> dotted
        self.type_only = set()
        self.functions = {}
        self.classes = {}
        self.assigns = {}  # name -> value node (last)
        self.is_pkg = path.name == "__init__.py"

    def __repr__(self):
        return f"<Module {self.name}>"


def _is_type_checking(test):
    return (isinstance(test, ast.Name) and test.id == "TYPE_CHECKING") or (
        isinstance(test, ast.Attribute) and test.attr == "TYPE_CHECKING"
    )


class Program:
    def __init__(self, root=None):
        self.root = Path(root or REPO)
        self.modules = {}
        self.classes = {}  # qual -> ClassInfo
        self.functions = {}  # qual -> FuncInfo (module functions and methods and nested)
        self.func_of_node = {}
        self._load()

    # ------------------------------------------------------------ loading
    def _load(self):
        base = self.root / PKG
        if not base.is_dir():
            raise AnalysisBroken(f"{base} is missing")
        for p in sorted(base.rglob("*.py")):
            rel = p.relative_to(self.root)
            parts = list(rel.with_suffix("").parts)
            if parts[-1] == "__init__":
                parts = parts[:-1]
            name = ".".join(parts)
            src = p.read_text()
            tree = normalise(ast.parse(src, filename=str(p)))
            self.modules[name] = ModuleInfo(name, p, str(rel), tree, src)
        for m in self.modules.values():
            self._scan_imports(m, m.tree.body, m.imports, False)
            self._scan_defs(m)
        for m in self.modules.values():
            for c in m.classes.values():
                c.bases = [self._resolve_base(m, b) for b in c.base_nodes]
                c.bases = [b for b in c.bases if b is not None]
        self._registry()

    def helpers(self):
        """Names of private functions that one place uses: parts of that place rather than functions of their own."""
        h = self.__dict__.get("_helpers")
        if h is None:
            uses, defs = {}, {}
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and n.attr[:1] == "_":
                        uses[n.attr] = uses.get(n.attr, 0) + 1
                    elif isinstance(n, ast.Name) and n.id[:1] == "_":
                        uses[n.id] = uses.get(n.id, 0) + 1
                    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        defs[n.name] = defs.get(n.name, 0) + 1
            h = self._helpers = {n for n, k in defs.items() if k == 1 and uses.get(n) == 1 and n[:1] == "_" and n[:2] != "__"}
        return h

    def _scan_imports(self, m, body, out, type_only):
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.import_names(m, s, out)
                if type_only:
                    for a in s.names:
                        m.type_only.add((a.asname or a.name).split(".")[0])
            elif isinstance(s, ast.If):
                self._scan_imports(m, s.body, out, type_only or _is_type_checking(s.test))
                self._scan_imports(m, s.orelse, out, type_only)
            elif isinstance(s, ast.Try):
                self._scan_imports(m, s.body, out, type_only)
                for h in s.handlers:
                    self._scan_imports(m, h.body, out, type_only)

    def import_names(self, m, s, out):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            base = s.module or ""
            if s.level:
                parts = m.name.split(".")
                if not m.is_pkg:
                    parts = parts[:-1]
                if s.level > 1:
                    parts = parts[: -(s.level - 1)]
                base = ".".join(parts + ([s.module] if s.module else []))
            for a in s.names:
                out[a.asname or a.name] = f"{base}.{a.name}" if base else a.name

    def _add_func(self, f):
        self.functions[f.qual] = f
        self.func_of_node[f.node] = f
        for n in _direct_nested(f.node):
            g = FuncInfo(n, f.module, None, f)
            self._add_func(g)

    def _scan_defs(self, m):
        def walk(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = FuncInfo(s, m)
                    m.functions[s.name] = f
                    self._add_func(f)
                elif isinstance(s, ast.ClassDef):
                    self._scan_class(m, s)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.assigns[t.id] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    m.assigns[s.target.id] = s.value
                elif isinstance(s, ast.If):
                    walk(s.body)
                    walk(s.orelse)
                elif isinstance(s, ast.Try):
                    walk(s.body)
                    for h in s.handlers:
                        walk(h.body)
                    walk(s.orelse)
                    walk(s.finalbody)
                elif isinstance(s, ast.With):
                    walk(s.body)
        walk(m.tree.body)

    def _scan_class(self, m, node, outer=None):
        c = ClassInfo(node, m)
        if outer is None:
            m.classes[node.name] = c
        else:
            c.qual = f"{outer.qual}.{node.name}"
            outer.nested[node.name] = c
        self.classes[c.qual] = c
        for d in node.decorator_list:
            if isinstance(d, ast.Call):
                for kw in d.keywords:
                    if kw.arg == "frozen" and isinstance(kw.value, ast.Constant) and kw.value.value:
                        c.frozen = True
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(s, m, c)
                self._add_func(f)
                kind = None
                for d in f.decos:
                    last = d.split(".")[-1]
                    if d in ("property", "functools.cached_property", "cached_property"):
                        kind = ("get", False, "cached" in d)
                    elif last in ("parameter", "Parameter"):
                        kind = ("get", True, False)
                    elif last == "setter":
                        kind = ("set",)
                    elif last == "getter":
                        kind = ("getter",)
                    elif last == "deleter":
                        kind = ("del",)
                if kind is None:
                    c.methods[s.name] = f
                    c.props.pop(s.name, None)
                elif kind[0] == "get":
                    p = PropInfo(s.name, c, kind[1])
                    p.fget = f
                    p.cached = kind[2]
                    c.props[s.name] = p
                    c.methods.pop(s.name, None)
                else:
                    p = c.props.get(s.name)
                    if p is None:
                        p = c.props[s.name] = PropInfo(s.name, c, False)
                        # @Base.prop.setter idiom: inherit recording flag later
                        p.inherit = True
                    if kind[0] == "set":
                        p.fset = f
                        f.is_setter_of = p
                    elif kind[0] == "getter":
                        p.fget = f
                    else:
                        p.fdel = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
                        # x = property(getter, setter)
                        if isinstance(s.value, ast.Call) and _deco_name(s.value.func).split(".")[-1] in (
                            "property", "parameter", "Parameter",
                        ):
                            p = PropInfo(t.id, c, _deco_name(s.value.func).split(".")[-1] != "property")
                            for slot, a in zip(("fget", "fset", "fdel"), s.value.args):
                                if isinstance(a, ast.Name) and a.id in c.methods:
                                    setattr(p, slot, c.methods[a.id])
                            c.props[t.id] = p
                            del c.attrs[t.id]
            elif isinstance(s, ast.ClassDef):
                self._scan_class(m, s, outer=c)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.attrs[s.target.id] = s.value
                c.anns[s.target.id] = s.annotation

    def _resolve_base(self, m, b):
        if isinstance(b, ast.Subscript):
            b = b.value
        d = dotted(b)
        if d is None:
            return None
        return self.resolve_dotted(m, d, as_class=True)

    # ------------------------------------------------------------ name resolution
    def canonical(self, dotted_name, _depth=0):
        """Resolve a dotted name through re-exports to ('class'|'func'|'module'|'assign'|'ext', item)."""
        if _depth > 12:
            return "ext", dotted_name
        if dotted_name in self.modules:
            return "module", self.modules[dotted_name]
        parts = dotted_name.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                m = self.modules[mn]
                head, rest = parts[i], parts[i + 1:]
                if head in m.classes:
                    if not rest:
                        return "class", m.classes[head]
                    return "member", (m.classes[head], rest)
                if head in m.functions and not rest:
                    return "func", m.functions[head]
                if head in m.imports:
                    return self.canonical(".".join([m.imports[head]] + rest), _depth + 1)
                if head in m.assigns and not rest:
                    return "assign", (m, head)
                return "ext", dotted_name
        return "ext", dotted_name

    def resolve_dotted(self, m, d, as_class=False):
        head, _, rest = d.partition(".")
        if head in m.classes and not rest:
            return m.classes[head]
        if head in m.imports:
            full = m.imports[head] + ("." + rest if rest else "")
            k, it = self.canonical(full)
            if k == "class":
                return it
            return full
        return d

    def _registry(self):
        self.registry = {}  # (base ClassInfo) -> {name: ClassInfo}
        for c in self.classes.values():
            for d in c.node.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "register":
                    base = self.resolve_dotted(c.module, dotted(d.func.value) or "?")
                    nm = d.args[0].value if d.args and isinstance(d.args[0], ast.Constant) else None
                    for kw in d.keywords:
                        if kw.arg == "name" and isinstance(kw.value, ast.Constant):
                            nm = kw.value.value
                    c.registered = (base, nm)
                    if isinstance(base, ClassInfo):
                        self.registry.setdefault(base, {})[nm] = c

    # ------------------------------------------------------------ queries
    def cls(self, name):
        """Class by simple name (unique in this code base)."""
        hits = [c for c in self.classes.values() if c.name == name]
        if len(hits) != 1:
            raise AnalysisBroken(f"class {name}: {len(hits)} definitions found")
        return hits[0]

    def has_cls(self, name):
        return len([c for c in self.classes.values() if c.name == name]) == 1

    def func(self, cname, fname):
        c = self.cls(cname)
        f = c.method(fname)
        if f is None:
            raise AnalysisBroken(f"method {cname}.{fname} not found")
        return f

    def mod_func(self, modname, fname):
        m = self.modules.get(modname)
        if m is not None and fname in m.functions:
            return m.functions[fname]
        if m is not None and fname in m.imports:
            k, it = self.canonical(m.imports[fname])
            if k == "func":
                return it
        raise AnalysisBroken(f"function {modname}.{fname} not found")

    def subclasses(self, c, strict=False):
        return [k for k in self.classes.values() if k.is_subclass(c) and (not strict or k is not c)]

    def all_funcs(self):
        return list(self.functions.values())

    def enclosing(self, module, node):
        """FuncInfo whose body contains node (innermost)."""
        best = None
        for f in self.functions.values():
            if f.module is module and f.node.lineno <= node.lineno <= (f.node.end_lineno or 0):
                if best is None or f.node.lineno >= best.node.lineno:
                    best = f
        return best


def _direct_nested(fnode):
    out = []

    def rec(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(ch)
            elif isinstance(ch, (ast.ClassDef, ast.Lambda)):
                if isinstance(ch, ast.Lambda):
                    rec(ch)
            else:
                rec(ch)
    for s in (fnode.body if isinstance(fnode.body, list) else [fnode.body]):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.append(s)
        elif not isinstance(s, ast.ClassDef):
            rec(s)
    return out


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else f"{b}.{n.attr}"
    return None


def own_nodes(fnode):
    """All nodes of a function body, not descending into nested function definitions/classes
    (lambdas and comprehensions are included)."""
    stack = list(fnode.body) if isinstance(fnode.body, list) else [fnode.body]
    while stack:
        n = stack.pop()
        yield n
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            stack.append(ch)
