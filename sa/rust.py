"""A small reader of the native sources: functions with parameters and result types, structures filled from Python
objects, and the attributes and methods of Python objects the native side asks for."""
from __future__ import annotations

import re
from pathlib import Path


def strip(src):
    """Comments and string contents blanked (positions kept)."""
    out = []
    i, n = 0, len(src)
    while i < n:
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            out.append(" " * (j - i))
            i = j
        elif src.startswith("/*", i):
            j = src.find("*/", i)
            j = n if j < 0 else j + 2
            out.append("".join(c if c == "\n" else " " for c in src[i:j]))
            i = j
        else:
            out.append(src[i])
            i += 1
    return "".join(out)


def balanced(s, i):
    """Index just after the bracket that closes the one at i."""
    pair = {"(": ")", "{": "}", "[": "]", "<": ">"}
    o, c, d = s[i], pair[s[i]], 0
    while i < len(s):
        if s[i] == o:
            d += 1
        elif s[i] == c and not (c == ">" and s[i - 1] in "-="):
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return len(s)


def split(s):
    """Top-level comma separated parts."""
    out, d, cur = [], 0, ""
    for k, ch in enumerate(s):
        if ch in "([{<":
            d += 1
        elif ch in ")]}" or (ch == ">" and s[k - 1] not in "-="):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Fn:
    def __init__(self, name, params, ret, body, path, line, module, pyfunction, sig=None):
        self.name, self.params, self.ret, self.body = name, params, ret, body
        self.path, self.line, self.module, self.pyfunction, self.sig = path, line, module, pyfunction, sig

    @property
    def visible(self):
        """Parameters a Python caller supplies."""
        return [(n, t) for n, t in self.params if not re.match(r"(&?\s*)?Python\b", t)]

    @property
    def optional(self):
        """Parameters with a default in #[pyo3(signature = ...)] or of optional type at the end."""
        out = set()
        if self.sig:
            for p in split(self.sig):
                if "=" in p:
                    out.add(p.split("=")[0].strip())
        return out

    def arity(self):
        """Number of values returned: 1, or the size of a tuple; None when it cannot be told."""
        r = (self.ret or "").strip()
        m = re.match(r"(?:PyResult|Result)\s*<(.*)>$", r, re.S)
        if m:
            r = split(m.group(1))[0]
        r = r.strip()
        if r.startswith("("):
            return len(split(r[1:balanced(r, 0) - 1]))
        return 1 if r else 0


class Native:
    def __init__(self, root):
        self.root = Path(root)
        self.files = sorted((self.root / "crates").rglob("*.rs")) if (self.root / "crates").is_dir() else []
        self.py, self.core, self.structs, self.view_structs = {}, {}, {}, {}
        self.exports = {}
        for p in self.files:
            raw = p.read_text()
            self.read(p, raw, strip(raw))

    def read(self, p, raw, s):
        rel = str(p.relative_to(self.root))
        parts = p.relative_to(self.root).parts
        module = p.stem if p.stem != "mod" else p.parent.name
        bindings = any("-py" in x for x in parts)
        for m in re.finditer(r"\bpub(?:\([a-z]+\))?\s+fn\s+(\w+)|\bfn\s+(\w+)", s):
            name = m.group(1) or m.group(2)
            i = m.end()
            while i < len(s) and s[i].isspace():
                i += 1
            if i < len(s) and s[i] == "<":
                i = balanced(s, i)
                while i < len(s) and s[i].isspace():
                    i += 1
            if i >= len(s) or s[i] != "(":
                continue
            j = balanced(s, i)
            params = []
            for q in split(s[i + 1:j - 1]):
                if ":" in q:
                    n, t = q.split(":", 1)
                    params.append((re.sub(r"^(mut|ref)\s+", "", re.sub(r"#\[.*?\]", "", n).strip()).strip(), t.strip()))
            b = s.find("{", j)
            if b < 0:
                continue
            ret = s[j:b].strip()
            ret = re.split(r"\bwhere\b", ret)[0].strip()
            ret = ret[2:].strip() if ret.startswith("->") else ""
            e = balanced(s, b)
            head = s[max(0, m.start() - 400):m.start()]
            k = max(head.rfind("}"), head.rfind(";"))
            head = head[k + 1:]
            is_py = "#[pyfunction" in head
            sig = None
            g = re.search(r"signature\s*=\s*\((.*)\)\s*\)\s*\]", head, re.S)
            if g:
                sig = g.group(1)
            f = Fn(name, params, ret, s[b:e], rel, s.count("\n", 0, m.start()) + 1, module, is_py, sig)
            f.raw = raw[b:e]
            if bindings and is_py:
                self.py.setdefault(module, {})[name] = f
            elif not bindings:
                self.core.setdefault((module, name), f)
        for m in re.finditer(r"((?:#\[[^\]]*\]\s*)*)\bpub\s+struct\s+(\w+)\s*(?:<[^{]*>)?\s*\{", s):
            b = m.end() - 1
            e = balanced(s, b)
            fields = []
            for q in split(s[b + 1:e - 1]):
                q = re.sub(r"#\[[^\]]*\]", "", q)
                g = re.match(r"\s*(?:pub(?:\([a-z]+\))?\s+)?(\w+)\s*:\s*(.*)", q, re.S)
                if g:
                    fields.append((g.group(1), g.group(2).strip()))
            line = s.count("\n", 0, m.start(2)) + 1
            (self.structs if "FromPyObject" in m.group(1) else self.view_structs).setdefault((module, m.group(2)), (fields, rel, line))
        # modules offered to Python: mod x { #[pymodule_export] use crate::y::{...} }
        for m in re.finditer(r"\bmod\s+(\w+)\s*\{", s):
            b = m.end() - 1
            body = s[b:balanced(s, b)]
            if "pymodule_export" in body and "#[pymodule]" not in body:
                for u in re.finditer(r"use\s+([\w:]+)::(?:\{([^}]*)\}|(\w+))\s*;", body):
                    for n in (split(u.group(2)) if u.group(2) else [u.group(3)]):
                        n = n.strip()
                        if n:
                            self.exports.setdefault(m.group(1), {})[n.split(" as ")[-1].strip()] = n.split(" as ")[0].strip()
