"""Abstract client programs: small functions that use the public API of the analysed package.
They are never executed; the interpreter walks them together with the code they call."""
import ast
from pathlib import Path

from .model import FuncInfo, ModuleInfo


def client(prog, src, name="client"):
    tree = ast.parse(src)
    m = ModuleInfo("sa_client", Path("client.py"), "client.py", tree, src)
    prog._scan_imports(m, tree.body, m.imports, False)
    f = None
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            g = FuncInfo(s, m)
            m.functions[s.name] = g
            prog.func_of_node[s] = g
            if s.name == name:
                f = g
    return f
