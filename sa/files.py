"""Recognition of file-system operations in resolved calls."""
from __future__ import annotations

import ast

from .interp import Hooks
from .values import V, all_labels

WRITE_METHODS = {"to_netcdf": 0, "to_csv": 0, "to_file": 0, "to_zarr": 0, "to_parquet": 0, "to_json": 0, "SetFileName": 0,
                 "write_text": "self", "write_bytes": "self", "touch": "self", "to_excel": 0, "to_pickle": 0,
                 "savefig": 0, "screenshot": 0, "to_hdf": 0, "to_raster": None}
WRITE_FUNCS = {"numpy.savez": 0, "numpy.savez_compressed": 0, "numpy.save": 0, "numpy.savetxt": 0,
               "matplotlib.pyplot.savefig": 0, "matplotlib.pyplot.imsave": 0}
KWPATH = ("path", "filename", "fname", "path_or_buf", "file", "fp")
SINK_NAMES = set(WRITE_METHODS) | {"unlink", "rmtree", "rmdir", "open", "savez", "savez_compressed", "save", "savetxt", "move",
                                   "copy2", "copyfile", "copytree", "remove", "rename", "replace", "removedirs",
                                   "imsave", "truncate"}


STRONG = {"unlink", "rmtree", "rmdir", "to_netcdf", "to_csv", "to_file", "to_zarr", "SetFileName", "write_text", "write_bytes",
          "savefig", "savez", "savez_compressed", "savetxt", "copyfile", "copytree", "move", "imsave", "to_parquet", "to_json",
          "to_pickle", "to_hdf", "to_excel", "copy2"}


def has_file_sink(f):
    """Does the body contain a call that may write or delete a file?"""
    from .model import own_nodes
    for n in own_nodes(f.node):
        if not isinstance(n, ast.Call):
            continue
        fn = n.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        if name in STRONG:
            return True
        if name == "open":
            vals = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            vals += [k.value.value for k in n.keywords if k.arg == "mode" and isinstance(k.value, ast.Constant)]
            if any(set(v) & set("wax") and len(v) <= 3 for v in vals):
                return True
            if any(k.arg == "mode" and not isinstance(k.value, ast.Constant) for k in n.keywords):
                return True
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            if fn.value.id == "os" and name in ("remove", "unlink", "replace", "rename", "rmdir"):
                return True
            if fn.value.id == "shutil" or (fn.value.id in ("np", "numpy") and name == "save"):
                return True
            if name == "save" and n.args and fn.value.id not in ("self", "super"):
                return True
        if name in ("replace", "rename") and len(n.args) == 1 and not n.keywords:
            return True
    return False


def path_key(v):
    """Normal form of the identity of a path value (str(p), Path(p), p.resolve() are p)."""
    if v is None:
        return None
    if v.k == "const":
        return ("c", str(v.c))
    s = v.sym
    while isinstance(s, tuple) and s and s[0] in ("str", "path", "pathnorm") and len(s) >= 2:
        s = s[1]
    if isinstance(s, str):
        return ("c", s)
    return s


def mode_of(pos, kw, idx):
    m = kw.get("mode", pos[idx] if len(pos) > idx else None)
    if m is None:
        return "r"
    if m.k == "const" and isinstance(m.c, str):
        return m.c
    return "?"


class FileHooks(Hooks):
    """Turns resolved calls into file_op(kind, path) with kind in
    write, delete, move (path = destination, extra = source), replace."""

    def file_op(self, I, st, node, kind, path, extra=None):
        pass

    def classify(self, I, st, node, fv, pos, kw):
        """-> list of (kind, pathV, extra)"""
        out = []

        def argp(i):
            if isinstance(i, int) and len(pos) > i:
                return pos[i]
            for k in KWPATH:
                if k in kw:
                    return kw[k]
            return None
        name = None
        recv = None
        if fv.k == "ext":
            name = fv.c
            if name.startswith("pathlib.Path.") and pos:
                recv = pos[0]
                pos = pos[1:]
                name = name.split(".")[-1]
                meth = name
                name = None
            else:
                meth = None
        elif fv.k == "top" and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and fv.items and isinstance(fv.items[0], V):
            recv = fv.items[0]
            meth = node.func.attr
        else:
            return out
        if name is not None:
            last = name.split(".")[-1]
            if name in WRITE_FUNCS:
                out.append(("write", argp(WRITE_FUNCS[name]), None))
            elif name in ("open", "io.open") or (last == "open" and name.split(".")[0] in ("rasterio", "gzip", "bz2", "lzma", "codecs")):
                if any(c in mode_of(pos, kw, 1) for c in "wax+?"):
                    out.append(("write", argp(0) or kw.get("fp"), None))
            elif name in ("shutil.rmtree", "os.remove", "os.unlink", "os.rmdir", "os.removedirs"):
                out.append(("delete", argp(0), None))
            elif name in ("shutil.move", "os.replace", "os.rename", "os.renames"):
                d = pos[1] if len(pos) > 1 else kw.get("dst")
                out.append(("move", d, pos[0] if pos else kw.get("src")))
            elif name in ("shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.copytree"):
                d = pos[1] if len(pos) > 1 else kw.get("dst")
                out.append(("write", d, pos[0] if pos else kw.get("src")))
            return out
        if meth in ("unlink", "rmdir"):
            out.append(("delete", recv, None))
        elif meth == "open" and (I.is_pathish(recv) or recv.k in ("top", "typ", "union")):
            # path.open(mode) - but not file-like datasets (memfile.open(**meta))
            if any(c in mode_of(pos, kw, 0) for c in "wax+"):
                out.append(("write", recv, None))
        elif meth in ("rename", "replace") and len(pos) == 1 and not kw and I.is_pathish(recv):
            out.append(("move", pos[0], recv))
        elif meth in WRITE_METHODS:
            w = WRITE_METHODS[meth]
            if w == "self":
                if I.is_pathish(recv) or recv.k == "top":
                    out.append(("write", recv, None))
            elif w is not None:
                a = argp(w)
                if a is not None and not (a.k == "const" and a.c is None):
                    out.append(("write", a, None))
        elif meth == "save" and recv.k in ("top", "typ"):
            a = argp(0)
            if a is not None and (I.is_pathish(a) or (a.k == "typ" and a.c == "str")):
                out.append(("write", a, None))
        return out

    def on_call(self, I, st, node, fv, pos, kw, star):
        for kind, p, extra in self.classify(I, st, node, fv, pos, kw):
            if p is not None:
                self.file_op(I, st, node, kind, p, extra)
        return None
