"""Models of builtins, numpy, dask, h5py, ... used by the abstract interpreter."""
import ast
import pathlib
import builtins

from values import (Const, StrP, Unk, Ref, FuncV, Bound, ClassV, ModV, Ext, Meth, Partial, ORDER, order_of, picked,
                    NONE, TRUE, FALSE, TOP, E, Obj, tags_of)

NDK = ("array", "nd")


def fs(*v):
    return frozenset(v)


def root_kind(path):
    """Kind of a symbolic input location."""
    if path[0] == "signal":
        if len(path) == 1:
            return "dict"
        if path[1] == "data":
            return "array"
        if path[1] == "axes":
            return {2: "list", 3: "dict"}.get(len(path), "array" if path[-1] == "axis" else "any")
        if path[1] in ("metadata", "original_metadata", "attributes") and len(path) == 2:
            return "dict"
    if path[0] == "dictionary":
        return root_kind(("signal",) + path[1:]) if len(path) > 1 else "dict"
    return "any"


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if out and isinstance(out[-1], str):
                out[-1] += p
            elif p:
                out.append(p)
        else:
            out.append(p)
    if not out:
        return Const("")
    if len(out) == 1 and isinstance(out[0], str):
        return Const(out[0])
    if len(out) == 1:
        return Unk("str", out[0][1])
    if len(out) > 8:
        t = frozenset()
        for p in out:
            if not isinstance(p, str):
                t |= p[1]
        return Unk("str", t)
    return StrP(tuple(out))


def parts_of(v):
    if isinstance(v, Const) and isinstance(v.v, str):
        return (v.v,)
    if isinstance(v, StrP):
        return v.parts
    if isinstance(v, Const):
        return (str(v.v),)
    return (("?", tags_of((v,))),)


def kind_of(v):
    if isinstance(v, Unk):
        return v.kind
    if isinstance(v, Ref):
        k = v.obj.kind
        return "nd" if k in NDK else k
    if isinstance(v, Const):
        return v.k[0]
    if isinstance(v, StrP):
        return "str"
    return ""


def res_kind(vals):
    ks = {kind_of(v) for v in vals}
    for k in ("dask", "memmap", "nd"):
        if k in ks:
            return "nd" if k == "memmap" else k
    return ""


# --------------------------------------------------------------------- binops
def pathop(I, n, what, vals):
    """An operation a pathlib.Path does not have is applied to one."""
    if I.track_paths:
        bad = frozenset(v for v in vals if isinstance(v, Unk) and v.kind == "path")
        if bad:
            I.event("pathop", n, what, [bad])


def textop(I, n, what, vals):
    """The same for an operation a str does not have."""
    if I.track_paths:
        bad = frozenset(v for v in vals if isinstance(v, Unk) and v.kind == "str" and "p:filename" in v.tags)
        if bad:
            I.event("textop", n, what, [bad])


STRING_ONLY = ("re.", "glob.", "fnmatch.fnmatchcase", "fnmatch.filter", "shlex.", "textwrap.", "difflib.")


def binop(I, op, a, b, n):
    out = set()
    if I.track_paths and isinstance(op, ast.Div):
        if not any(kind_of(v) not in ("str",) and not isinstance(v, Const) for v in a | b):
            textop(I, n, "the operator /", a | b)
    elif I.track_paths:
        pathop(I, n, "the operator " + {"Add": "+", "Mod": "%", "Mult": "*"}.get(type(op).__name__, type(op).__name__), a if isinstance(op, ast.Mod) else a | b)
    if len(a) * len(b) <= 300:
        for x in a:
            for y in b:
                out.add(binop1(I, op, x, y, n))
    else:
        out.add(Unk(res_kind(a | b), tags_of(a | b)))
    out.discard(None)
    return frozenset(out) or fs(TOP)


def binop1(I, op, x, y, n):
    if isinstance(x, Const) and isinstance(y, Const):
        try:
            a, b = x.v, y.v
            if isinstance(op, ast.Add):
                if isinstance(a, (str, bytes)) and len(a) + len(b) > 4000:
                    return Unk(x.k[0])
                return Const(a + b)
            if isinstance(op, ast.Sub):
                return Const(a - b)
            if isinstance(op, ast.Mult):
                if isinstance(a, (str, bytes, tuple)) or isinstance(b, (str, bytes, tuple)):
                    s, k = (a, b) if isinstance(b, int) else (b, a)
                    if len(s) * k > 5000:
                        return Unk(type(s).__name__)
                return Const(a * b)
            if isinstance(op, ast.FloorDiv):
                return Const(a // b)
            if isinstance(op, ast.Div):
                return Const(a / b)
            if isinstance(op, ast.Mod):
                if isinstance(a, str):
                    return Const(a % b)
                return Const(a % b)
            if isinstance(op, ast.Pow) and abs(b) < 100:
                return Const(a ** b)
            if isinstance(op, ast.LShift) and b < 100:
                return Const(a << b)
            if isinstance(op, ast.RShift):
                return Const(a >> b)
            if isinstance(op, ast.BitAnd):
                return Const(a & b)
            if isinstance(op, ast.BitOr):
                return Const(a | b)
        except Exception:
            return TOP
        return TOP
    # string concatenation / formatting
    xs = isinstance(x, StrP) or (isinstance(x, Const) and isinstance(x.v, str))
    ys = isinstance(y, StrP) or (isinstance(y, Const) and isinstance(y.v, str))
    if isinstance(op, ast.Add):
        if (xs or ys) or (isinstance(x, Unk) and x.kind == "str") or (isinstance(y, Unk) and y.kind == "str"):
            if not (kind_of(x) in ("nd", "dask", "list") or kind_of(y) in ("nd", "dask", "list")):
                if (isinstance(x, Const) and not xs) or (isinstance(y, Const) and not ys):
                    return Unk("", tags_of((x, y)))
                return mkstr(parts_of(x) + parts_of(y))
        if isinstance(x, Ref) and x.obj.kind in ("list", "tuple") or isinstance(y, Ref) and y.obj.kind in ("list", "tuple"):
            if any(kind_of(v) in ("nd", "dask") for v in (x, y)):
                return Unk(res_kind((x, y)))
            kind = x.obj.kind if isinstance(x, Ref) and x.obj.kind in ("list", "tuple") else y.obj.kind
            o = I.alloc(kind, n)
            if kind == "tuple":
                o = I.alloc("list", n)
            for v in (x, y):
                I.add_elem(o, I.iter_elems(fs(v)))
            if not order_of((x, y)) <= o.tags:
                o.tags |= order_of((x, y))
                I.changed = True
            return Ref(o)
    if isinstance(op, ast.Mod) and xs:
        fmt = x
        vals = []
        if isinstance(y, Ref) and y.obj.kind == "tuple" and y.obj.fields:
            vals = [y.obj.fields[i] for i in sorted(y.obj.fields, key=str)]
        else:
            vals = [fs(y)]
        if isinstance(fmt, Const):
            return fmt_percent(fmt.v, vals)
        return Unk("str", tags_of((x, y)))
    if isinstance(op, ast.Mod) and isinstance(x, Const) and isinstance(x.v, bytes):
        return Unk("bytes")
    if isinstance(op, ast.Mult) and isinstance(x, Ref) and x.obj.kind in ("list", "tuple"):
        o = I.alloc("list", n)
        I.add_elem(o, I.iter_elems(fs(x)))
        return Ref(o)
    if isinstance(op, ast.Mult) and xs:
        return Unk("str", tags_of((x, y)))
    if isinstance(op, ast.BitOr) and isinstance(x, Ref) and x.obj.kind == "dict":
        o = I.alloc("dict", n)
        I.add_proto(o, x.obj)
        if isinstance(y, Ref):
            I.add_proto(o, y.obj)
        return Ref(o)
    if isinstance(op, ast.Div) and (kind_of(x) == "path" or kind_of(y) == "path"):
        return Unk("path", tags_of((x, y)), None)
    k = res_kind((x, y))
    if not k and {kind_of(x), kind_of(y)} <= {"int", "float", "bool"}:
        k = "int" if kind_of(x) == kind_of(y) == "int" and not isinstance(op, ast.Div) else "float"
    return Unk(k, tags_of((x, y)))


def fmt_percent(fmt, vals):
    import re
    parts, i, last = [], 0, 0
    for m in re.finditer(r"%(\([^)]*\))?[-#0 +]*[\d*]*(?:\.\d+)?[a-zA-Z%]", fmt):
        parts.append(fmt[last:m.start()])
        last = m.end()
        if m.group(0) == "%%":
            parts.append("%")
            continue
        v = vals[i] if i < len(vals) else fs(TOP)
        i += 1
        if len(v) == 1:
            (c,) = v
            if isinstance(c, Const) and m.group(0) in ("%s", "%d", "%i"):
                parts.append(str(c.v))
                continue
            if isinstance(c, StrP) and m.group(0) == "%s":
                parts.extend(c.parts)
                continue
        parts.append(("?", tags_of(v)))
    parts.append(fmt[last:])
    return mkstr(parts)


# ------------------------------------------------------------------ subscript
def subscript(I, v, keys, slc, n):
    if isinstance(v, Ext) and source_tag(v.name + "."):
        return fs(Unk("str", fs(source_tag(v.name + "."))))
    isslice = isinstance(slc, ast.Slice) or any(isinstance(k, Unk) and k.kind == "slice" for k in keys)
    if isinstance(v, Ref):
        o = v.obj
        if o.kind == "handle":
            if o.extra and o.extra[0] in ("h5py.File", "zarr.open"):
                return fs(Unk("h5", o.tags, ("h", o)))
            return fs(Unk("", frozenset(), ("h", o)))
        if o.kind in NDK:
            if o.root is not None or True:
                return fs(v)
        if isslice and o.kind in ("list", "tuple", "any", "kwargs"):
            c = I.alloc("list", n, extra="slice")
            I.add_proto(c, o)
            return fs(Ref(c))
        if o.kind == "inst":
            c, a = o.cls.lookup("__getitem__")
            if a:
                out = set()
                for f in I.bind_method(a, v, o.cls):
                    out |= I.call_value(f, ([keys], None, {}, []), n)
                return out
            return I.load_key(o, None) if any("dict" in b or "Dict" in b or "list" in b for b in o.cls.ext_bases()) else fs(TOP)
        if o.kind == "dtype":
            return fs(Unk("dtype"))
        out = set()
        for k in keys:
            if isinstance(k, Const):
                if o.kind == "list":
                    out |= I.load_key(o, k.v if o.root is not None else None)
                elif o.kind == "tuple" and isinstance(k.v, int) and k.v < 0 and o.fields and not o.elem:
                    out |= I.load_key(o, len(o.fields) + k.v)
                else:
                    out |= I.load_key(o, k.v)
            else:
                out |= I.load_key(o, None, dynamic=True)
        if not out:
            out = {Unk("", o.tags)}
        if order_of((v,)) and all(isinstance(k, Unk) or isinstance(k, Const) and type(k.v) is int for k in keys):
            out = picked((v,), out)
        return out
    if isinstance(v, Const):
        if isinstance(v.v, (str, bytes, tuple)):
            if isslice and isinstance(slc, ast.Slice):
                def cst(e):
                    if e is None:
                        return None
                    if isinstance(e, ast.Constant):
                        return e.value
                    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
                        return -e.operand.value
                    raise ValueError
                try:
                    return fs(Const(v.v[slice(cst(slc.lower), cst(slc.upper), cst(slc.step))]))
                except ValueError:
                    return fs(Unk(v.k[0]))
            out = set()
            for k in keys:
                if isinstance(k, Const):
                    try:
                        out.add(Const(v.v[k.v]))
                        continue
                    except Exception:
                        pass
                out.add(Unk(v.k[0] if isinstance(v.v, str) else "int"))
            return out
        return fs(TOP)
    if isinstance(v, StrP):
        if isinstance(slc, ast.Slice) and slc.lower is not None and slc.upper is None and isinstance(slc.lower, ast.Constant) \
                and isinstance(slc.lower.value, int) and isinstance(v.parts[0], str) and len(v.parts[0]) >= slc.lower.value >= 0:
            return fs(mkstr((v.parts[0][slc.lower.value:],) + v.parts[1:]))
        return fs(Unk("str", v.tags))
    if isinstance(v, Unk):
        if v.kind == "h5":
            if isslice or any(isinstance(k, Const) and k.v in ("...", ()) for k in keys) or \
                    any(isinstance(k, Ref) and k.obj.kind == "tuple" for k in keys) or any(isinstance(k, Const) and isinstance(k.v, int) and not isinstance(k.v, bool) for k in keys):
                return fs(Unk("nd", v.tags | LOADED))
            return fs(Unk("h5", v.tags, v.x))
        if v.kind in ("nd", "dask", "memmap", "bytes", "str", "path", "dtype"):
            tg = v.tags - {"unsorted"}
            if v.kind in ("bytes",) and not isslice:
                return fs(Unk("int", tg))
            return fs(Unk(v.kind, tg))
        if not isslice and order_of((v,)):
            return picked((v,), fs(Unk("", v.tags - ORDER)))
        return fs(Unk("", v.tags))
    return fs(TOP)


def iter_one(I, v, node):
    if I.track_paths and node is not None and isinstance(v, Unk) and v.kind == "path":
        pathop(I, node, "iteration", fs(v))
    if isinstance(v, Ref):
        o = v.obj
        if o.kind in NDK:
            return fs(v)
        if o.kind in ("dict", "kwargs") or (o.kind == "any" and False):
            out = {Const(k) for k in o.fields if isinstance(k, (str, int, float, tuple, bytes))}
            if o.elem or o.protos or o.root is not None or not out:
                out.add(Unk("", o.tags))
            return frozenset(out)
        if o.kind == "handle":
            return fs(Unk("", o.tags))
        if o.kind == "inst":
            c, a = o.cls.lookup("__iter__")
            if a:
                out = set()
                for f in I.bind_method(a, v, o.cls):
                    out |= I.iter_elems(I.call_value(f, ([], None, {}, []), node))
                return out
            return fs(TOP)
        out = I.load_key(o, None)
        return out if out else fs(TOP)
    if isinstance(v, Const):
        if isinstance(v.v, str):
            return frozenset(Const(c) for c in v.v) if len(v.v) < 30 else fs(Unk("str"))
        if isinstance(v.v, tuple):
            return frozenset(Const(c) for c in v.v)
        if isinstance(v.v, bytes):
            return fs(Unk("int"))
        return fs(TOP)
    if isinstance(v, (StrP,)):
        return fs(Unk("str", v.tags))
    if isinstance(v, Unk):
        if v.kind in ("str", "nd", "dask", "path"):
            return fs(Unk(v.kind, v.tags - {"unsorted", "set-order"}))
        if v.kind == "range":
            return fs(Unk("int"))
        if v.kind == "bytes":
            return fs(Unk("int"))
        if v.kind == "h5":
            return fs(Unk("str", v.tags))
        return fs(Unk("", v.tags - {"unsorted", "set-order"}))
    if isinstance(v, Ext):
        return fs(TOP)
    return fs(TOP)


# ----------------------------------------------------------------- attributes
LOADED = frozenset(("loaded",))      # brought into memory from a file dataset or a lazy array
ALIAS_ATTRS = {"T", "real", "imag", "flat", "base", "data"}


HANDLE_METHODS = {"close", "read", "readline", "readlines", "readinto", "seek", "tell", "write", "writelines", "flush", "truncate", "fileno",
                  "open", "extract", "extractall", "extractfile", "namelist", "infolist", "getnames", "getmembers", "create_dataset",
                  "create_group", "require_group", "require_dataset", "visit", "visititems", "keys", "values", "items"}


def ext_attr(I, v, attr, node):
    return fs(Ext(v.name + "." + attr))


def obj_attr(I, v, attr, node):
    o = v.obj
    if o.kind == "handle":
        if attr == "file":
            return fs(v)
        if attr in ("name", "filename"):
            return fs(Unk("str", o.tags))
        if attr in HANDLE_METHODS:
            return fs(Meth(v, attr))
        return fs(Unk("", o.tags, ("h", o)), Meth(v, attr))
    if o.kind in NDK:
        if attr in ALIAS_ATTRS:
            return fs(v)
        if attr == "dtype":
            return fs(Unk("dtype", tags_of((v,))))
        if attr == "shape":
            return fs(Unk("shape", tags_of((v,))))
        if attr == "flags":
            return fs(Unk("flags", tags_of((v,)), ("of", o)))
        return fs(Unk("", tags_of((v,))))
    if o.kind == "dtype":
        if attr == "itemsize":
            return fs(Unk("int", frozenset(), ("itemsize", o)))
        return fs(Unk("", frozenset(), ("dtattr", attr, o)))
    if o.root is not None and o.kind == "any" and attr in ("dtype", "shape", "ndim", "nbytes", "itemsize", "chunks"):
        o.extra = "arraylike"
    if o.root is not None or attr in o.fields or o.kind in ("box",):
        r = I.load_key(o, attr)
        return r or fs(TOP)
    if o.kind in ("dict", "list", "set", "tuple", "kwargs", "generator"):
        if o.protos:
            r = I.load_key(o, attr)
            return r | fs(Meth(v, attr)) if r else fs(Meth(v, attr))
        return fs(Meth(v, attr))
    r = I.load_key(o, attr)
    return r or fs(TOP)


def unk_attr(I, v, attr, node):
    if isinstance(v, Unk):
        if v.kind in ("nd", "dask", "memmap"):
            if attr in ALIAS_ATTRS:
                return fs(v)
            if attr == "dtype":
                return fs(Unk("dtype", v.tags))
            return fs(Unk("", v.tags))
        if v.kind == "h5":
            if attr == "file" and v.x and v.x[0] == "h":
                return fs(Ref(v.x[1]))
            return fs(Unk("", v.tags, v.x))
        if v.kind == "str" and attr in PATH_ONLY:
            textop(I, node, f".{attr}", fs(v))
        if v.kind == "path":
            if attr not in PATH_NAMES:
                pathop(I, node, f".{attr}", fs(v))
            if attr in ("parent",):
                return fs(Unk("path", v.tags))
            return fs(Unk("str", v.tags))
        if attr in ("read", "readline", "seek", "tell", "write", "close"):
            return fs(Meth(v, attr))
        return fs(Unk("", v.tags, v.x if v.x and v.x[0] == "h" else None))
    if isinstance(v, (Const, StrP)):
        return fs(Meth(v, attr))
    return fs(TOP)


# ------------------------------------------------------------------- handles
OPENERS = {
    "builtins.open": "file", "io.open": "file", "gzip.open": "file", "bz2.open": "file", "lzma.open": "file",
    "bz2.BZ2File": "file", "gzip.GzipFile": "file", "codecs.open": "file",
    "zipfile.ZipFile": "zip", "tarfile.open": "tar",
    "h5py.File": "h5py.File", "PIL.Image.open": "image",
    "tifffile.TiffFile": "tiff", "tifffile.TiffWriter": "tiffw",
    "netCDF4.Dataset": "netcdf", "netCDF4.netcdf_file": "netcdf",
    "zarr.storage.ZipStore": "zipstore", "zarr.ZipStore": "zipstore",
    "os.fdopen": "file", "os.open": "fd", "tempfile.TemporaryFile": "file", "tempfile.NamedTemporaryFile": "file",
    "imageio.get_reader": "image", "imageio.v3.imopen": "image",
    "h5pyd.File": "h5py.File", "pyUSID.hdf_utils.open": "h5py.File",
    "numpy.lib.npyio.NpzFile": "npz", "tempfile.TemporaryDirectory": "tmpdir",
}
MODE_ARG = {"path.open": 1, "builtins.open": 1, "io.open": 1, "gzip.open": 1, "bz2.open": 1, "lzma.open": 1, "codecs.open": 1,
            "zipfile.ZipFile": 1, "tarfile.open": 1, "h5py.File": 1, "netCDF4.Dataset": 1, "zarr.storage.ZipStore": 1,
            "zarr.ZipStore": 1, "gzip.GzipFile": 1, "bz2.BZ2File": 1, "PIL.Image.open": 1}
DEFAULT_MODE = {"h5py.File": "r", "tifffile.TiffWriter": "w", "zarr.storage.ZipStore": "a", "zarr.ZipStore": "a",
                "tempfile.TemporaryFile": "w", "tempfile.NamedTemporaryFile": "w", "mmap.mmap": "r"}
# external calls that create or overwrite a file: name -> index of the destination argument
FILE_WRITERS = {
    "numpy.save": 0, "numpy.savez": 0, "numpy.savez_compressed": 0, "numpy.savetxt": 0,
    "imageio.v3.imwrite": 0, "imageio.imwrite": 0, "imageio.imsave": 0, "tifffile.imwrite": 0, "tifffile.imsave": 0,
    "mrcz.writeMRC": 1, "mrcz.asyncWriteMRC": 1, "os.remove": 0, "os.unlink": 0, "os.rename": 1, "os.replace": 1, "os.truncate": 0,
    "os.makedirs": 0, "os.mkdir": 0, "os.rmdir": 0, "os.removedirs": 0, "os.symlink": 1, "os.link": 1, "os.chmod": 0, "os.utime": 0,
    "shutil.rmtree": 0, "shutil.copy": 1, "shutil.copy2": 1, "shutil.copyfile": 1, "shutil.move": 1,
    "shutil.copytree": 1, "shutil.copymode": 1, "shutil.copyfileobj": 1, "matplotlib.pyplot.savefig": 0, "dask.array.to_npy_stack": 0,
    "dask.array.to_hdf5": 0, "dask.array.to_zarr": 1, "zarr.save": 0, "pyUSID.hdf_utils.write": 0,
    "tempfile.mkstemp": 9, "tempfile.mkdtemp": 9,
}
WRITE_METHODS = {"write_text", "write_bytes", "unlink", "rename", "replace", "rmdir", "mkdir", "touch", "symlink_to",
                 "hardlink_to", "chmod", "tofile", "savefig", "dump"}


def new_handle(I, n, what, pos, kw, name):
    midx = MODE_ARG.get(name)
    modes = kw.get("mode") or (pos[midx] if midx is not None and midx < len(pos) else None)
    if name == "os.open":
        flags = ast.unparse(n.args[1]) if isinstance(n, ast.Call) and len(n.args) > 1 else "O_WRONLY"
        modes = fs(Const("w" if any(f in flags for f in ("WRONLY", "RDWR", "CREAT", "TRUNC", "APPEND")) else "r"))
    if modes is None:
        modes = fs(Const(DEFAULT_MODE.get(name, "r")))
    writing = any(not isinstance(m, Const) or (isinstance(m.v, str) and any(c in m.v for c in "wax+")) for m in modes)
    only_read = not writing
    o = I.alloc("handle", n, extra=name)
    o.extra = (what, name)
    path = pos[0] if pos else kw.get("file") or kw.get("name") or kw.get("filename") or E
    tg = tags_of(path) | tags_of(kw.get("path", E))
    if not tg <= o.tags:
        o.tags |= tg
    I.event("open", n, name, [path, modes], dict(kw), extra="w" if writing else "r")
    I.emit_exc()
    if writing and name != "tempfile.TemporaryFile" and not any(isinstance(v, Unk) and v.kind == "memory" for v in path):
        I.ghost = I.ghost | fs(("trunc",))
    if I.track_handles:
        if ("open", o) in I.ghost:
            I.event("reopen", n, name)
        I.ghost = (I.ghost | fs(("open", o))) - fs(("closed", o))
    return fs(Ref(o))


def close_handle(I, o, n):
    if getattr(I, "track_closed", False) and ("open", o) in I.ghost:
        I.ghost = I.ghost | fs(("closed", o))
    I.ghost = I.ghost - fs(("open", o))


# --------------------------------------------------------------- with support
def enter(I, cm, item):
    out = set()
    add = set()
    for v in cm:
        if isinstance(v, Ref) and v.obj.kind == "generator":
            out |= v.obj.elem or {TOP}
        elif isinstance(v, Ref) and v.obj.kind == "inst":
            c, a = v.obj.cls.lookup("__enter__")
            if a:
                for f in I.bind_method(a, v, v.obj.cls):
                    out |= I.call_value(f, ([], None, {}, []), item.context_expr)
            else:
                out.add(v)
        elif isinstance(v, Ref) and v.obj.kind == "closing":
            out |= v.obj.elem
        elif isinstance(v, Ref) and v.obj.kind == "lock":
            add.add(("lock", v.obj.extra))
            out.add(v)
        elif isinstance(v, Ref) and v.obj.kind == "ctx":
            add.add(("ctx", v.obj.extra))
            out.add(TOP)
        else:
            out.add(v)
    if not cm:
        out.add(TOP)
    return frozenset(out) or fs(TOP), frozenset(add)


def leave(I, cm, item):
    for v in cm:
        if isinstance(v, Ref):
            o = v.obj
            if o.kind == "handle":
                close_handle(I, o, item.context_expr)
            elif o.kind == "inst":
                c, a = o.cls.lookup("__exit__")
                if a:
                    for f in I.bind_method(a, v, o.cls):
                        try:
                            I.call_value(f, ([fs(TOP)] * 3, None, {}, []), item.context_expr)
                        except Exception as e:
                            if type(e).__name__ != "AbsStop":
                                raise
            elif o.kind == "closing":
                for x in o.elem:
                    if isinstance(x, Ref) and x.obj.kind == "handle":
                        close_handle(I, x.obj, item.context_expr)
                    elif isinstance(x, Ref) and x.obj.kind == "inst":
                        call_obj_method(I, x, "close", ([], None, {}, []), item.context_expr) if not x.obj.cls.lookup("close")[1] \
                            else I.call_method(x, "close", ([], None, {}, []), item.context_expr)
            elif o.kind == "exitstack":
                for x in list(o.elem):
                    if isinstance(x, Ref) and x.obj.kind == "handle":
                        close_handle(I, x.obj, item.context_expr)
            elif o.kind == "generator":
                # contextmanager-decorated generator: its cleanup ran when inlined
                pass


def suppresses(I, cm):
    return any(isinstance(v, Ref) and v.obj.kind == "suppress" for v in cm)


# -------------------------------------------------------------------- isinst
PYT = {"str": str, "bytes": bytes, "int": int, "float": float, "bool": bool, "tuple": tuple, "dict": dict,
       "list": list, "set": set}


def isinst(I, v, tvals):
    both = {True, False}
    names = []
    for t in tvals:
        if isinstance(t, Ref) and t.obj.kind == "tuple":
            for x in t.obj.fields.values():
                names.extend(x)
        else:
            names.append(t)
    res = set()
    for t in names:
        res |= isinst1(v, t, I.track_paths)
    if True in res:
        # any type matching surely -> True
        if any(isinst1(v, t) == {True} for t in names):
            return {True}
        return both if False in res or len(names) > 1 else res
    return res or both


HANDLE_CLASSES = {"ZipStore", "DBMStore", "LMDBStore", "TiffFile", "ZipFile", "Dataset", "NestedDirectoryStore", "DirectoryStore", "MutableMapping", "Path"}


def isinst1(v, t, paths=False):
    both = {True, False}
    if isinstance(v, Unk) and v.kind == "":
        return both
    if isinstance(t, Ext):
        nm = t.name.rpartition(".")[2]
        if kind_of(v) == "path" and (paths or t.name.startswith(("builtins.", "pathlib.")) or nm == "PathLike"):
            return {nm in ("Path", "PurePath", "PathLike", "object")}
        if kind_of(v) == "str" and (t.name.startswith("pathlib.") or nm == "PathLike"):
            return {False}
        if kind_of(v) == "str" and paths and isinstance(v, Unk) and "p:filename" in v.tags and nm in ("MutableMapping", "Mapping", "dict", "bytes", "list", "tuple"):
            return {False}
        if isinstance(v, Ref) and v.obj.kind == "handle" and v.obj.extra and not t.name.startswith("builtins."):
            opener = v.obj.extra[1].rpartition(".")[2]
            if opener == nm:
                return {True}
            if nm in HANDLE_CLASSES:
                return {False}
        if t.name.startswith("dask.array") and nm == "Array" or t.name == "dask.array.core.Array":
            k = kind_of(v)
            if k == "dask":
                return {True}
            if k in ("nd", "memmap", "h5", "str", "int", "float", "bool", "NoneType") and not (isinstance(v, Ref) and v.obj.root is not None):
                return {False}
            return both
        if t.name in ("numpy.ndarray",):
            k = kind_of(v)
            if isinstance(v, Ref) and v.obj.root is not None:
                return both
            if k in ("nd", "memmap"):
                return {True}
            if k in ("dask", "h5", "str", "int", "float", "NoneType", "bool", "dict", "list", "tuple"):
                return {False}
            return both
        if nm in PYT and t.name.startswith("builtins."):
            if isinstance(v, Const):
                return {isinstance(v.v, PYT[nm])}
            if isinstance(v, StrP) or (isinstance(v, Unk) and v.kind == "str"):
                return {nm == "str"}
            if isinstance(v, Ref):
                k = v.obj.kind
                if v.obj.root is not None and k == "any":
                    if v.obj.extra == "arraylike" and nm in ("list", "tuple", "dict", "str", "set"):
                        return {False}
                    if nm == "list" and v.obj.root[-1] == "!list":
                        return {False}
                    return both
                if k == "inst":
                    if any(nm in b for b in v.obj.cls.ext_bases()):
                        return {True}
                    return both if v.obj.cls.ext_bases() else {False}
                if k == "array":
                    return {False}
                if k in ("dict", "list", "tuple", "set", "handle"):
                    if v.obj.root is not None and k == "dict" and len(v.obj.root) > 2:
                        return both
                    return {k == nm}
                if k == "kwargs":
                    return {nm == "dict"}
                return both
            if isinstance(v, Unk) and v.kind in ("nd", "dask", "h5", "path", "bytes", "int", "float", "bool"):
                return {v.kind == nm or (nm == "int" and v.kind == "bool")}
            return both
        if isinstance(v, Const) and (v.v is None):
            return {nm == "NoneType"}
        return both
    if isinstance(t, ClassV):
        if isinstance(v, Ref) and v.obj.kind == "inst":
            if t.info in v.obj.cls.mro():
                return {True}
            return {False} if not v.obj.elem else both
        if isinstance(v, (Const, StrP)):
            return {False}
        return both
    return both


# --------------------------------------------------------------------- calls
NP_ALIAS = {"asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape",
            "squeeze", "transpose", "swapaxes", "moveaxis", "rollaxis", "rot90", "flip", "flipud", "fliplr",
            "broadcast_to", "expand_dims", "real", "imag", "asfortranarray", "require", "diagonal", "view",
            "frombuffer_alias", "split", "array_split", "broadcast_arrays", "nan_to_num_inplace", "einsum_alias"}
ND_ALIAS_METHODS = {"reshape", "ravel", "squeeze", "transpose", "swapaxes", "view", "diagonal", "newbyteorder", "__array__"}
ND_FRESH_METHODS = {"copy", "flatten", "tolist", "mean", "sum", "max", "min", "std", "cumsum", "clip", "round",
                    "tobytes", "nonzero", "any", "all", "item", "repeat", "take", "dot", "argsort", "argmax", "argmin"}
ND_MUT_METHODS = {"sort", "fill", "resize", "put", "itemset", "partition", "setfield", "setflags"}
NP_MUT_FUNCS = {"numpy.put": 0, "numpy.copyto": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0,
                "numpy.random.shuffle": 0, "random.shuffle": 0, "numpy.put_along_axis": 0,
                "numpy.add.at": 0, "numpy.subtract.at": 0, "numpy.maximum.at": 0}
UFUNC_OUT = {**{k: 2 for k in ("add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "power", "mod", "remainder", "fmod", "maximum", "minimum",
                                "fmax", "fmin", "left_shift", "right_shift", "bitwise_and", "bitwise_or", "bitwise_xor", "logical_and", "logical_or",
                                "arctan2", "hypot")},
             **{k: 1 for k in ("negative", "absolute", "abs", "fabs", "sqrt", "square", "exp", "log", "log10", "log2", "rint", "floor", "ceil", "trunc", "sign",
                               "invert", "conj", "conjugate", "sin", "cos", "reciprocal")},
             "clip": 3, "round": 2, "around": 2, "nan_to_num": 99, "cumsum": 3, "take": 3}
INPLACE_OPS = {"iadd", "isub", "imul", "itruediv", "ifloordiv", "imod", "ipow", "iand", "ior", "ixor", "ilshift", "irshift", "iconcat", "imatmul"}
DICT_MUT = {"update", "pop", "popitem", "setdefault", "clear", "__setitem__", "__delitem__", "set_item", "add_dictionary",
            "add_node", "merge_update"}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__", "__delitem__",
            "appendleft", "popleft"}
SET_MUT = {"add", "discard", "remove", "pop", "clear", "update", "difference_update", "intersection_update"}
ALL_MUT = DICT_MUT | LIST_MUT | SET_MUT

# calls that cannot raise in practice / are irrelevant for exceptional paths
NO_RAISE = {"builtins.isinstance", "builtins.len", "builtins.type", "builtins.hasattr", "builtins.callable", "builtins.id",
            "builtins.print", "builtins.repr", "builtins.bool", "contextlib.nullcontext", "builtins.super", "logging.getLogger",
            "contextlib.closing", "contextlib.ExitStack", "contextlib.suppress",
            "threading.Lock", "threading.RLock", "builtins.dict", "builtins.list", "builtins.tuple", "builtins.set"}


def arr_of(vals):
    return frozenset(v for v in vals if isinstance(v, Ref) and v.obj.kind in ("array", "any", "nd"))


def flatten(I, vals, n, depth=3):
    """Constants in (nested) lists."""
    out = set()
    for v in vals:
        if isinstance(v, Const) and isinstance(v.v, (tuple, list)):
            out |= {Const(x) for x in v.v}
        elif isinstance(v, Ref) and depth:
            out |= flatten(I, iter_one(I, v, n), n, depth - 1)
        else:
            out.add(v)
    return out


def stated(pos, kw, i):
    """Fact: the array has this stated data type."""
    d = kw.get("dtype") or (pos[i] if len(pos) > i else None)
    return ("dt", frozenset(d)) if d else None


DASK_KW = {"chunks", "drop_axis", "new_axis", "name", "token", "meta", "dtype", "enforce_ndim", "output_dtypes",
           "allow_rechunk", "vectorize", "output_sizes", "signature", "axes", "axis", "keepdims", "concatenate", "align_arrays"}


def callback(I, fvals, node, args=None, extra=None, kw=None):
    """External code may call an in-project function it was given (now or later)."""
    for f in fvals:
        if isinstance(f, (FuncV, Bound)):
            info = f.info if isinstance(f, FuncV) else f.func.info
            I.event("callback", node, info.qual, args or [], extra=extra)
            a = list(args or [])
            detached(I, node, info.qual, lambda: I.call_value(f, (a, fs(TOP) if not args else None, dict(kw or {}), []), node))
        elif isinstance(f, Partial):
            detached(I, node, "partial", lambda: call_partial(I, f, (list(args or []), fs(TOP) if not args else None, dict(kw or {}), []), node))


def detached(I, node, label, fn):
    """Run fn as code that executes outside the current control flow: its handle state is its own.
    Handles it leaves open are reported as 'cb-leak' events."""
    g0, exc0, env0 = I.ghost, I.exc, I.env
    ch = (I.choices, I.choice_i)
    base = frozenset(x for x in g0 if x[0] != "raised")
    results = []
    from engine import Out
    out = Out()
    for g, env, v in I.run_choices(base, dict(env0), fn, out):
        results.append(v)
        for x in g - base:
            if x[0] == "open":
                I.event("cb-leak", x[1].node or node, label, [fs(Ref(x[1]))], extra="return")
    for g in out.exc:
        for x in g - base:
            if x[0] == "open":
                I.event("cb-leak", x[1].node or node, label, [fs(Ref(x[1]))], extra="exception")
    I.ghost, I.exc, I.env = g0, exc0, env0
    I.choices, I.choice_i = ch
    if out.exc:
        I.emit_exc()
    r = frozenset()
    for v in results:
        r |= v
    return r


def call_partial(I, t, args, n):
    target, o = t.k[0], t.k[1]
    pos, star, kw, dstar = o.extra
    p2, s2, k2, d2 = args
    newkw = dict(kw)
    newkw.update(k2)
    newkw = {k: v for k, v in newkw.items() if not k.startswith("dask_key_name") and not (t.k[2] == "delayed" and k in ("pure", "nout"))}
    call = lambda: I.call_value(target, (list(pos) + list(p2), star if star is not None else s2, newkw, list(dstar) + list(d2)), n)
    if t.k[2] == "delayed":
        q = target.info.qual if isinstance(target, FuncV) else (target.func.info.qual if isinstance(target, Bound) else repr(target))
        I.event("callback", n, q, list(pos) + list(p2), newkw, extra="dask.delayed")
        r = detached(I, n, q, call)
        return fs(Unk("delayed", tags_of(r), None))
    return call()


def call_unknown(I, t, name, args, n):
    pos, star, kw, dstar = args
    label = name or "<unknown>"
    I.event("unkcall", n, label, [fs(t)] + pos, kw)
    I.emit_exc()
    allv = frozenset(t for p in pos for t in p) | frozenset(x for v in kw.values() for x in v)
    for p in pos:
        callback(I, p, n)
    for v in kw.values():
        callback(I, v, n)
    tg = tags_of((t,)) | tags_of(allv)
    return fs(Unk("", tg - {"unsorted"}))


def super_ext(I, inst, name, args, n):
    I.emit_exc()
    if name == "__init__" and args[0]:
        # dict / list / thread subclasses: keep what they were given
        for p in args[0]:
            for v in p:
                if isinstance(v, Ref):
                    I.add_proto(inst.obj, v.obj)
    return fs(TOP)


def all_vals(args):
    pos, star, kw, dstar = args
    s = set(star or ())
    for p in pos:
        s |= p
    for v in kw.values():
        s |= v
    return frozenset(s)


def shallow(I, vals, kind, n):
    out = set()
    for v in vals:
        if isinstance(v, Ref) and v.obj.kind not in ("handle", "inst"):
            o = I.alloc(kind, n, extra="shallow")
            if v.obj.kind == "dict" and kind in ("list", "tuple", "set"):
                I.add_elem(o, iter_one(I, v, n))
            else:
                I.add_proto(o, v.obj)
            t = order_of((v,))
            if t and kind in ("list", "tuple"):
                o.tags |= t
            out.add(Ref(o))
        else:
            o = I.alloc(kind, n, extra=("from", "unk"))
            el = iter_one(I, v, n) if kind != "dict" else fs(Unk("", tags_of((v,))))
            I.add_elem(o, el)
            t = order_of((v,))
            if t and kind in ("list", "tuple"):
                o.tags |= t
            out.add(Ref(o))
    return frozenset(out) or fs(Ref(I.alloc(kind, n)))


def mk_list(I, n, extra, elem, kind="list", tags=frozenset()):
    o = I.alloc(kind, n, extra=extra)
    I.add_elem(o, frozenset(elem))
    if tags and not tags <= o.tags:
        o.tags |= tags
    return fs(Ref(o))


def mk_tuple(I, n, extra, slots):
    o = I.alloc("tuple", n, extra=extra)
    for i, s in enumerate(slots):
        I.set_field(o, i, frozenset(s) or fs(TOP))
    return Ref(o)


DSTAR_NAMES = ("mode", "allow_pickle", "encoding", "newline", "store", "dtype", "mmap_mode", "tz")


SOURCES = [("random", ("random.", "numpy.random.", "uuid.uuid1", "uuid.uuid4", "secrets.", "os.urandom")),
           ("environ", ("os.environ.", "os.getenv", "os.getcwd", "pathlib.Path.cwd", "pathlib.Path.home", "os.getlogin", "os.getpid", "getpass.getuser",
                        "socket.gethostname", "socket.getfqdn", "platform.")),
           ("locale", ("locale.",)), ("id", ("builtins.id", "builtins.hash"))]


def source_tag(name):
    for tag, pre in SOURCES:
        for p in pre:
            if name == p or p.endswith(".") and name.startswith(p):
                return tag
    return None


def call_ext(I, name, args, n):
    out = _call_ext(I, name, args, n)
    t = source_tag(name)
    if t and out:
        out = frozenset(Unk(v.kind, v.tags | {t}, v.x) if isinstance(v, Unk) else v for v in out)
    return out


def _call_ext(I, name, args, n):
    pos, star, kw, dstar = args
    if dstar:
        kw = dict(kw)
        known = [k for d in dstar if isinstance(d, Ref) for k in d.obj.fields if isinstance(k, str)]
        for nm in dict.fromkeys([*DSTAR_NAMES, *known]):
            if nm in kw:
                continue
            vals = set()
            for d in dstar:
                if isinstance(d, Ref):
                    vals |= I.load_key(d.obj, nm)
            if vals:
                kw[nm] = frozenset(vals)
    I.event("extcall", n, name, pos, kw, extra="dstar" if dstar else None)
    if I.track_paths and (name.startswith(STRING_ONLY) or name in ("builtins.len", "builtins.int", "builtins.float", "builtins.ord")):
        for v in pos:
            pathop(I, n, f"{name}()", v)
    if name not in NO_RAISE:
        I.emit_exc()
    av = all_vals(args)
    a0 = pos[0] if pos else (star if star is not None else E)
    tg = tags_of(av)
    short = name.rpartition(".")[2]

    if name in OPENERS:
        what = OPENERS[name]
        if any(isinstance(v, Unk) and v.kind == "memory" for v in a0) and all(isinstance(v, Unk) and v.kind == "memory" for v in a0):
            return fs(Unk("", frozenset()))
        if name == "os.fdopen":
            for v in a0:
                if isinstance(v, Ref) and v.obj.kind == "handle":
                    close_handle(I, v.obj, n)
        return new_handle(I, n, what, pos, kw, name)
    if name == "os.close":
        for v in a0:
            if isinstance(v, Ref) and v.obj.kind == "handle":
                close_handle(I, v.obj, n)
        return fs(NONE)
    if name in ("zarr.open", "zarr.open_group", "zarr.group", "zarr.open_array"):
        modes = kw.get("mode", fs(Const("a")) if name != "zarr.group" else kw.get("overwrite", E))
        w = any(not isinstance(m, Const) or m.v is True or (isinstance(m.v, str) and any(c in m.v for c in "wax+")) for m in modes)
        I.event("open", n, name, [a0 or kw.get("store", E), modes], dict(kw), extra="w" if w else "r")
        if w:
            I.ghost = I.ghost | fs(("trunc",))
        store = next((v.obj for v in sorted(a0 | kw.get("store", E), key=repr) if isinstance(v, Ref) and v.obj.kind == "handle"), None)
        return fs(Unk("h5", tg, ("h", store) if store is not None else None))
    if name == "pyUSID.hdf_utils.get_all_main":
        return mk_list(I, n, "usidmain", [Unk("h5", tg, v.x if isinstance(v, Unk) else ("h", v.obj)) for v in a0
                                          if isinstance(v, Unk) and v.kind == "h5" or isinstance(v, Ref) and v.obj.kind == "handle"] or [TOP])
    if name == "pyUSID.USIDataset" and any(isinstance(v, Unk) and v.kind == "h5" for v in a0):
        return fs(*[v for v in a0 if isinstance(v, Unk) and v.kind == "h5"])
    if name == "pyUSID.hdf_utils.reshape_to_n_dims":
        lz = kw.get("lazy", E)
        out = set()
        if FALSE not in lz or len(lz) > 1:
            out.add(Unk("dask", tg | {f"backed:{v.x[1].id}" for v in a0 if isinstance(v, Unk) and v.x and v.x[0] == "h"}))
        if TRUE not in lz or len(lz) > 1:
            out.add(Unk("nd", tg | LOADED))
        return fs(mk_tuple(I, n, "usidnd", [frozenset(out), fs(TRUE), fs(Unk("list", tg))]))
    if name in FILE_WRITERS:
        i = FILE_WRITERS[name]
        I.event("filewrite", n, name, [pos[i] if i < len(pos) else kw.get("filename") or kw.get("uri") or kw.get("file") or E])
        I.ghost = I.ghost | fs(("trunc",))
        if name.startswith("mrcz"):
            return fs(TOP)
        return fs(NONE)
    if name in ("numpy.memmap", "numpy.lib.format.open_memmap"):
        midx = 2 if name == "numpy.memmap" else 1
        modes = kw.get("mode") or (pos[midx] if len(pos) > midx else fs(Const("r+")))
        w = any(isinstance(m, Const) and isinstance(m.v, str) and ("w" in m.v or "+" in m.v) for m in modes)
        u = any(not isinstance(m, Const) for m in modes)
        I.event("open", n, name, [a0 or kw.get("filename", E), modes], dict(kw), extra="w" if w else ("?" if u else "r"))
        if w:
            I.ghost = I.ghost | fs(("trunc",))
        return fs(Unk("memmap", tags_of(a0)))
    if name == "numpy.load":
        return fs(*[x for x in numpy_load(I, name, args, n)])

    if name.startswith(("builtins.list.", "builtins.dict.", "builtins.set.", "numpy.ndarray.")) and name.count(".") == 2 and a0 and any(
            isinstance(v, Ref) for v in a0) and short not in ("fromkeys",):
        return frozenset(x for v in a0 for x in (call_obj_method(I, v, short, (list(pos[1:]), star, kw, dstar), n) or E)) or fs(NONE)
    if name.startswith("builtins."):
        r = call_builtin(I, short, args, n, av, a0, tg)
        if r is not None:
            return r
        return fs(Unk("", tg - {"unsorted"}))

    if name in ("copy.deepcopy",):
        out = set()
        for v in a0:
            if isinstance(v, Ref) and v.obj.kind in ("handle",):
                out.add(v)
            elif isinstance(v, Ref):
                out.add(Ref(I.deepcopy_of(v.obj)))
            else:
                out.add(v)
        return frozenset(out) or fs(TOP)
    if name == "copy.copy":
        return frozenset(copy_obj(I, v, n) for v in a0) or fs(TOP)
    if name in ("functools.partial",):
        o = I.alloc("partial", n)
        rest = pos[1:]
        if o.extra is not None and len(o.extra[0]) == len(rest):
            rest = [x | y for x, y in zip(o.extra[0], rest)]
            kw = {k: kw.get(k, E) | o.extra[2].get(k, E) for k in set(kw) | set(o.extra[2])}
        o.extra = (rest, star, kw, dstar)
        return frozenset(Partial(t, o, "partial") for t in a0)
    if name in ("dask.delayed", "dask.delayed.delayed"):
        o = I.alloc("partial", n)
        o.extra = ([], None, {}, [])
        I.event("delayed", n, name, pos)
        return frozenset(Partial(t, o, "delayed") for t in a0 if isinstance(t, (FuncV, Bound, Ext, ClassV, Meth, Partial))) or fs(Unk("delayed"))
    if name in ("functools.wraps", "functools.lru_cache", "functools.cache"):
        return fs(TOP)
    if name == "packaging.version.Version":
        if a0 and all(isinstance(v, Const) and isinstance(v.v, str) for v in a0):
            try:
                return frozenset(Const(tuple(int(x) for x in v.v.split("."))) for v in a0)
            except ValueError:
                pass
        return fs(Unk("version", tg))
    if name in ("contextlib.closing",):
        o = I.alloc("closing", n)
        I.add_elem(o, a0)
        return fs(Ref(o))
    if name == "contextlib.suppress":
        return fs(Ref(I.alloc("suppress", n)))
    if name == "contextlib.ExitStack":
        return fs(Ref(I.alloc("exitstack", n)))
    if name == "contextlib.nullcontext":
        return a0 if a0 else fs(NONE)
    if name in ("threading.Lock", "threading.RLock", "dask.utils.SerializableLock"):
        o = I.alloc("lock", n, ctx=False)
        if o.extra is None:
            o.extra = o.static or f"lock@{getattr(n, 'lineno', 0)}"
        return fs(Ref(o))
    if name == "warnings.catch_warnings":
        o = I.alloc("ctx", n)
        o.extra = "catch_warnings"
        return fs(Ref(o))
    if name in ("numpy.errstate", "dask.config.set"):
        o = I.alloc("ctx", n)
        o.extra = name
        return fs(Ref(o))
    if name.startswith("dask.diagnostics"):
        o = I.alloc("ctx", n)
        o.extra = "progressbar"
        return fs(Ref(o))
    if name in ("pathlib.Path", "pathlib.PurePath"):
        return fs(Unk("path", tg, tuple(pos) if len(pos) == 1 else None))
    if name in ("io.BytesIO", "io.StringIO"):
        return fs(Unk("memory"))
    if name in ("glob.glob", "glob.iglob", "os.listdir", "os.scandir", "os.walk"):
        return fs(Unk("list", tg | {"unsorted"}))
    if name.startswith("os.path."):
        if short in ("exists", "isfile", "isdir", "islink", "getsize"):
            return fs(Unk("bool" if short != "getsize" else "int"))
        if short == "splitext" or short == "split":
            if short == "splitext":
                exts = set()
                for v in a0:
                    if isinstance(v, StrP) and isinstance(v.parts[-1], str) and "." in v.parts[-1]:
                        exts.add(Const("." + v.parts[-1].rpartition(".")[2]))
                    elif isinstance(v, Const) and isinstance(v.v, str):
                        import os as _os
                        exts.add(Const(_os.path.splitext(v.v)[1]))
                    else:
                        exts.add(Unk("str", tags_of((v,))))
                return fs(mk_tuple(I, n, name, [fs(Unk("str", tg)), frozenset(exts) or fs(Unk("str", tg))]))
            return fs(mk_tuple(I, n, name, [fs(Unk("str", tg)), fs(Unk("str", tg))]))
        return fs(Unk("str", tg))
    if name == "numpy.dtype":
        return mk_dtype(I, n, a0 or kw.get("dtype", E))
    if name in ("struct.calcsize",):
        return fs(Unk("int", tg, ("calcsize", a0)))
    if name in ("struct.Struct",):
        o = I.alloc("struct", n)
        I.set_field(o, "format", a0)
        return fs(Ref(o))
    if name in ("struct.unpack", "struct.unpack_from"):
        k = 0
        cs = [v.v for v in a0 if isinstance(v, Const) and isinstance(v.v, str)]
        return fs(Unk("", tg))
    if name in ("rsciio.utils.tools.DTBox",) or name in ("box.Box",):
        return box(I, pos, kw, n)
    if name in ("itertools.chain",):
        el = set()
        for p in pos:
            el |= I.iter_elems(p)
        if star is not None:
            el |= I.iter_elems(star)
        return mk_list(I, n, "chain", el)
    if name in ("itertools.product", "itertools.zip_longest"):
        return mk_list(I, n, name, [mk_tuple(I, n, name, [I.iter_elems(p) for p in pos])])
    if name in ("collections.OrderedDict", "collections.defaultdict", "collections.Counter"):
        a = pos[-1] if pos and name != "collections.defaultdict" else (pos[1] if len(pos) > 1 else E)
        r = set()
        o = I.alloc("dict", n, extra=name)
        for v in a:
            if isinstance(v, Ref):
                I.add_proto(o, v.obj)
        for k, v in kw.items():
            I.set_field(o, k, v)
        if name == "collections.defaultdict":
            for f in a0:
                if isinstance(f, Ext) and f.name in ("builtins.list", "builtins.dict", "builtins.set"):
                    I.add_elem(o, fs(Ref(I.alloc(f.name.rpartition(".")[2], n, extra="dd"))))
        return fs(Ref(o))
    if name in ("collections.deque",):
        return shallow(I, a0, "list", n) if a0 else fs(Ref(I.alloc("list", n)))
    if name in ("operator.itemgetter", "operator.attrgetter"):
        return fs(Unk("getter"))
    if name in ("importlib.import_module",):
        out = set()
        for v in a0:
            if isinstance(v, Const) and isinstance(v.v, str):
                nm = v.v
                if nm.startswith("."):
                    b = [c.v for c in (pos[1] if len(pos) > 1 else E) if isinstance(c, Const)]
                    nm = (b[0] if b else "") + nm
                out.add(I.import_module(nm))
            else:
                out.add(TOP)
        return frozenset(out) or fs(TOP)
    if name in NP_MUT_FUNCS:
        for v in arr_of(a0):
            I.mutated(v.obj, n, name)
    if "out" in kw:
        for v in kw["out"]:
            if isinstance(v, Ref):
                I.mutated(v.obj, n, f"{name}(out=)")
    k = UFUNC_OUT.get(short) if name.startswith("numpy.") else None
    if k is not None and len(pos) > k:
        for v in arr_of(pos[k]):
            I.mutated(v.obj, n, f"{name}(..., out)")
    if short in ("as_strided", "sliding_window_view", "frombuffer") and arr_of(a0):
        return arr_of(a0)
    if name == "numpy.einsum" and len(pos) == 2 and arr_of(pos[1]):
        return arr_of(pos[1])
    if name == "numpy.nan_to_num" and "copy" in kw and TRUE not in kw["copy"]:
        for v in arr_of(a0):
            I.mutated(v.obj, n, "numpy.nan_to_num(copy=False)")
    if name == "numpy.nditer" and any(isinstance(x, Const) and isinstance(x.v, str) and "write" in x.v
                                      for fl in ("op_flags", "flags") for x in flatten(I, kw.get(fl, E), n)):
        for v in arr_of(a0):
            I.mutated(v.obj, n, "numpy.nditer")
    if name.startswith("operator."):
        if short in ("setitem", "delitem") or short in INPLACE_OPS:
            for v in a0:
                if isinstance(v, Ref):
                    if short == "setitem" and len(pos) > 2:
                        I.store_item(v.obj, pos[1], pos[2])
                    I.mutated(v.obj, n, name)
            return a0 if short in INPLACE_OPS else fs(NONE)
        if short == "getitem" and len(pos) > 1:
            return frozenset(x for v in a0 for x in subscript(I, v, pos[1], None, n)) or fs(TOP)
        if short in ("itemgetter", "attrgetter", "methodcaller"):
            return fs(Unk("", tg, ("op", short, tuple(pos))))
    if name == "functools.reduce" and len(pos) > 1:
        acc = pos[2] if len(pos) > 2 else E
        el = I.iter_elems(pos[1], n)
        for _ in range(4):
            new = acc | frozenset(x for f in a0 for x in (I.call_value(f, ([acc | el if len(pos) < 3 else acc, el], None, {}, []), n) or E))
            if new <= acc:
                break
            acc = new
        return acc or fs(TOP)
    if name.startswith("numpy."):
        if short in NP_ALIAS and name.count(".") == 1:
            refs = arr_of(a0)
            for v in refs:
                if v.obj.kind == "any" and v.obj.root is not None and v.obj.extra is None:
                    v.obj.extra = "maybearray"
                    I.changed = True
            rest = frozenset(v for v in a0 if v not in refs)
            out = set(refs)
            if rest or not refs:
                ks = {kind_of(v) for v in rest}
                if "dask" in ks and short not in ("asarray", "asanyarray", "ascontiguousarray", "require"):
                    out.add(Unk("dask", tg))
                if ks - {"dask"} or not ks or short in ("asarray", "asanyarray", "ascontiguousarray", "require"):
                    ld = LOADED if any(kind_of(v) in ("h5", "dask") or isinstance(v, Ref) and v.obj.kind == "handle" for v in rest) else E
                    out.add(Unk("memmap" if ks == {"memmap"} else "nd", (tg - {"unsorted"}) | ld))
            return frozenset(out)
        if short in ("array", "nan_to_num"):
            cp = kw.get("copy")
            if short == "nan_to_num" and any(kind_of(v) == "dask" for v in a0):
                return fs(*({Unk("dask", tg)} | ({Unk("nd", tg)} if any(kind_of(v) != "dask" for v in a0) else set())))
            if cp and TRUE not in cp:
                return frozenset(arr_of(a0)) | fs(Unk("nd", tg))
            ld = LOADED if any(kind_of(v) in ("h5", "dask") or isinstance(v, Ref) and v.obj.kind == "handle" for v in a0) else E
            return fs(Unk("nd", (tg - {"unsorted"}) | ld, stated(pos, kw, 1) if short == "array" else None))
        if short in ("unique", "sort"):
            return fs(Unk("nd", tg - {"unsorted", "set-order"}))
        if short in ("shape", "ndim", "size", "prod"):
            return fs(Unk("", tg))
        if short in ("fromfile", "frombuffer", "fromstring", "loadtxt", "genfromtxt"):
            return fs(Unk("nd", tags_of(a0)))
        if short in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float32", "float64", "float16", "complex64", "complex128", "bool_"):
            return fs(Unk("nd", tg))
        if short == "where" and len(pos) == 3:
            return fs(Unk(res_kind(pos[1] | pos[2]) or "nd", tg))
        if short in ("vectorize", "apply_along_axis", "frompyfunc"):
            callback(I, a0, n)
        if any(kind_of(v) == "dask" for v in a0) and short not in ("array",):
            return fs(Unk("dask", tg))
        if short in ("hstack", "vstack", "stack", "concatenate", "dstack", "block") and any(
                isinstance(v, Ref) and v.obj.kind in ("list", "tuple") and any(kind_of(x) == "dask" for x in iter_one(I, v, n)) for v in a0):
            return fs(Unk("dask", tg))
        return fs(Unk("nd", tg - {"unsorted"}, stated(pos, kw, {"zeros": 1, "ones": 1, "empty": 1, "full": 2}.get(short, 99))))
    if name.startswith("dask.array"):
        if short in ("map_blocks", "apply_gufunc", "map_overlap", "blockwise", "apply_along_axis", "reduction", "from_function", "fromfunction"):
            skip = 2 if short == "apply_gufunc" else 1
            cargs = [frozenset(v if isinstance(v, Ref) and v.obj.kind in ("array", "any") else Unk("nd", tags_of((v,))) for v in p)
                     for p in pos[skip:]]
            ckw = {k: v for k, v in kw.items() if k not in DASK_KW}
            for p in pos[:1]:
                callback(I, p, n, args=cargs, extra=name, kw=ckw)
            if "func" in kw:
                callback(I, kw["func"], n, args=cargs, extra=name, kw={k: v for k, v in ckw.items() if k != "func"})
        if short in ("store", "compute"):
            return fs(NONE) if short == "store" else fs(Unk("nd", tg | LOADED))
        if short in ("from_array", "asarray", "asanyarray", "from_zarr"):
            # the lazy array reads from this open file
            tg = tg | {f"backed:{v.x[1].id}" for v in a0 if isinstance(v, Unk) and v.kind == "h5" and v.x and v.x[0] == "h"}
            tg = tg | {f"backed:{v.obj.id}" for v in a0 if isinstance(v, Ref) and v.obj.kind == "handle"}
        return fs(Unk("dask", tg))
    if name in ("dask.compute", "dask.base.compute"):
        return fs(mk_tuple(I, n, "compute", [fs(Unk("nd", tg | LOADED)) for _ in pos] or [fs(TOP)]))
    if name in ("numba.jit", "numba.njit", "numba.vectorize"):
        return a0 or fs(TOP)
    if name in ("time.time", "time.localtime", "datetime.datetime.now", "datetime.datetime.today", "datetime.date.today",
                "datetime.datetime.utcnow", "time.strftime", "time.ctime", "time.gmtime", "time.time_ns", "time.perf_counter", "time.monotonic"):
        tg = tg | {"clock"}
    for p in list(pos) + list(kw.values()):
        callback(I, p, n)
    return fs(Unk("", tg - {"unsorted"}))


def npz_use(call):
    """The result of this numpy.load call is used as an archive (with statement, members by name, close)."""
    p = call._parent
    if isinstance(p, ast.withitem):
        return True
    if isinstance(p, ast.Call) and any(isinstance(s, ast.Attribute) and s.attr == "enter_context" for s in ast.walk(p.func)):
        return True
    tgt = None
    if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
        tgt = (p.targets[0] if isinstance(p, ast.Assign) else p.target)
    if not isinstance(tgt, ast.Name):
        return isinstance(p, ast.Subscript) and isinstance(p.slice, ast.Constant) and isinstance(p.slice.value, str)
    fn = call
    while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.Module)):
        fn = fn._parent
    for s in ast.walk(fn):
        if isinstance(s, ast.Subscript) and isinstance(s.value, ast.Name) and s.value.id == tgt.id and isinstance(s.slice, ast.Constant) and isinstance(s.slice.value, str):
            return True
        if isinstance(s, ast.Attribute) and isinstance(s.value, ast.Name) and s.value.id == tgt.id and s.attr in ("files", "zip", "close", "keys", "items", "fid"):
            return True
        if isinstance(s, ast.Compare) and isinstance(s.ops[0], (ast.In, ast.NotIn)) and any(isinstance(c, ast.Name) and c.id == tgt.id for c in s.comparators):
            return True
        if isinstance(s, ast.withitem) and isinstance(s.context_expr, ast.Name) and s.context_expr.id == tgt.id:
            return True
    return False


def numpy_load(I, name, args, n):
    pos, star, kw, dstar = args
    mm = kw.get("mmap_mode") or (pos[1] if len(pos) > 1 else fs(NONE))
    I.event("open", n, name, [pos[0] if pos else kw.get("file", E), fs(Const("r"))], dict(kw), extra="r")
    out = set()
    if any(not (isinstance(m, Const) and m.v is None) for m in mm):
        out.add(Unk("memmap", tags_of(pos[0] if pos else E)))
    if any(isinstance(m, Const) and m.v is None or not isinstance(m, Const) for m in mm):
        if not npz_use(n):
            return {Unk("nd", tags_of(pos[0] if pos else E))} | out
        o = I.alloc("handle", n, extra=name)
        o.extra = ("npz", name)
        if I.track_handles:
            I.ghost = I.ghost | fs(("open", o))
        out.add(Ref(o))
        if len(out) > 1:
            out.add(Unk("nd", tags_of(pos[0] if pos else E)))
    return out


def mk_dtype(I, n, spec, order=None, base=None):
    o = I.alloc("dtype", n)
    I.set_field(o, "spec", frozenset(spec) or fs(TOP))
    if order is not None:
        I.set_field(o, "order", order)
    return fs(Ref(o))


def box(I, pos, kw, n):
    o = I.alloc("box", n)
    for p in pos:
        for v in p:
            if isinstance(v, Ref):
                I.add_proto(o, v.obj, deep=True)
    for k, v in kw.items():
        if not k.startswith("box_"):
            I.set_field(o, k, v)
    return fs(Ref(o))


def copy_obj(I, v, n):
    if isinstance(v, Ref):
        o = v.obj
        if o.kind in ("array", "nd"):
            return Unk("nd")
        if o.kind in ("handle", "lock"):
            return v
        if o.kind == "inst":
            c = I.alloc("inst", n, extra="copy", cls=o.cls)
            I.add_proto(c, o)
            return Ref(c)
        c = I.alloc(o.kind if o.kind != "box" else "box", n, extra="copy")
        I.add_proto(c, o)
        return Ref(c)
    return v


def call_builtin(I, short, args, n, av, a0, tg):
    pos, star, kw, dstar = args
    if short == "super":
        fr = I.frame
        if fr.info is not None and fr.info.cls is not None and fr.info.posparams:
            selfs = I.env.get(fr.info.posparams[0], E)
            out = set()
            for s in selfs:
                if isinstance(s, Ref) and s.obj.kind == "inst":
                    o = I.alloc("super", n, extra=(s.obj.id, fr.info.cls))
                    o.extra = (s, fr.info.cls)
                    out.add(Ref(o))
            return frozenset(out) or fs(TOP)
        return fs(TOP)
    if short in ("dict",):
        o = I.alloc("dict", n)
        for p in pos:
            for v in p:
                if isinstance(v, Ref):
                    if v.obj.kind in ("dict", "any", "kwargs", "box"):
                        I.add_proto(o, v.obj)
                    else:
                        for t in I.iter_elems(fs(v)):
                            if isinstance(t, Ref) and t.obj.kind == "tuple":
                                I.add_elem(o, I.load_key(t.obj, 1))
                else:
                    I.add_elem(o, fs(Unk("", tags_of((v,)))))
        for k, v in kw.items():
            I.set_field(o, k, v)
        for d in dstar:
            if isinstance(d, Ref):
                I.add_proto(o, d.obj)
        return fs(Ref(o))
    if short in ("list", "tuple", "set", "frozenset"):
        kind = {"frozenset": "set"}.get(short, short)
        if not pos:
            return fs(Ref(I.alloc(kind, n)))
        return shallow(I, a0, kind, n)
    if short == "sorted":
        callback(I, kw.get("key", E), n, [I.iter_elems(a0)])
        el = I.iter_elems(a0)
        o = I.alloc("list", n)
        I.add_elem(o, el)
        return fs(Ref(o))
    if short in ("reversed", "iter"):
        if short == "iter" and len(pos) == 1:
            return shallow(I, a0, "list", n)
        return shallow(I, a0, "list", n)
    if short == "enumerate":
        return mk_list(I, n, "enum", [mk_tuple(I, n, "enum", [fs(Unk("int", order_of(a0) and frozenset(("order-pick",)))), I.iter_elems(a0)])], tags=order_of(a0))
    if short == "zip":
        return mk_list(I, n, "zip", [mk_tuple(I, n, "zip", [I.iter_elems(p) for p in pos])], tags=frozenset().union(*map(order_of, pos))) \
            if pos and star is None else mk_list(I, n, "zip", [TOP] if star is None else star)
    if short in ("map", "filter"):
        el = I.iter_elems(pos[1]) if len(pos) > 1 else fs(TOP)
        tags = frozenset().union(*map(order_of, pos[1:]))
        if short == "filter":
            return mk_list(I, n, "filter", el, tags=tags)
        out = set()
        for f in a0:
            if isinstance(f, (FuncV, Bound, Ext, Partial, Meth, ClassV)):
                out |= I.call_value(f, ([I.iter_elems(p) for p in pos[1:]], None, {}, []), n)
        return mk_list(I, n, "map", out or {TOP}, tags=tags)
    if short == "next":
        el = picked(a0, I.iter_elems(a0))
        if len(pos) > 1:
            el = el | pos[1]
        if any("unsorted" in tags_of((v,)) for v in a0):
            I.event("iter", n, "next", [a0])
        return el
    if short == "range":
        return fs(Unk("range"))
    if short == "len":
        if len(a0) == 1:
            (v,) = a0
            if isinstance(v, Const) and isinstance(v.v, (str, bytes, tuple)):
                return fs(Const(len(v.v)))
        return fs(Unk("int", tg - {"unsorted", "set-order"}))
    if short == "isinstance":
        out = set()
        tv = pos[1] if len(pos) > 1 else E
        for v in a0:
            out |= isinst(I, v, tv)
        return frozenset(Const(x) for x in out) or fs(TRUE, FALSE)
    if short == "hasattr":
        return fs(TRUE, FALSE)
    if short == "callable":
        return fs(TRUE, FALSE)
    if short == "getattr":
        out = set()
        for o in a0:
            for k in (pos[1] if len(pos) > 1 else E):
                if isinstance(k, Const) and isinstance(k.v, str):
                    out |= I.load_attr(o, k.v, n)
                else:
                    if isinstance(o, Ref) and o.obj.kind == "inst":
                        for c in o.obj.cls.mro():
                            pat = k.parts[0] if isinstance(k, StrP) and isinstance(k.parts[0], str) else None
                            for nm, vals in c.attrs.items():
                                if pat and nm.startswith(pat):
                                    out |= I.bind_method(vals, o, o.obj.cls)
                        out.add(TOP)
                    else:
                        out.add(Unk("", tags_of((o,))))
        if len(pos) > 2:
            out |= pos[2]
        return frozenset(out) or fs(TOP)
    if short == "setattr":
        for o in a0:
            if isinstance(o, Ref):
                for k in pos[1] if len(pos) > 1 else E:
                    if isinstance(k, Const):
                        I.set_field(o.obj, k.v, pos[2])
                    else:
                        I.add_elem(o.obj, pos[2])
                I.mutated(o.obj, n, "setattr") if o.obj.kind != "inst" or o.obj.static else None
            elif isinstance(o, ClassV):
                I.event("class-store", n, o.info.qual, pos[2:3])
            elif isinstance(o, ModV):
                I.event("global-store", n, o.mod.name + ":setattr", pos[2:3])
        return fs(NONE)
    if short in ("str", "repr", "format", "ascii"):
        if not pos:
            return fs(Const(""))
        out = set()
        for v in a0:
            if isinstance(v, Const) and short == "str" and not isinstance(v.v, bytes):
                out.add(Const(str(v.v)))
            elif isinstance(v, StrP) and short == "str":
                out.add(v)
            elif isinstance(v, Unk) and v.kind == "path":
                out.add(Unk("str", v.tags))
            else:
                out.add(Unk("str", tags_of((v,))))
        return frozenset(out)
    if short in ("int", "float", "bool", "abs", "round", "sum", "min", "max", "ord", "hash", "divmod", "pow"):
        if short in ("int", "float") and len(a0) == 1:
            (v,) = a0
            if isinstance(v, Const):
                try:
                    return fs(Const(getattr(builtins, short)(v.v)))
                except Exception:
                    pass
        if short == "bool":
            return frozenset(Const(t) for t in I.truth(a0)) if a0 else fs(FALSE)
        if short in ("min", "max"):
            callback(I, kw.get("key", E), n)
            if len(pos) > 1:
                out = set()
                for p in pos:
                    out |= p
                return frozenset(x if not isinstance(x, Const) else Unk(x.k[0]) for x in out)
            return frozenset(Unk(kind_of(x), tags_of((x,))) if not isinstance(x, Ref) else x for x in I.iter_elems(a0))
        if short == "sum":
            return fs(Unk("", tg - {"unsorted", "set-order"}))
        return fs(Unk({"int": "int", "float": "float", "ord": "int"}.get(short, ""), tg))
    if short in ("any", "all"):
        return fs(TRUE, FALSE)
    if short == "memoryview" and arr_of(a0):
        return arr_of(a0)
    if short in ("bytes", "bytearray", "memoryview"):
        return fs(Unk("bytes", tg))
    if short == "chr":
        return fs(Unk("str", tg))
    if short == "type":
        out = set()
        for v in a0:
            if isinstance(v, Ref) and v.obj.kind == "inst":
                out.add(ClassV(v.obj.cls))
            else:
                out.add(Unk("type"))
        return frozenset(out) or fs(TOP)
    if short == "print":
        return fs(NONE)
    if short == "slice":
        return fs(Unk("slice"))
    if short in ("vars", "locals", "globals", "dir"):
        return fs(Unk("dict"))
    if short == "property":
        return a0 or fs(TOP)
    b = getattr(builtins, short, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return fs(Unk("exception", frozenset(), short))
    return None


def call_obj_method(I, recv, name, args, n):
    """Method call on a non-instance receiver."""
    pos, star, kw, dstar = args
    av = all_vals(args)
    tg = tags_of((recv,)) | tags_of(av)
    a0 = pos[0] if pos else E
    I.event("method", n, name, [fs(recv)] + pos, kw, extra="dstar" if dstar else None)

    if isinstance(recv, Ref):
        o = recv.obj
        k = o.kind
        if k == "handle":
            if name in ("close", "__exit__", "__del__", "cleanup"):
                close_handle(I, o, n)
                return fs(NONE)
            I.emit_exc()
            if name == "__enter__":
                return fs(recv)
            if name == "open" and o.extra[0] in ("zip", "tar"):
                return new_handle(I, n, "file", pos, kw, "zip.open")
            if name in ("read", "readline", "read1", "peek"):
                size = a0 if a0 else None
                return fs(Unk("bytes", frozenset(("file",)), ("size", size)))
            if name == "readlines":
                return mk_list(I, n, "readlines", [Unk("str", frozenset(("file",)))])
            if name in ("create_group", "require_group", "create_dataset", "require_dataset", "get", "visititems"):
                for p in pos:
                    callback(I, p, n)
                return fs(Unk("h5", o.tags, ("h", o)))
            return fs(Unk("", o.tags | frozenset(("file",)), ("h", o)))
        if k == "exitstack":
            if name == "enter_context":
                I.add_elem(o, a0)
                v, add = enter(I, a0, _FakeItem(n))
                return v
            if name in ("close",):
                for x in list(o.elem):
                    if isinstance(x, Ref) and x.obj.kind == "handle":
                        close_handle(I, x.obj, n)
                return fs(NONE)
            if name in ("callback", "push"):
                for f in a0:
                    if isinstance(f, Meth) and f.name == "close":
                        I.add_elem(o, fs(f.recv))
                return fs(TOP)
            if name == "pop_all":
                c = I.alloc("exitstack", n)
                return fs(Ref(c))
        if k == "lock":
            if name == "acquire":
                I.ghost = I.ghost | fs(("lock", o.extra))
            elif name == "release":
                I.ghost = I.ghost - fs(("lock", o.extra))
            return fs(TRUE)
        if k == "dtype":
            if name == "newbyteorder":
                d = I.alloc("dtype", n, extra="nbo")
                I.set_field(d, "spec", o.fields.get("spec", fs(TOP)))
                I.set_field(d, "order", a0 or fs(Const("S")))
                return fs(Ref(d))
            return fs(TOP)
        if k == "struct":
            I.emit_exc()
            return fs(Unk("", tg))
        if k == "super":
            return fs(TOP)
        if k == "closing":
            return fs(TOP)
        r = container_method(I, recv, o, name, args, n, tg, a0)
        if r is not None:
            return r
    elif isinstance(recv, (Const, StrP)):
        return const_method(I, recv, name, args, n, tg)
    elif isinstance(recv, Unk):
        return unk_method(I, recv, name, args, n, tg, a0)
    return call_unknown(I, recv, name, args, n)


class _FakeItem:
    def __init__(self, n):
        self.context_expr = n


def container_method(I, recv, o, name, args, n, tg, a0):
    pos, star, kw, dstar = args
    k = o.kind
    arrayish = k in ("array", "nd") or (k == "any" and o.root is not None)
    maybe_any = k == "any"
    # numpy-like receivers
    if k in ("array", "nd", "any") and "out" in kw:
        for v in kw["out"]:
            if isinstance(v, Ref):
                I.mutated(v.obj, n, f".{name}(out=)")
    if k in ("array", "nd"):
        I.emit_exc()
        if name in ND_ALIAS_METHODS:
            return fs(recv)
        if name in ND_MUT_METHODS:
            I.mutated(o, n, f".{name}()")
            return fs(NONE)
        if name == "byteswap":
            ip = kw.get("inplace") or a0
            if any(v == TRUE for v in ip):
                I.mutated(o, n, ".byteswap(inplace=True)")
                return fs(recv)
            return fs(Unk("nd", tg))
        if name == "astype":
            cp = kw.get("copy")
            if cp and TRUE not in cp:
                return fs(recv, Unk("nd", tg))
            return fs(Unk("nd", tg, stated(pos, kw, 0)))
        if name == "tofile":
            I.event("filewrite", n, "ndarray.tofile", [a0])
            return fs(NONE)
        if name in ("map_blocks", "rechunk", "persist", "map_overlap"):
            callback(I, a0, n, args=[fs(recv)] + list(pos[1:]), extra="dask.array." + name,
                     kw={k: v for k, v in kw.items() if k not in DASK_KW})
            return fs(Unk("dask", tg))
        if name == "compute":
            return fs(Unk("nd", tg | LOADED))
        if name == "store":
            return fs(NONE)
        return fs(Unk("nd", tg))
    if name in ("items", "keys", "values") and not pos:
        if k == "inst":
            return fs(TOP)
        if k in ("list", "tuple", "set"):
            return frozenset()
        vals = set()
        for v in o.fields.values():
            vals |= v
        vals |= o.elem
        for p, deep in o.protos:
            pv = I.load_key(p, None)
            if deep:
                pv = frozenset(Ref(I.deepcopy_of(v.obj)) if isinstance(v, Ref) else v for v in pv)
            vals |= pv
        if o.root is not None:
            vals.add(Ref(I.child(o, "*")))
        keys = {Const(x) for x in o.fields if isinstance(x, (str, int, float, bytes, tuple))}
        for p, deep in o.protos:
            keys |= iter_one(I, Ref(p), n)
        if o.elem or o.root is not None or not keys:
            keys.add(Unk("", o.tags | (frozenset(("p:" + str(o.root[0]),)) if o.root else frozenset())))
        n = o.node if o.node is not None else n     # one view object per container, not per call site
        if name == "keys":
            return mk_list(I, n, ("keys", o.id), keys)
        if name == "values":
            return mk_list(I, n, ("values", o.id), vals or {TOP})
        return mk_list(I, n, ("items", o.id), [mk_tuple(I, n, ("items", o.id), [keys, vals or {TOP}])])
    if name in ("get", "get_item"):
        out = set()
        for key in a0:
            out |= I.load_key(o, key.v if isinstance(key, Const) else None)
        if len(pos) > 1:
            out |= pos[1]
        elif "default" in kw:
            out |= kw["default"]
        else:
            out.add(NONE)
        return frozenset(out)
    if name == "copy":
        return fs(copy_obj(I, recv, n))
    if name in ("as_dictionary", "to_dict"):
        return fs(Ref(I.deepcopy_of(o)))
    if name in ALL_MUT and k != "inst":
        if name in ("pop", "popitem", "remove", "__delitem__"):
            I.emit_exc()
        if name in ("append", "insert", "appendleft", "extend") and k == "list":
            t = I.order_now(o) | (order_of(a0) if name == "extend" else frozenset())
            if not t <= o.tags and not o.sorted:
                o.tags |= t
                I.changed = True
        if name == "sort" and k == "list":
            o.sorted, o.tags = True, o.tags - ORDER
        if name in ("append", "add", "insert", "appendleft"):
            I.add_elem(o, pos[-1] if pos else fs(TOP))
        elif name == "extend":
            I.add_elem(o, I.iter_elems(a0))
        elif name == "update":
            if k == "set":
                for p in pos:
                    I.add_elem(o, I.iter_elems(p))
            else:
                for v in a0:
                    if isinstance(v, Ref) and v.obj is not o:
                        I.add_proto(o, v.obj, deep=(k == "box"))
                    elif isinstance(v, Unk):
                        I.add_elem(o, fs(v))
                for kk, v in kw.items():
                    I.set_field(o, kk, v)
                for d in dstar:
                    if isinstance(d, Ref):
                        I.add_proto(o, d.obj)
        I.mutated(o, n, f".{name}()")
        if name == "pop" and k in ("dict", "box") and I._n_callees == 1:
            I.removed(fs(recv), a0)
        if name in ("pop", "popleft", "setdefault"):
            out = set()
            for key in (a0 or fs(Unk("int"))):
                out |= I.load_key(o, key.v if isinstance(key, Const) and k != "list" else None)
            out = set(picked((recv,), out))
            if len(pos) > 1:
                out |= pos[1]
                if name == "setdefault":
                    for key in a0:
                        if isinstance(key, Const):
                            I.set_field(o, key.v, pos[1])
                        else:
                            I.add_elem(o, pos[1])
            return frozenset(out) or fs(TOP)
        if name == "set_item":
            for key in a0:
                I.add_elem(o, pos[1] if len(pos) > 1 else fs(TOP))
        if name == "popitem":
            return fs(mk_tuple(I, n, "popitem", [I.iter_elems(fs(recv)), picked((recv,), I.load_key(o, None)) or fs(TOP)]))
        return fs(NONE)
    if k == "box" and name in ("set_item",):
        return fs(NONE)
    if k in ("list", "tuple", "generator", "set"):
        if name in ("index", "count"):
            I.emit_exc()
            return fs(Unk("int"))
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            el = set(I.iter_elems(fs(recv)))
            for p in pos:
                el |= I.iter_elems(p)
            return mk_list(I, n, "setop", el, kind="set")
        return fs(TOP)
    if k in ("dict", "kwargs", "box"):
        I.emit_exc()
        # box attribute holding a function, unknown method
        return fs(Unk("", tg))
    if k == "any":
        I.emit_exc()
        if name in ND_MUT_METHODS:
            I.mutated(o, n, f".{name}()")
        if name in ND_ALIAS_METHODS:
            return fs(recv)
        if name in WRITE_METHODS and name != "replace" or (name == "replace" and len(pos) == 1):
            I.event("filewrite", n, "method." + name, [fs(recv) if name not in ("tofile",) else a0])
            I.ghost = I.ghost | fs(("trunc",))
        if name in ("glob", "rglob", "iterdir"):
            return fs(Unk("list", tg | {"unsorted"}))
        if name == "open":
            return new_handle(I, n, "file", [fs(recv)] + pos, kw, "path.open")
        if name in ("lower", "upper", "strip", "replace", "format", "encode", "decode", "join"):
            return fs(Unk("str" if name != "encode" else "bytes", tg))
        if name in ("close",):
            return fs(NONE)
        if name in ("read", "readline"):
            return fs(Unk("bytes", frozenset(("file",)), ("size", a0 or None)))
        return fs(Unk("", tg, None))
    return None


def const_method(I, recv, name, args, n, tg):
    pos, star, kw, dstar = args
    I_emit = True
    if isinstance(recv, Const) and not kw and not dstar and star is None:
        cs = []
        ok = True
        for p in pos:
            if len(p) == 1 and isinstance(next(iter(p)), Const):
                cs.append(next(iter(p)).v)
            elif len(p) == 1 and isinstance(next(iter(p)), Ref) and next(iter(p)).obj.kind == "tuple" and \
                    all(len(v) == 1 and isinstance(next(iter(v)), Const) for v in next(iter(p)).obj.fields.values()) and not next(iter(p)).obj.elem:
                f = next(iter(p)).obj.fields
                cs.append(tuple(next(iter(f[i])).v for i in sorted(f)))
            else:
                ok = False
        if ok and isinstance(recv.v, (str, bytes)) and name in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "startswith", "endswith",
                                                                 "title", "capitalize", "encode", "decode", "format", "zfill", "ljust", "rjust", "find", "count"):
            try:
                r = getattr(recv.v, name)(*cs)
                return fs(Const(r))
            except Exception:
                return fs(TOP)
        if ok and isinstance(recv.v, (str, bytes)) and name in ("split", "splitlines", "rsplit", "partition", "rpartition"):
            try:
                r = getattr(recv.v, name)(*cs)
                o = I.alloc("tuple" if name.endswith("partition") else "list", n, extra=("split", recv))
                for i, x in enumerate(r):
                    if o.kind == "tuple":
                        I.set_field(o, i, fs(Const(x)))
                    else:
                        I.add_elem(o, fs(Const(x)))
                return fs(Ref(o))
            except Exception:
                return fs(TOP)
    if name == "format" and isinstance(recv, Const) and isinstance(recv.v, str) and "{" in recv.v and not any(c in recv.v for c in ("{:", "!")):
        import re
        parts, last, i = [[]], 0, 0
        for m in re.finditer(r"\{(\w*)\}", recv.v):
            parts = [x + [recv.v[last:m.start()]] for x in parts]
            last = m.end()
            key = m.group(1)
            if key == "" or key.isdigit():
                idx = i if key == "" else int(key)
                i += 1
                v = pos[idx] if idx < len(pos) else fs(TOP)
            else:
                v = kw.get(key, fs(TOP))
            if v and len(v) * len(parts) <= 16 and all(isinstance(x, (Const, StrP)) for x in v):
                parts = [x + list(parts_of(y)) for x in parts for y in v]
            else:
                parts = [x + [("?", tags_of(v))] for x in parts]
        return frozenset(mkstr(x + [recv.v[last:]]) for x in parts)
    if name == "join":
        t = tags_of(pos[0]) if pos else frozenset()
        # order of joined parts matters: keep order tags on the result
        el = frozenset()
        for v in pos[0] if pos else ():
            if isinstance(v, Ref):
                el |= tags_of(iter_one(I, v, n))
        return fs(Unk("str", t | el | tg))
    if name in ("startswith", "endswith", "isdigit", "isalpha"):
        if isinstance(recv, StrP) and pos and name == "endswith" and isinstance(recv.parts[-1], str):
            out = set()
            for v in pos[0]:
                if isinstance(v, Const) and isinstance(v.v, str) and len(recv.parts[-1]) >= len(v.v):
                    out.add(recv.parts[-1].endswith(v.v))
                else:
                    out |= {True, False}
            return frozenset(Const(b) for b in out)
        return fs(TRUE, FALSE)
    if name == "encode":
        return fs(Unk("bytes", tg))
    if name in ("split", "splitlines", "rsplit"):
        return mk_list(I, n, "split", [Unk("str", tg)])
    if name in ("lower", "upper", "strip", "lstrip", "rstrip") and isinstance(recv, StrP):
        f = lambda p: getattr(p, name)() if name in ("lower", "upper") else p
        return fs(mkstr(tuple(f(p) if isinstance(p, str) else p for p in recv.parts)))
    I.emit_exc()
    return fs(Unk("str" if isinstance(recv, StrP) or (isinstance(recv, Const) and isinstance(recv.v, str)) else "", tg))


PATH_ONLY = {"suffix", "suffixes", "stem", "parent", "parents", "with_suffix", "with_name", "with_stem", "exists", "is_file", "is_dir", "joinpath", "absolute", "resolve", "iterdir", "rglob", "as_posix", "stat", "read_text", "read_bytes"}
PATH_NAMES = {x for x in dir(pathlib.Path) if not x.startswith("_")} | {"__str__", "__fspath__", "__class__"}
LOGGING = {"debug", "info", "warning", "error", "critical", "exception", "log"}
STRM = {"lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "removeprefix", "removesuffix", "zfill", "format", "casefold"}


def unk_method(I, recv, name, args, n, tg, a0):
    pos, star, kw, dstar = args
    k = recv.kind
    if name in LOGGING and not (recv.tags):
        return fs(NONE)
    if k == "memory":
        if name in ("read", "getvalue", "readline"):
            return fs(Unk("bytes", frozenset(), ("size", a0 or None)))
        return fs(TOP)
    I.emit_exc()
    if recv.x and recv.x[0] == "h" and name == "close":
        close_handle(I, recv.x[1], n)
        return fs(NONE)
    if name in WRITE_METHODS and not (name == "replace" and (len(pos) != 1 or k == "str")) and not (name == "dump"):
        I.event("filewrite", n, "method." + name, [fs(recv) if name not in ("tofile", "savefig") else a0])
        I.ghost = I.ghost | fs(("trunc",))
        return fs(NONE) if name != "replace" else fs(Unk("", tg))
    if name in ("open",) and k in ("path", ""):
        if k == "" and pos and not any(isinstance(m, Const) and isinstance(m.v, str) and m.v and set(m.v) <= set("rwabxt+") for m in pos[0]):
            pos = pos[1:]       # something else that opens a named member
        return new_handle(I, n, "file", [fs(recv)] + pos, kw, "path.open")
    if name in ("glob", "rglob", "iterdir"):
        return fs(Unk("list", tg | {"unsorted"}))
    if k == "str" and name in PATH_ONLY:
        textop(I, n, f".{name}()", fs(recv))
    if k == "path" and I.track_paths and (name not in PATH_NAMES or name == "replace" and len(pos) > 1):
        pathop(I, n, f".{name}()", fs(recv))
    if k == "path":
        if name in ("with_suffix", "with_name", "resolve", "absolute", "expanduser", "joinpath", "with_stem", "relative_to"):
            return fs(Unk("path", tg))
        if name in ("exists", "is_file", "is_dir"):
            return fs(TRUE, FALSE)
        if name in ("read_text",):
            return fs(Unk("str", tg))
        if name in ("read_bytes",):
            return fs(Unk("bytes", tg))
        return fs(Unk("str", tg))
    if name in ("read", "readline", "read1", "peek", "recv") and k in ("", "h5"):
        return fs(Unk("bytes", frozenset(("file",)), ("size", a0 or None)))
    if name == "readlines":
        return mk_list(I, n, "readlines", [Unk("str", frozenset(("file",)))])
    if k in ("nd", "memmap"):
        if name == "astype":
            return fs(Unk("nd", tg, stated(pos, kw, 0)))
        if name in ("reshape", "transpose", "swapaxes", "squeeze", "ravel", "flatten", "copy"):
            return fs(Unk(k, tg, recv.x))
        if name in ("view", "byteswap", "newbyteorder"):
            return fs(Unk(k, tg))
        if name == "tolist":
            return fs(Unk("list", tg))
        return fs(Unk("nd", tg))
    if k == "dask":
        callback(I, a0, n, args=[fs(Unk("nd", recv.tags))] + list(pos[1:]), extra="dask.array." + name,
                 kw={kk: v for kk, v in kw.items() if kk not in DASK_KW})
        if name == "compute":
            return fs(Unk("nd", tg | LOADED))
        if name in ("store", "to_zarr", "to_hdf5"):
            return fs(NONE)
        return fs(Unk("dask", tg))
    if k == "h5":
        if name in ("get", "create_group", "require_group", "create_dataset", "require_dataset", "create_array", "require_array"):
            return fs(Unk("h5", recv.tags, recv.x))
        if name in ("visititems", "visit"):
            callback(I, a0, n, [fs(Unk("str")), fs(Unk("h5", recv.tags, recv.x))])
            return fs(NONE)
        if name in ("keys",):
            return mk_list(I, n, "h5keys", [Unk("str", recv.tags)])
        if name in ("values",):
            return mk_list(I, n, "h5vals", [Unk("h5", recv.tags, recv.x)])
        if name in ("items",):
            return mk_list(I, n, "h5items", [mk_tuple(I, n, "h5items", [fs(Unk("str", recv.tags)), fs(Unk("h5", recv.tags, recv.x))])])
        return fs(Unk("", recv.tags, recv.x))
    if name in ("items",):
        return mk_list(I, n, "unkitems", [mk_tuple(I, n, "unkitems", [fs(Unk("", recv.tags)), fs(Unk("", recv.tags))])])
    if name in STRM or (k == "str" and name == "replace"):
        return fs(Unk("str", tg - {"unsorted"}))
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition", "findall"):
        return mk_list(I, n, "split", [Unk("str", tg - {"unsorted"})])
    if name == "encode":
        return fs(Unk("bytes", tg))
    if name == "decode":
        return fs(Unk("str", tg))
    if name in ("startswith", "endswith", "isdigit", "exists", "is_file"):
        return fs(TRUE, FALSE)
    if name == "sort":
        return fs(NONE)
    if name in ("get", "pop", "setdefault"):
        return fs(Unk("", tg)) | (pos[1] if len(pos) > 1 else E)
    if k == "dtype" and name == "newbyteorder":
        d = I.alloc("dtype", n, extra="nbo-unk")
        I.set_field(d, "spec", fs(recv))
        I.set_field(d, "order", a0 or fs(Const("S")))
        return fs(Ref(d))
    for p in list(pos) + list(kw.values()):
        callback(I, p, n)
    return fs(Unk("", tg - {"unsorted"}, None))
