"""Checks decided on the syntax trees, the import graph and the plugin specifications."""
import ast
import os
import sys

from common import *
from project import enclosing, qualname, where, REPO


class AstCheck:
    level = "other"
    floors = {}
    assumptions = []

    def prepare(self, I):
        pass


def is_name(n, *names):
    return isinstance(n, ast.Name) and n.id in names


# ------------------------------------------------------------------ C06
class PluginContract(AstCheck):
    """Every plugin directory: its specifications.yaml against the functions its package exports and their signatures."""
    id = "C06"
    technique = "cross-check of the declarative plugin registry with the exported functions and their signatures"
    floors = {"plugins": 30, "signatures": 40, "specification fields": 250}
    BOOL = ("full_support", "non_uniform_axis")

    def static(self, I):
        import yaml
        r = Result()
        root = os.path.join(REPO, "rsciio")
        names = {}
        for d in sorted(os.listdir(root)):
            p = os.path.join(root, d, "specifications.yaml")
            pkg = I.p.modules.get("rsciio." + d)
            api = I.p.modules.get(f"rsciio.{d}._api")
            if not os.path.isfile(p):
                if api is not None:
                    r.add("not-registered", d, "a plugin package without specifications is never offered", f"rsciio/{d}")
                continue
            r.count("plugins")
            at = f"rsciio/{d}/specifications.yaml"
            try:
                with open(p, encoding="utf-8") as f:
                    s = yaml.load(f, Loader=yaml.SafeLoader)
            except yaml.YAMLError as ex:
                r.add("unreadable-specification", d, f"not valid YAML ({ex.__class__.__name__}): importing the plugin list fails", at)
                continue
            for k in ("name", "name_aliases", "description", "full_support", "file_extensions", "default_extension", "writes", "non_uniform_axis"):
                r.count("specification fields")
                if k not in s:
                    r.add("field-missing", f"{d}: {k}", "the registry entry lacks a field every user of the registry reads", at)
            ext = s.get("file_extensions")
            if not (isinstance(ext, list) and ext and all(isinstance(x, str) and x and not x.startswith(".") for x in ext)):
                r.add("bad-extensions", d, f"file_extensions is {ext!r}, not a list of extensions without dots", at)
                ext = []
            de = s.get("default_extension")
            if not (isinstance(de, int) and not isinstance(de, bool) and 0 <= de < max(1, len(ext))):
                r.add("bad-default-extension", d, f"default_extension {de!r} is not an index into the {len(ext)} extensions", at)
            if not isinstance(s.get("name"), str) or not isinstance(s.get("name_aliases"), list) or not all(isinstance(x, str) for x in s.get("name_aliases") or []):
                r.add("bad-name", d, "name must be a text and name_aliases a list of texts", at)
            else:
                for nm in {s["name"].lower()} | {x.lower() for x in s["name_aliases"]}:
                    if names.setdefault(nm, d) != d:
                        r.add("ambiguous-name", nm, f"two plugins ({names[nm]}, {d}) answer to the same name", at)
            for k in self.BOOL:
                if k in s and not isinstance(s[k], bool):
                    r.add("bad-flag", f"{d}: {k}", f"{s[k]!r} is not a boolean", at)
            w = s.get("writes")
            if not (isinstance(w, bool) or isinstance(w, list) and w and all(
                    isinstance(x, list) and len(x) == 2 and all(isinstance(y, int) and y >= 0 for y in x) for x in w)):
                r.add("bad-writes", d, f"writes is {w!r}, neither a boolean nor a list of dimension pairs", at)
            if pkg is None:
                r.add("package-missing", d, "the registry names a package that cannot be imported", at)
                continue
            exported = self.exported(pkg)
            for fn, need in (("file_reader", True), ("file_writer", bool(w))):
                fv = [v for v in self.resolve(I, pkg, fn)]
                if need and not fv:
                    r.add("function-missing", f"{d}: {fn}", f"the registry promises {fn}, the package does not define it", pkg.rel)
                    continue
                if need and exported is not None and fn not in exported:
                    r.add("not-exported", f"{d}: {fn}", f"{fn} is not in __all__ of the package", pkg.rel)
                if fn == "file_writer" and fv and not need:
                    r.add("writer-not-declared", d, "the package has a file_writer but the registry says the format cannot be written", at)
                for v in fv:
                    r.count("signatures")
                    self.signature(r, d, fn, v.info)
        r.sample(f"{r.counts.get('plugins', 0)} plugins, {len(names)} names")
        return r

    def exported(self, m):
        for n in m.tree.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if is_name(t, "__all__") and isinstance(n.value, (ast.List, ast.Tuple)):
                    return {x.value for x in n.value.elts if isinstance(x, ast.Constant)}
        return None

    def resolve(self, I, m, name):
        return [v for v in I.module_attr(m, name) if isinstance(v, FuncV)]

    def signature(self, r, d, fn, info):
        a = info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        first = ["filename"] if fn == "file_reader" else ["filename", "signal"]
        if pos[:len(first)] != first and not (len(pos) < len(first) and a.vararg):
            r.add("signature", f"{d}: {fn}", f"starts with ({', '.join(pos[:2])}) instead of ({', '.join(first)})", where(info.node))
            return
        req = pos[:len(pos) - nd]
        extra = [x for x in req if x not in first] + [k.arg for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is None]
        if extra:
            r.add("signature", f"{d}: {fn}: {','.join(extra)}", "an option without a default: the generic call file_reader(filename) / file_writer(filename, signal) fails", where(info.node))
        if [x for x in first if x not in req]:
            r.add("signature", f"{d}: {fn}: default", "filename or signal have a default", where(info.node))
        if fn == "file_reader":
            allp = pos + [k.arg for k in a.kwonlyargs]
            if "lazy" not in allp:
                r.add("signature", f"{d}: {fn}: lazy", "the reader has no lazy option", where(info.node))
            else:
                dflt = dict(zip(pos[len(pos) - nd:], a.defaults)) | {k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
                v = dflt.get("lazy")
                if not (isinstance(v, ast.Constant) and v.value is False):
                    r.add("signature", f"{d}: {fn}: lazy default", "lazy is not False by default", where(info.node))
        if any(isinstance(x, (ast.List, ast.Dict, ast.Set)) for x in a.defaults + [k for k in a.kw_defaults if k is not None]):
            r.count("mutable defaults")


# ------------------------------------------------------------------ C12
FATAL = {"BaseException", "KeyboardInterrupt", "SystemExit", "GeneratorExit"}


def always_raises(body):
    """Every path through these statements ends in raise (no return, break, continue, fall-through)."""
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(st, ast.If) and st.orelse and always_raises(st.body) and always_raises(st.orelse):
            return True
        if isinstance(st, (ast.With, ast.AsyncWith)) and always_raises(st.body):
            return True
        if isinstance(st, ast.Try):
            if always_raises(st.finalbody):
                return True
            if always_raises(st.body) and all(always_raises(h.body) for h in st.handlers):
                return True
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in walk_local(st)):
            return False
        if helper_raises(st):
            return True
    return False


def helper_raises(st, depth=0):
    """A call of a function of the module that passes on the exception being handled (a bare raise on every path)."""
    if not (isinstance(st, (ast.Expr, ast.Assign, ast.Return)) and isinstance(st.value, ast.Call)) or depth > 3:
        return False
    f = st.value.func
    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) and is_name(f.value, "self", "cls") else None
    fns = [n for n in ast.walk(st._module.tree) if isinstance(n, ast.FunctionDef) and n.name == nm] if nm else []
    return bool(fns) and all(not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_local(n)) and always_raises(n.body)
                             and all(x.exc is None or arg_of(st.value, n, x.exc) for b in n.body for x in walk_local(b) if isinstance(x, ast.Raise)) for n in fns)


def arg_of(call, fn, exc):
    """raise e in a helper that was given the caught exception."""
    h = enclosing(call, ast.ExceptHandler)
    if h is None or not h.name or not isinstance(exc, ast.Name):
        return False
    ps = [a.arg for a in fn.args.args]
    if ps and ps[0] in ("self", "cls"):
        ps = ps[1:]
    return any(is_name(a, h.name) and p == exc.id for p, a in zip(ps, call.args)) or any(k.arg == exc.id and is_name(k.value, h.name) for k in call.keywords)


def reraises(h):
    """The handler passes on what it caught: every path raises, and every raise statement raises the caught exception itself."""
    if not always_raises(h.body):
        return False
    for st in h.body:
        for x in walk_local(st):
            if isinstance(x, ast.Raise) and x.exc is not None and not (h.name and is_name(x.exc, h.name)):
                return False
    return True


def walk_local(n):
    """Nodes below n, not entering nested functions."""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)


def may_suppress(fn, v):
    """The value __exit__ returns can be true when the exception is an interrupt."""
    if isinstance(v, ast.Constant):
        return bool(v.value)
    if isinstance(v, ast.Call):
        if ast.unparse(v.func) in ("issubclass", "isinstance") and len(v.args) == 2:
            return fatal_name_plain(v.args[1])
        return ast.unparse(v.func).split(".")[-1] not in ("__exit__", "close")
    if isinstance(v, ast.BoolOp) and isinstance(v.op, ast.And):
        return all(may_suppress(fn, x) for x in v.values)
    if isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], (ast.Is, ast.Eq)):
        return fatal_name_plain(v.comparators[0])
    if isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], ast.In):
        return fatal_name_plain(v.comparators[0])
    return True


def fatal_name_plain(e):
    return any(isinstance(x, ast.Attribute) and x.attr in FATAL or isinstance(x, ast.Name) and x.id in FATAL for x in ast.walk(e))


def fatal_name(project, m, e, at, depth=0):
    """Fatal exception type an expression names, through tuples, concatenations and names bound in the function, class, module or another module."""
    if depth > 6:
        return None
    for x in ast.walk(e):
        if isinstance(x, ast.Attribute) and x.attr in FATAL or isinstance(x, ast.Name) and x.id in FATAL:
            return x.attr if isinstance(x, ast.Attribute) else x.id
    for x in ast.walk(e):
        if isinstance(x, (ast.Name, ast.Attribute)):
            nm = x.id if isinstance(x, ast.Name) else x.attr
            for src, val in bindings(project, m, nm, at):
                if val is not e:
                    r = fatal_name(project, src, val, at, depth + 1)
                    if r:
                        return r
    return None


def bindings(project, m, nm, at):
    scopes = []
    p = at
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.ClassDef)):
            scopes.append(p)
        p = p._parent
    for sc in scopes + [m.tree] + [c for c in m.tree.body if isinstance(c, ast.ClassDef)]:
        found = False
        todo = list(sc.body)
        while todo:
            b = todo.pop()
            if isinstance(b, ast.Assign) and any(is_name(t, nm) for t in b.targets) or isinstance(b, (ast.AnnAssign, ast.AugAssign)) and is_name(b.target, nm) and b.value is not None:
                found = True
                yield m, b.value
            elif isinstance(b, ast.ImportFrom) and any((a.asname or a.name) == nm for a in b.names):
                found = True
                base = b.module or ""
                if b.level:
                    pk = m.package().split(".")
                    base = ".".join(pk[:len(pk) - b.level + 1] + ([base] if base else []))
                o = project.modules.get(base)
                orig = next(a.name for a in b.names if (a.asname or a.name) == nm)
                if o is not None and o is not m:
                    yield from bindings(project, o, orig, None)
            elif isinstance(b, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                todo += [x for x in ast.iter_child_nodes(b) if isinstance(x, ast.stmt)]
                todo += [x for h in getattr(b, "handlers", []) for x in h.body]
        if found:
            return


class NoSwallowedInterrupt(AstCheck):
    """Every exception handler, suppress() and finally block: can it stop KeyboardInterrupt, SystemExit or an exception on its way out?"""
    id = "C12"
    technique = "path analysis of exception handlers, suppress() calls and finally blocks over all functions"
    floors = {"handlers": 100, "try statements": 100}

    def static(self, I):
        r = Result()
        self.project = I.p
        for name, m in sorted(I.p.modules.items()):
            fx = name in I.p.extra_names
            real = 0 if fx else 1
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and ast.unparse(n.func) in ("signal.signal", "signal.pthread_sigmask", "signal.siginterrupt"):
                    r.add("interrupt-swallowed", self.cons(n), f"{ast.unparse(n.func)} changes how interrupts arrive", where(n))
                if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                    r.count("try statements", real)
                    for st in n.finalbody:
                        for x in walk_local(st):
                            if isinstance(x, ast.Return) or isinstance(x, (ast.Break, ast.Continue)) and not self.own_loop(x, n):
                                r.add("finally-discards-exception", self.cons(x), f"{type(x).__name__.lower()} in a finally block discards the exception under way", where(x))
                    for st in n.finalbody:
                        if isinstance(st, ast.Raise) and st.exc is not None:
                            r.add("finally-discards-exception", self.cons(st), "raise in a finally block replaces the exception under way", where(st))
                    for h in n.handlers:
                        r.count("handlers", real)
                        fatal = self.fatal(m, h)
                        if not fatal:
                            continue
                        # an earlier handler of the same try may already let the fatal ones through
                        if reraises(h) or self.earlier_reraise(m, n, h):
                            continue
                        r.add("interrupt-swallowed", self.cons(h), f"except {ast.unparse(h.type) if h.type else ''} stops {fatal} instead of passing it on", where(h))
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    r.count("with statements", real)
                    for it in n.items:
                        c = it.context_expr
                        if isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] == "suppress":
                            for a in c.args:
                                if fatal_name(I.p, m, a, n):
                                    r.add("interrupt-swallowed", self.cons(n), f"suppress({ast.unparse(a)}) stops an interrupt", where(n))
                elif isinstance(n, ast.FunctionDef) and n.name == "__exit__":
                    r.count("context managers", real)
                    for x in walk_local(n):
                        if isinstance(x, ast.Return) and x.value is not None and may_suppress(n, x.value):
                            r.add("interrupt-swallowed", self.cons(x), "__exit__ can return a true value for an interrupt", where(x))
        r.sample(f"{r.counts.get('handlers', 0)} handlers")
        return r

    def cons(self, n):
        return f"{n._module.name}:{qualname(n)}"

    def own_loop(self, x, tr):
        p = x._parent
        while p is not None and p is not tr:
            if isinstance(p, (ast.For, ast.While)):
                return True
            p = p._parent
        return False

    def fatal(self, m, h):
        if h.type is None:
            return "every exception (KeyboardInterrupt included)"
        return fatal_name(self.project, m, h.type, h)

    def earlier_reraise(self, m, tr, h):
        got = set()
        for g in tr.handlers:
            if g is h:
                break
            if reraises(g) and g.type is not None:
                for t in (g.type.elts if isinstance(g.type, ast.Tuple) else [g.type]):
                    got.add(ast.unparse(t).split(".")[-1])
        return "BaseException" in got or {"KeyboardInterrupt", "SystemExit"} <= got


# ------------------------------------------------------------------ C19
IMPORT_ERRORS = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}
CORE = {"numpy", "dask", "dateutil", "pint", "box", "yaml", "packaging"}      # packaging is required by dask


# optional packages the documentation lists for a format (doc/user_guide/install.rst) or that these packages themselves require
EXTRAS = {"arina": {"h5py", "hdf5plugin"}, "blockfile": {"skimage"}, "delmic": {"h5py"}, "emd": {"h5py"}, "hspy": {"h5py"}, "image": {"PIL", "imageio"},
          "mrcz": {"mrcz"}, "nexus": {"h5py"}, "phenom": {"tifffile"}, "tiff": {"tifffile", "imagecodecs"}, "topspin": {"h5py"}, "tofwerk": {"h5py"},
          "usid": {"h5py", "pyUSID", "sidpy"}, "zspy": {"zarr", "numcodecs", "msgpack"}, "netcdf": {"scipy"}, "trivista": set(), "jeol": {"numba"}}
UTIL_EXTRAS = {"rsciio.utils.hdf5": {"h5py"}, "rsciio.utils._image": {"PIL"}, "rsciio.utils._skimage_exposure": {"skimage"},
               "rsciio.utils._fei_stream_readers": {"sparse"}}


def guarded_import(n):
    """Inside a try body that handles ImportError (by a fallback or by explaining what to install)."""
    child, p = n, n._parent
    while p is not None:
        if isinstance(p, ast.Try) and child in p.body:
            for h in p.handlers:
                ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                if any(t is None or ast.unparse(t).split(".")[-1] in IMPORT_ERRORS for t in ts):
                    return True
        child, p = p, p._parent
    return False


def duck_typed(n):
    """In a branch taken only for objects that offer an attribute (objects of the package itself): the package is installed then."""
    p = n._parent
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.Module)):
        if isinstance(p, ast.If) and any(isinstance(c, ast.Call) and is_name(c.func, "hasattr", "isinstance") for c in ast.walk(p.test)):
            return True
        p = p._parent
    return False


class OptionalDependencies(AstCheck):
    """The import-time closure of every module: third-party packages imported unconditionally when it is imported."""
    id = "C19"
    technique = "transitive import-graph analysis (imports executed unconditionally at import time)"
    floors = {"modules": 100, "module-level imports": 250, "plugins": 30, "imports reached": 40}

    def entries(self, I):
        return entries(I.p)

    def per_entry(self, I, e, res):
        """Imports inside the functions reached by this entry."""
        r = Result()
        r.count("entries")
        stdlib = set(sys.stdlib_module_names)
        allowed = CORE | {"rsciio", "rsciio_example"} | EXTRAS.get(e.plugin, set()) | UTIL_EXTRAS.get(e.mod, set())
        for ev in I.events.values():
            if ev.etype != "import":
                continue
            r.count("imports reached")
            names = [a.name for a in ev.node.names] if isinstance(ev.node, ast.Import) else [ev.node.module or ""]
            if isinstance(ev.node, ast.ImportFrom) and ev.node.level:
                continue
            for nm in names:
                top = nm.split(".")[0]
                if top in stdlib or top in allowed or guarded_import(ev.node) or duck_typed(ev.node):
                    continue
                r.add("optional-dependency-required", f"{e.ident}: {top}", f"{e.name} requires {top} on a path that does not depend on it being installed", ev.where())
        return r

    def static(self, I):
        r = Result()
        self.I = I
        self.direct = {}
        stdlib = set(sys.stdlib_module_names)
        for name, m in I.p.modules.items():
            ours, third = [], []
            for mod, node in self.imports(m):
                if name not in I.p.extra_names:
                    r.count("module-level imports")
                top = mod.split(".")[0]
                if top in ("rsciio", "rsciio_example") or mod in I.p.modules:
                    ours.append((mod, node))
                elif top not in stdlib and top != "__future__":
                    third.append((top, node))
            self.direct[name] = (ours, third)
        r.count("modules", len(I.p.modules) - len(I.p.extra_names))
        plugins = sorted(I.p.specs)
        r.count("plugins", len(plugins))
        for name in sorted(I.p.modules):
            plug = name.split(".")[1] if name.count(".") else ""
            allowed = CORE | (EXTRAS.get(plug, set()) if plug in plugins else UTIL_EXTRAS.get(name, set()))
            own = f"rsciio.{plug}"
            for top, path, node in self.closure(name):
                if top in allowed:
                    continue
                via = " -> ".join(path)
                if name not in I.p.extra_names and len(path) > 1 and path[1].startswith(own + ".") and plug in plugins:
                    continue         # reported at the module itself
                r.add("optional-dependency-required", f"{name}: {top}", f"importing {name} requires {top} (imported via {via})", where(node))
        r.sample(f"{len(self.direct)} modules")
        return r

    def imports(self, m):
        """(absolute module name, node) of the imports executed unconditionally when m is imported."""
        out = []

        def visit(stmts):
            for st in stmts:
                if isinstance(st, ast.Import):
                    for a in st.names:
                        out.append((a.name, st))
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ""
                    if st.level:
                        pk = m.name if m.is_pkg else m.name.rpartition(".")[0]
                        for _ in range(st.level - 1):
                            pk = pk.rpartition(".")[0]
                        base = pk + ("." + base if base else "")
                    out.append((base, st))
                    for a in st.names:
                        if f"{base}.{a.name}" in self.I.p.modules:
                            out.append((f"{base}.{a.name}", st))
                elif isinstance(st, ast.Try):
                    caught = set()
                    for h in st.handlers:
                        if always_raises(h.body):
                            continue
                        ts = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else (h.type.elts if h.type is not None else [])
                        caught |= {ast.unparse(t).split(".")[-1] for t in ts} or {"BaseException"}
                    if not caught & IMPORT_ERRORS:
                        visit(st.body)
                    visit(st.orelse if not caught & IMPORT_ERRORS else [])
                    visit(st.finalbody)
                elif isinstance(st, ast.If):
                    if "TYPE_CHECKING" in ast.unparse(st.test):
                        visit(st.orelse)
                        continue
                    if "find_spec" in ast.unparse(st.test) or "version" in ast.unparse(st.test).lower():
                        continue
                    visit(st.body)
                    visit(st.orelse)
                elif isinstance(st, (ast.With, ast.For, ast.While, ast.ClassDef)):
                    visit(st.body)
        visit(m.tree.body)
        return out

    def closure(self, name):
        seen, todo, out, done = {name}, [(name, (name,))], [], set()
        while todo:
            n, path = todo.pop(0)
            ours, third = self.direct.get(n, ((), ()))
            for top, node in third:
                if top not in done:
                    done.add(top)
                    out.append((top, path, node))
            for mod, node in ours:
                while mod and mod not in self.I.p.modules:
                    mod = mod.rpartition(".")[0]
                parts = mod.split(".")
                for k in range(1, len(parts) + 1):
                    x = ".".join(parts[:k])
                    if x and x not in seen and x in self.I.p.modules:
                        seen.add(x)
                        todo.append((x, path + (x,)))
        return out


AST = [PluginContract, NoSwallowedInterrupt, OptionalDependencies]
