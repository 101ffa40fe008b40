"""Checks decided on the whole-program abstract interpretation of every public entry point."""
import ast

from common import *
from project import enclosing


# ------------------------------------------------------------------ helpers
def site(node):
    return f"{node._module.rel}:{getattr(node, 'lineno', 0)} ({qualname(node)})"


def func_of(node):
    """Stable function identity of a node."""
    return f"{node._module.name}:{qualname(node)}"


def reach(vals, deep=False, limit=20000):
    """Heap objects reachable from values (what the caller could touch)."""
    seen, todo, out = set(), list(vals), []
    while todo and len(seen) < limit:
        v = todo.pop()
        if not isinstance(v, Ref) or v.obj in seen:
            continue
        o = v.obj
        seen.add(o)
        out.append(o)
        todo.extend(contents(o))
    return out


def contents(o, depth=0, seen=None, skip=None):
    seen = seen if seen is not None else set()
    if o in seen:
        return
    seen.add(o)
    for k, vs in o.fields.items():
        if skip is None or not skip(k):
            yield from vs
    yield from o.elem
    for src, dp in o.protos:
        if not dp:
            yield from contents(src, depth + 1, seen, skip)


def values_reach(vals, limit=40000, skip=None):
    """All abstract values reachable from vals, contents included (but not below the keys skip() accepts)."""
    seen, todo = set(), list(vals)
    while todo and len(seen) < limit:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        if isinstance(v, Ref):
            todo.extend(contents(v.obj, skip=skip))
    return seen


def opener(h):
    return h.extra[1] if h.extra else "?"


class FlowCheck:
    """One rule evaluated on every entry point's abstract execution."""
    kinds = ("reader", "writer", "extra")
    floors = {}
    level = "other"
    technique = "whole-program abstract interpretation"
    allow = {}

    def entries(self, I):
        es = [e for e in entries(I.p) if e.kind in self.kinds]
        return [e for e in es if self.wants(e)]

    def wants(self, e):
        return True

    def prepare(self, I):
        pass

    def per_entry(self, I, e, res):
        raise NotImplementedError

    def static(self, I):
        return None


def returned(res):
    out = set()
    for g, v in res[0].items():
        out |= v
    return out


# ------------------------------------------------------------------ C01
class InputsUnchanged(FlowCheck):
    id = "C01"

    def wants(self, e):
        return e.mod != "rsciio.utils.xml"      # converters that fill a box the caller hands in: not reading or writing a file

    technique = "interprocedural alias and mutation (effect) analysis over an abstract interpretation"
    floors = {"entries": 60, "calls analysed": 3000, "stores and mutator calls on abstract objects": 300}
    # deliberate in/out objects, documented as such
    ALLOW = {("quantumdetector._api.load_mib_data", "mib_prop"): "the MIBProperties argument is the parsed-header object the reader hands in to be completed"}

    def prepare(self, I):
        I.record_all_mutations = True

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        r.count("calls analysed", I.stats["calls"])
        for ev in I.events.values():
            if ev.etype == "mutate-local":
                r.count("stores and mutator calls on abstract objects")
            if ev.etype != "mutate":
                continue
            r.count("stores and mutator calls on abstract objects")
            objs = [v.obj for p in ev.pos for v in p if isinstance(v, Ref)]
            for o in objs:
                if o.root is None:
                    continue
                root = str(o.root[0])
                path = "/".join(map(str, o.root))
                if root == "filename" or "!list" in path:
                    continue
                if (e.ident, root) in self.ALLOW or (e.plugin == "quantumdetector" and root == "mib_prop"):
                    r.count("documented in/out arguments")
                    continue
                how = sorted(ev.extra)[0] if ev.extra else "store"
                r.add("argument-mutated", f"{e.ident}: {path}",
                      f"{how} modifies the caller's object {path}", ev.where())
                break
        r.sample(f"{e.name}: {len(I.reached)} functions, no store reaches an argument" if not r.findings else f"{e.name}: {r.findings[0].message}")
        return r


# ------------------------------------------------------------------ C02
BACKING = {"h5py.File", "tifffile.TiffFile", "zarr.storage.ZipStore", "zarr.ZipStore", "zarr.open", "netCDF4.Dataset", "zipfile.ZipFile",
           "mmap.mmap"}


class HandlesReleased(FlowCheck):
    id = "C02"
    technique = "typestate (open/closed) dataflow over every normal and exceptional path"
    floors = {"entries": 60, "handle acquisitions": 60, "paths ends examined": 150}

    def entries(self, I):
        es = FlowCheck.entries(self, I)
        for e in es:
            if e.kind == "writer":
                fv = next(v for v in I.p.modules[e.mod].globals[e.fn] if isinstance(v, FuncV))
                if "close_file" in fv.info.params:
                    e.fixed["close_file"] = frozenset((TRUE,))
        return es

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        rets, excs = res
        opens = {(id(ev.node), ev.label) for ev in I.events.values() if ev.etype == "open"}
        r.count("handle acquisitions", len(opens))
        r.count("paths ends examined", len(rets) + len(excs))

        def report(h, how):
            name = opener(h)
            if h.tags & {"user-handle"}:
                return
            r.add("handle-left-open", f"{e.ident}: {name} on {how}",
                  f"the {name} handle opened here is still open when {'an exception leaves' if how == 'exception' else 'control leaves'} {e.name}",
                  site(h.node))
        for g in rets:
            for x in g:
                if x[0] == "open":
                    if e.kind == "reader" and e.lazy and opener(x[1]) in BACKING:
                        r.count("handles kept to back lazy data")
                        continue
                    report(x[1], "return")
        for g in excs:
            for x in g:
                if x[0] == "open":
                    report(x[1], "exception")
        for ev in I.events.values():
            if ev.etype == "cb-leak":
                h = next(iter(ev.pos[0])).obj
                if opener(h) in BACKING and "return" in ev.extra and "exception" not in ev.extra:
                    continue
                report(h, "a deferred read")
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: {len(opens)} acquisitions, {len(rets)} return states, {len(excs)} exception states")
        return r


def dedup(fs):
    seen, out = set(), []
    for f in fs:
        k = (f.key, f.where)
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


# ------------------------------------------------------------------ C03
CODE_SINKS = {"builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "importlib.import_module", "runpy.run_path", "runpy.run_module",
              "code.interact", "types.FunctionType", "importlib.reload", "importlib.__import__"}
UNPICKLE = {"pickle.load", "pickle.loads", "pickle.Unpickler", "_pickle.load", "_pickle.loads", "cPickle.load", "cPickle.loads", "dill.load", "dill.loads", "cloudpickle.load",
            "cloudpickle.loads", "joblib.load", "marshal.load", "marshal.loads", "shelve.open", "pandas.read_pickle", "torch.load",
            "jsonpickle.decode", "jsonpickle.loads", "numpy.lib.npyio.load", "pickle._Unpickler", "pickle._load", "pickle._loads"}
PROC = {"os.system", "os.popen", "os.startfile", "pty.spawn", "webbrowser.open", "ctypes.CDLL", "ctypes.cdll.LoadLibrary", "os.fork", "ctypes.WinDLL"}
PROC_PREFIX = ("subprocess.", "os.exec", "os.spawn", "os.posix_spawn", "socket.", "urllib.request.", "requests.", "http.client.", "ftplib.", "asyncio.create_subprocess", "urllib3.", "multiprocessing.Process")
XML_BAD = ("lxml.", "xml.sax.", "xml.dom.pulldom.")
XML_OK = ("xml.etree.", "xml.dom.minidom.", "xml.parsers.expat")


def const_strings_only(vals):
    return bool(vals) and all(isinstance(v, Const) and isinstance(v.v, (str, bytes)) for v in vals)


class NoCodeExecution(FlowCheck):
    id = "C03"
    technique = "reachability of interpreter, unpickling, process and network sinks with constant-argument resolution"
    floors = {"entries": 60, "external calls checked": 3000, "structured-data decoders seen": 4}

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        for ev in I.events.values():
            if ev.etype not in ("extcall", "method"):
                continue
            r.count("external calls checked")
            n = ev.label
            if ev.etype == "method":
                continue
            bad = None
            if n in CODE_SINKS:
                a = ev.arg(0, "source" if n != "importlib.import_module" else "name")
                if const_strings_only(a):
                    r.count("interpreter calls on literal text of the package")
                else:
                    bad = f"{n} receives text that is not a literal of the package"
            elif n in UNPICKLE:
                bad = f"{n} unpickles"
            elif n in ("numpy.load", "numpy.lib.format.read_array", "numpy.lib.format.open_memmap", "numpy.fromregex"):
                r.count("structured-data decoders seen")
                ap = ev.arg(2 if n == "numpy.load" else (1 if n.endswith("read_array") else None), "allow_pickle")
                bads = [v for v in ap if not (isinstance(v, Const) and v.v in (False, None, 0)) and not passed_through(v)]
                if bads:
                    bad = f"{n} with pickles allowed"
            elif n in ("yaml.load", "yaml.load_all"):
                ld = ev.arg(1, "Loader")
                if not ld or not all(isinstance(v, Ext) and v.name.rpartition(".")[2] in ("SafeLoader", "CSafeLoader", "BaseLoader") for v in ld):
                    bad = f"{n} without a safe loader"
            elif n in ("yaml.unsafe_load", "yaml.full_load", "yaml.unsafe_load_all", "yaml.full_load_all"):
                bad = f"{n}"
            elif n in PROC or n.startswith(PROC_PREFIX):
                bad = f"{n} starts a process, loads native code or opens a connection"
            elif n.startswith(XML_BAD):
                bad = f"{n} may resolve external entities"
            elif n.startswith(XML_OK) or n in ("json.loads", "json.load", "ast.literal_eval"):
                r.count("structured-data decoders seen")
            elif n == "numcodecs.Pickle":
                bad = "the pickle codec stores code"
            if bad:
                r.add("code-execution", f"{e.ident}: {n}", bad, ev.where())
        # attribute lookup by name on external modules with text from outside
        for ev in I.events.values():
            if ev.etype == "extcall" and ev.label == "builtins.getattr":
                a, nm = ev.arg(0), ev.arg(1)
                if any(isinstance(v, (ModV,)) or (isinstance(v, Ext) and v.name in ("builtins", "os", "sys", "subprocess", "importlib")) for v in a) \
                        and not const_strings_only(nm) and any("file" in tags_of((v,)) for v in nm):
                    r.add("code-execution", f"{e.ident}: getattr", "attribute of a module chosen by file content", ev.where())
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: {len(I.events)} events")
        return r

    def static(self, I):
        """Restricted unpicklers: subclassing pickle.Unpickler requires a find_class that only returns listed names."""
        r = Result()
        for m in I.p.modules.values():
            for node in ast.walk(m.tree):
                if isinstance(node, ast.ClassDef) and any("Unpickler" in ast.unparse(b) for b in node.bases):
                    r.count("unpickler classes")
                    self.unpickler(I, m, node, r)
        return r

    def unpickler(self, I, m, node, r):
        ident = f"{m.name}:{qualname(node)}"
        fc = next((s for s in node.body if isinstance(s, ast.FunctionDef) and s.name == "find_class"), None)
        if any(isinstance(s, ast.FunctionDef) and s.name in ("persistent_load",) for s in node.body):
            pass
        if fc is None:
            r.add("unrestricted-unpickler", ident, "unpickler without find_class", f"{m.rel}:{node.lineno}")
            return
        args = [a.arg for a in fc.args.args]
        modp, namep = (args + ["", "", ""])[1:3]
        for ret in ast.walk(fc):
            if not isinstance(ret, ast.Return) or ret.value is None or (isinstance(ret.value, ast.Constant)):
                continue
            if not self.guarded(m, fc, ret, modp, namep):
                r.add("unrestricted-unpickler", ident,
                      "find_class returns an object whose (module, name) was not checked against a fixed list",
                      f"{m.rel}:{ret.lineno} ({ident})")
            else:
                r.count("guarded find_class returns")

    def consts(self, m, e):
        """strings/tuples of a literal container or module constant, else None"""
        if isinstance(e, ast.Name):
            for s in m.tree.body:
                tgt = s.targets[0] if isinstance(s, ast.Assign) else (s.target if isinstance(s, ast.AnnAssign) else None)
                if isinstance(tgt, ast.Name) and tgt.id == e.id and s.value is not None:
                    return self.consts(m, s.value)
            return None
        if isinstance(e, ast.Attribute):
            for c in ast.walk(m.tree):
                if isinstance(c, ast.Assign) and isinstance(c.targets[0], ast.Name) and c.targets[0].id == e.attr:
                    return self.consts(m, c.value)
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "set", "tuple", "list", "dict") and e.args:
            return self.consts(m, e.args[0])
        try:
            return ast.literal_eval(e)
        except Exception:
            return None

    def guarded(self, m, fc, ret, modp, namep):
        """The return is dominated by a membership/equality test that pins both module and name."""
        pinned = set()
        rv = ret.value
        conds = []
        p, child = ret._parent, ret
        while p is not fc and p is not None:
            if isinstance(p, ast.If):
                conds.append((p.test, child in p.body))
            p, child = p._parent, p
        # earlier "if not allowed: raise/return" statements of the enclosing blocks
        p, child = ret._parent, ret
        while p is not None:
            for blk in ("body", "orelse"):
                b = getattr(p, blk, None)
                if isinstance(b, list) and child in b:
                    for s in b[:b.index(child)]:
                        if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Raise, ast.Return)) and not s.orelse:
                            if isinstance(s.body[-1], ast.Raise):
                                conds.append((s.test, False))
            if p is fc:
                break
            p, child = p._parent, p
        for t, pos in conds:
            self.pin(m, t, pos, modp, namep, pinned)
        # lookup in a fixed table:  return TABLE[module, name] / TABLE[name]
        if isinstance(rv, ast.Subscript):
            tab = self.consts(m, rv.value)
            names = {x.id for x in ast.walk(rv.slice) if isinstance(x, ast.Name)}
            base = rv.value
            literal = isinstance(base, (ast.Dict, ast.Name, ast.Attribute))
            if (tab is not None or literal) and namep in names:
                return True
        if isinstance(rv, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Name) and x.id in (modp, namep) for x in ast.walk(rv)):
            # returns a fixed object of the package (or local variable computed before)
            if isinstance(rv, ast.Attribute):
                return True
        return {modp, namep} <= pinned

    def pin(self, m, t, pos, modp, namep, pinned):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.pin(m, t.operand, not pos, modp, namep, pinned)
        if isinstance(t, ast.BoolOp):
            if (isinstance(t.op, ast.And) and pos) or (isinstance(t.op, ast.Or) and not pos):
                for v in t.values:
                    self.pin(m, v, pos, modp, namep, pinned)
            return
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op = t.ops[0]
            left, right = t.left, t.comparators[0]
            ok = isinstance(op, (ast.In, ast.Eq)) if pos else isinstance(op, (ast.NotIn, ast.NotEq))
            if not ok:
                return
            names = {x.id for x in ast.walk(left) if isinstance(x, ast.Name)}
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(left, (ast.Name, ast.Tuple, ast.JoinedStr, ast.BinOp)):
                tab = self.consts(m, right)
                dictlike = isinstance(right, (ast.Name, ast.Attribute, ast.Subscript, ast.Call, ast.Set, ast.List, ast.Tuple, ast.Dict))
                if tab is not None or dictlike:
                    pinned |= names
                if isinstance(right, ast.Subscript):   # name in ALLOWED[module]
                    pinned |= {x.id for x in ast.walk(right.slice) if isinstance(x, ast.Name)}
                if isinstance(right, ast.Call):        # name in ALLOWED.get(module, ())
                    pinned |= {x.id for x in ast.walk(right) if isinstance(x, ast.Name)}
            elif isinstance(op, (ast.Eq, ast.NotEq)):
                if self.consts(m, right) is not None:
                    pinned |= names


def is_user_option(v):
    """A value the caller passed (explicit choice of the user)."""
    return isinstance(v, Ref) and v.obj.root is not None


def passed_through(v):
    """A keyword of the external library's own that the caller handed over unread; an option of the package itself is the package's promise."""
    return is_user_option(v) and len(v.obj.root) > 1


# ------------------------------------------------------------------ C04
FS_MUTATORS = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.rmdir", "os.removedirs", "os.mkdir", "os.makedirs", "os.truncate", "os.chmod",
               "os.chown", "os.utime", "os.symlink", "os.link", "os.mkfifo", "shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.copytree",
               "shutil.move", "shutil.rmtree", "shutil.unpack_archive", "shutil.make_archive", "os.renames", "os.mknod", "os.lchmod", "shutil.copyfileobj"}


class ReadersReadOnly(FlowCheck):
    id = "C04"

    def wants(self, e):
        return e.mod != "rsciio.utils.path"     # ensure_directory: making the directory is what it is for

    technique = "effect analysis: every file-system write reachable from an entry point, with abstract path and mode values"
    floors = {"entries": 60, "file openings resolved": 70}
    TEMP = ("tempfile.",)

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        for ev in I.events.values():
            w, path = None, E
            if ev.etype == "open":
                r.count("file openings resolved")
                if ev.label.startswith("tempfile."):
                    continue
                path = ev.arg(0)
                modes = ev.arg(1)
                for m in modes:
                    if isinstance(m, Const):
                        if isinstance(m.v, str) and any(c in m.v for c in "wax+"):
                            w = f"opens a file with mode {m.v!r}"
                        if m.v is True and ev.label == "zarr.group":
                            w = "overwrites a store"
                    elif is_user_option(m):
                        r.count("modes chosen by the caller")
                    else:
                        w = "opens a file with a computed mode"
            elif ev.etype == "filewrite":
                path = ev.arg(0)
                w = f"{ev.label} writes a file"
                if any(isinstance(v, Ref) and v.obj.kind == "handle" for v in path):
                    # writing through a handle: already judged where the handle was opened
                    if e.kind == "writer":
                        continue
            elif ev.etype == "extcall" and (ev.label in FS_MUTATORS):
                path = ev.arg(0)
                w = f"{ev.label} changes the file system"
            if not w:
                continue
            if e.kind == "writer":
                r.count("writer effects")
                tg = tags_of(path)
                ok = "p:filename" in tg or any(isinstance(v, Unk) and v.kind in ("memory",) for v in path) or not path
                if not ok and all(isinstance(v, Unk) and not v.tags for v in path):
                    r.count("writer effects with unresolved path")
                    ok = True
                if not ok:
                    r.add("write-elsewhere", f"{e.ident}: {ev.label}", f"{w}, at a path that does not derive from the destination", ev.where())
                continue
            if ev.label in ("zarr.open", "zarr.open_group") and e.plugin == "zspy" and all(
                    is_user_option(m) or (isinstance(m, Const) and m.v in ("r", "r+")) for m in ev.arg(1)):
                r.count("documented writable lazy store")
                continue
            r.add("reader-writes", f"{e.ident}: {ev.label}", w, ev.where())
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: " + ", ".join(sorted({x.label for x in I.events.values() if x.etype in ('open', 'filewrite')}))[:150])
        return r


# ------------------------------------------------------------------ C05
class RejectBeforeTruncate(FlowCheck):
    id = "C05"
    kinds = ("writer",)
    technique = "typestate dataflow: deliberate rejections are only raised while the destination is untouched"
    floors = {"entries": 14, "explicit raises reached": 15, "destination openings": 12}

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        r.count("explicit raises reached", sum(ev.etype == "raise" for ev in I.events.values()))
        r.count("destination openings", sum(ev.etype in ("open", "filewrite") for ev in I.events.values()))
        # the same check made once more after opening (a second line of defence) is not a late rejection
        early = {(x[1], raise_text(x[1])) for g in res[1] if ("trunc",) not in g for x in g if x[0] == "raised"}
        late = {x[1] for g in res[1] if ("trunc",) in g for x in g if x[0] == "raised"}
        guards = {id(st._parent): st for st in late if (st, raise_text(st)) in early and isinstance(st._parent, ast.If)}
        if guards:
            # ... provided some path really makes it first and then goes on to open the destination
            r.count("checks repeated after opening followed along the paths", len(guards))
            I.track_guards = guards
            try:
                res2 = I.run_entry(e.mod, e.fn, e.spec())
            finally:
                I.track_guards = {}
            made = {x[1] for part in res2 for g in part if ("trunc",) in g for x in g if x[0] == "passed"}
            early = {(st, t) for st, t in early if st not in guards.values() or st in made}
        for g in res[1]:
            if ("trunc",) not in g:
                continue
            for x in g:
                if x[0] == "raised":
                    st = x[1]
                    if (st, raise_text(st)) in early:
                        r.count("checks repeated after opening")
                        continue
                    exc = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
                    name = ast.unparse(exc) if exc is not None else "raise"
                    r.add("reject-after-truncate", f"{e.ident}: {func_of(st).split(':')[0].split('.')[-2] if False else ''}{name} \"{raise_text(st)}\"",
                          f"{name} is raised after the destination was opened for writing", site(st))
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: {len(res[1])} exceptional exits, {r.counts['explicit raises reached']} explicit raises")
        return r


def raise_text(st):
    if isinstance(st.exc, ast.Call) and st.exc.args:
        a = st.exc.args[0]
        parts = [c.value for c in ast.walk(a) if isinstance(c, ast.Constant) and isinstance(c.value, str)]
        return " ".join(" ".join(parts).split())[:50]
    return ""


# ------------------------------------------------------------------ C13
class NoCrossCallState(FlowCheck):
    id = "C13"
    technique = "effect and escape analysis of module-level, class-level and default-argument objects"
    floors = {"entries": 60, "module-level mutable objects": 60, "returned objects examined": 500}
    # bookkeeping of open handles: keyed by path, guarded, cannot change what is read
    ALLOW = ("rsciio.hspy._api:_lazy_file_handles",)
    # only decides whether a hint is logged again
    ALLOW_GLOBAL = ("rsciio.bruker._api:warn_once",)

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        for ev in I.events.values():
            if ev.etype == "mutate":
                for v in (ev.pos[0] if ev.pos else ()):
                    if isinstance(v, Ref) and v.obj.static and v.obj.root is None:
                        if v.obj.static in self.ALLOW:
                            r.count("bookkeeping objects")
                            continue
                        r.add("shared-object-mutated", f"{e.ident}: {v.obj.static.split(':')[-1]}",
                              f"modifies the module-level object {v.obj.static}, which outlives the call", ev.where())
            elif ev.etype == "global-store" and ev.label in self.ALLOW_GLOBAL:
                r.count("bookkeeping objects")
            elif ev.etype == "global-store":
                r.add("global-assigned", f"{e.ident}: {ev.label.split(':')[-1]}", f"assigns the module global {ev.label}", ev.where())
            elif ev.etype == "class-store":
                r.add("class-attribute-assigned", f"{e.ident}: {ev.label.split(':')[-1]}", f"assigns the class attribute {ev.label}", ev.where())
        objs = reach(returned(res))
        r.count("returned objects examined", len(objs))
        for o in objs:
            if o.static and o.root is None and o.kind in ("dict", "list", "set", "box", "inst", "kwargs", "array", "nd"):
                if o.static in self.ALLOW:
                    continue
                r.add("module-object-returned", f"{e.ident}: {o.static.split(':')[-1]}",
                      f"the returned value contains the module-level {o.kind} {o.static} itself, so changing the result changes later calls",
                      site(o.node) if o.node is not None else o.static)
        for d in ("lru_cache", "cache"):
            pass
        for info in I.reached:
            for d in info.decos:
                if d.split(".")[-1] in ("lru_cache", "cache"):
                    r.add("memoised", f"{e.ident}: {info.name}", f"{info.qual} caches results across calls", site(info.node))
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: {len(objs)} returned objects")
        return r

    def static(self, I):
        r = Result()
        r.count("module-level mutable objects", len({o for o in I.allocs.values() if o.static and o.kind in ("dict", "list", "set")}))
        return r


# ------------------------------------------------------------------ C14
CLOCK = {"time.time", "time.localtime", "time.gmtime", "time.ctime", "time.strftime", "time.asctime", "time.monotonic", "time.perf_counter", "time.time_ns",
         "datetime.datetime.now", "datetime.datetime.today", "datetime.date.today", "datetime.datetime.utcnow"}


CLOCK = ("time.time", "time.localtime", "datetime.datetime.now", "datetime.datetime.today", "datetime.date.today",
         "datetime.datetime.utcnow", "time.strftime", "time.ctime", "time.gmtime", "time.time_ns", "time.perf_counter", "time.monotonic")


class Deterministic(FlowCheck):
    id = "C14"
    technique = "information-flow (taint) analysis from clock, time zone, environment, directory order and random sources"
    floors = {"entries": 60, "values examined for environment taint": 3000, "text openings": 6}
    kinds = ("reader", "writer", "extra")

    SRC = {"clock": "the current time", "tz": "the local time zone", "random": "a random source", "environ": "the process environment",
           "unsorted": "directory listing order", "set-order": "set iteration order", "order-pick": "directory listing or set order", "locale": "the locale", "id": "object identity"}

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        vals = values_reach(returned(res) if e.kind != "writer" else (), skip=lambda k: k == "FileIO")
        r.count("values examined for environment taint", len(vals))
        for v in vals:
            for t in tags_of((v,)):
                if t in self.SRC:
                    n = len({id(ev.node) for ev in I.events.values() if ev.etype == "extcall" and ev.label.startswith("datetime.") and ev.label in CLOCK}) if t == "clock" else 0
                    r.add("result-depends-on-" + t, e.ident + (f" ({n} clock reads)" if n else ""), f"the returned value depends on {self.SRC[t]}", e.name)
        objs = {v.obj for v in vals if isinstance(v, Ref)}
        for ev in I.events.values():
            if ev.etype == "setitem" and any(isinstance(v, Ref) and v.obj in objs for v in ev.arg(0)):
                for t in sorted(tags_of(ev.arg(1)) & set(self.SRC)):
                    r.add("key-depends-on-" + t, f"{e.ident}: {ev.fnqual()}", f"a key of the returned value depends on {self.SRC[t]}", ev.where())
            if ev.etype == "setitem" and tags_of(ev.arg(1)) & {"ordinal", "order-pick"} and any(isinstance(v, Unk) for v in ev.arg(0)):
                r.add("filled-in-arbitrary-order", f"{e.ident}: {ev.fnqual()}", "an array is filled at positions counted in an arbitrary order", ev.where())
            if ev.etype == "open" and ev.label in ("builtins.open", "io.open", "codecs.open", "path.open"):
                modes = ev.arg(1)
                if all(isinstance(m, Const) and isinstance(m.v, str) and "b" not in m.v for m in modes) \
                        and (ev.label != "path.open" or any(isinstance(v, Unk) and v.kind == "path" for v in ev.arg(0))):
                    r.count("text openings")
                    if not ev.kw.get("encoding"):
                        r.add("locale-encoding", f"{e.ident}: {ev.label}", "text file read or written in the locale's encoding", ev.where())
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: {len(vals)} values")
        return r


# ------------------------------------------------------------------ C18
def narrows(st):
    """assert name is not None, where name is None exactly when C is false and the assert is guarded by C: a hint for type checkers."""
    t = st.test
    if not (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and len(t.ops) == 1 and isinstance(t.ops[0], ast.IsNot)
            and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None):
        return False
    return guarded_name(st, t.left.id, 2)


def guarded_name(st, name, depth):
    fn = enclosing(st, ast.FunctionDef)
    if fn is None:
        return False
    params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
    if name in params:
        # decided where the function is called
        sites = [c for c in ast.walk(fn._module.tree) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == fn.name]
        names = []
        for c in sites:
            a = next((k.value for k in c.keywords if k.arg == name), None)
            if a is None and params.index(name) < len(c.args):
                a = c.args[params.index(name)]
            names.append(a.id if isinstance(a, ast.Name) else None)
        return bool(sites) and depth > 0 and all(n and guarded_name(c, n, depth - 1) for c, n in zip(sites, names))
    binds = [b for b in ast.walk(fn) if isinstance(b, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in b.targets)]

    def none(v):
        return isinstance(v, ast.Constant) and v.value is None
    cond = None
    if len(binds) == 1 and isinstance(binds[0].value, ast.IfExp) and none(binds[0].value.orelse):
        cond = ast.dump(binds[0].value.test)
    elif len(binds) == 2:
        for x, y in (binds, binds[::-1]):
            i = x._parent
            if none(y.value) and isinstance(i, ast.If) and x in i.body and (y in i.orelse or y._parent is i._parent and y.lineno < i.lineno):
                cond = ast.dump(i.test)
    n, child = st._parent, st
    while cond is not None and n is not None and n is not fn:
        if isinstance(n, ast.If) and cond in [ast.dump(x) for x in conjuncts(n.test if child in n.body else negated(n.test))]:
            return True
        n, child = n._parent, n
    return False


def negated(t):
    return t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)


def conjuncts(t):
    return [y for x in t.values for y in conjuncts(x)] if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]


class ValidationSurvivesOptimise(FlowCheck):
    id = "C18"
    technique = "reachability of assert statements and of __debug__ from every entry point"
    floors = {"entries": 60, "functions reached": 500, "explicit raises reached": 60}

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        r.count("functions reached", len(I.reached))
        for ev in I.events.values():
            if ev.etype == "assert":
                t = ev.node.test
                if narrows(ev.node):
                    r.count("type-narrowing asserts")
                    continue
                r.add("assert-as-validation", f"{e.ident}: {' '.join(ast.unparse(t).split())[:60]}",
                      "a check on input data is an assert statement, which python -O removes", ev.where())
            elif ev.etype == "raise":
                r.count("explicit raises reached")
        for info in I.reached:
            for n in ast.walk(info.node):
                if isinstance(n, ast.Name) and n.id == "__debug__":
                    r.add("debug-flag", f"{e.ident}: {info.name}", "behaviour depends on __debug__", site(n))
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: {len(I.reached)} functions, {r.counts.get('explicit raises reached', 0)} raises")
        return r


# ------------------------------------------------------------------ C20
PROCESS_WIDE = {"numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "numpy.setbufsize", "locale.setlocale", "os.chdir", "os.putenv", "os.unsetenv",
                "os.umask", "random.seed", "numpy.random.seed", "logging.basicConfig", "logging.disable", "logging.setLoggerClass", "logging.captureWarnings",
                "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "signal.signal", "signal.alarm", "socket.setdefaulttimeout", "gc.disable", "gc.enable",
                "gc.set_threshold", "warnings.resetwarnings", "matplotlib.use", "matplotlib.rc", "multiprocessing.set_start_method",
                "faulthandler.enable", "atexit.register", "time.tzset", "csv.field_size_limit", "csv.register_dialect", "os.nice", "threading.stack_size",
                "sys.exit", "os._exit", "os.abort", "builtins.exit", "builtins.quit", "decimal.setcontext", "xml.etree.ElementTree.register_namespace"}
SCOPED = {"warnings.simplefilter": "warnings.catch_warnings", "warnings.filterwarnings": "warnings.catch_warnings"}
SCOPED_CALL = {"dask.config.set"}
MUTABLE_EXT = ("os.environ", "sys.path", "sys.modules", "warnings.filters", "logging.root", "matplotlib.rcParams", "dask.config.config", "PIL.Image.")


class ProcessSettings(FlowCheck):
    id = "C20"
    technique = "effect analysis of calls and stores on interpreter-wide state, with scope (with-statement) checking"
    floors = {"entries": 60, "external calls checked": 3000}

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        for ev in I.events.values():
            if ev.etype == "ext-store":
                r.add("process-setting", f"{e.ident}: {ev.label}", f"assigns {ev.label}", ev.where())
            if ev.etype == "method" and ev.label in ("setLevel", "addHandler", "addFilter", "setdefault", "update", "pop", "append", "insert", "clear", "remove"):
                for v in ev.arg(0):
                    if isinstance(v, Unk) and v.kind == "logger" and ev.label.startswith(("set", "add")) or \
                            isinstance(v, Ext) and v.name.startswith(MUTABLE_EXT):
                        r.add("process-setting", f"{e.ident}: {ev.label}", f"{ev.label}() on {v!r}", ev.where())
            if ev.etype == "setitem" and any(isinstance(v, Ext) and v.name.startswith(MUTABLE_EXT) for v in ev.arg(0)):
                r.add("process-setting", f"{e.ident}: setitem", "stores into process-wide state", ev.where())
            if ev.etype != "extcall":
                continue
            r.count("external calls checked")
            if ev.label in PROCESS_WIDE:
                r.add("process-setting", f"{e.ident}: {ev.label}", f"calls {ev.label}", ev.where())
            elif ev.label in SCOPED:
                if not in_with(I, ev.node, SCOPED[ev.label]):
                    r.add("process-setting", f"{e.ident}: {ev.label}", f"calls {ev.label} outside {SCOPED[ev.label]}", ev.where())
                else:
                    r.count("scoped changes")
            elif ev.label in SCOPED_CALL:
                if not is_with_item(ev.node):
                    r.add("process-setting", f"{e.ident}: {ev.label}", f"calls {ev.label} without a with statement", ev.where())
                else:
                    r.count("scoped changes")
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: {r.counts.get('external calls checked', 0)} external calls")
        return r


def is_with_item(call):
    p = call._parent
    return isinstance(p, ast.withitem) or (isinstance(p, ast.Call) and ast.unparse(p.func).endswith("enter_context")) or isinstance(p, (ast.Assign, ast.Return))


def in_with(I, node, name):
    p = node
    last = name.rpartition(".")[2]
    while p is not None:
        if isinstance(p, (ast.With, ast.AsyncWith)):
            for it in p.items:
                if last in ast.unparse(it.context_expr):
                    return True
        p = p._parent
    # a helper that is only ever used inside such a block: look at the callers
    fn = enclosing(node, ast.FunctionDef)
    if fn is None:
        return False
    sites = [ev.node for ev in I.events.values() if ev.etype == "fncall" and ev.label == node._module.name + ":" + qualname(fn)]
    return bool(sites) and all(in_with(I, s, name) for s in sites if enclosing(s, ast.FunctionDef) is not fn)


# ------------------------------------------------------------------ returned datasets
def datasets(I, res):
    """Dataset dictionaries a reader returns: [(Ref of dict)]."""
    out = {}
    for v in returned(res):
        for d in I.iter_elems(frozenset((v,))):
            if isinstance(d, Ref) and d.obj.kind in ("dict", "box", "kwargs") and d.obj.root is None:
                ks = set(d.obj.fields) | inherited_keys(d.obj)
                if "data" in ks or "axes" in ks or "original_metadata" in ks:
                    out[d.obj] = ks
    return out


def inherited_keys(o, seen=None):
    seen = seen if seen is not None else set()
    if o in seen:
        return set()
    seen.add(o)
    ks = set(o.fields)
    for src, deep in o.protos:
        ks |= inherited_keys(src, seen)
    return ks


def open_content(o, seen=None):
    """The object may have keys the analysis cannot name."""
    seen = seen if seen is not None else set()
    if o in seen:
        return False
    seen.add(o)
    return bool(o.elem) or o.root is not None or o.kind not in ("dict", "box", "kwargs") or any(open_content(s, seen) for s, _ in o.protos)


def data_kinds(I, o):
    out = {}
    for x in I.load_key(o, "data"):
        if isinstance(x, Unk):
            out[x.kind or "?"] = x
        elif isinstance(x, Ref):
            out["array" if x.obj.kind in ("nd", "array") else "?" + x.obj.kind] = x
        elif isinstance(x, Const):
            out["?const"] = x
        else:
            out["?"] = x
    return out


class LazyHonoured(FlowCheck):
    """Each reader is interpreted once with lazy=False and once with lazy=True."""
    id = "C07"
    kinds = ("reader",)
    technique = "abstract interpretation of each reader under lazy=False and lazy=True; kind (in-memory, deferred, file-backed) of the returned data"
    floors = {"entries": 60, "datasets classified": 60, "lazy requests refused": 5}
    # formats whose file also holds small images that are always loaded
    MIXED = {"bruker": "survey images", "quantumdetector": "in-memory buffers",
             "jeol": "images and spectra", "digitalmicrograph": "old packed complex images", "hspy": "signals nested in metadata",
             "zspy": "signals nested in metadata"}

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        ds = datasets(I, res)
        r.count("datasets classified", len(ds))
        kinds = {}
        for o in ds:
            kinds.update(data_kinds(I, o))
        ks = set(kinds)
        if not res[0]:
            if e.lazy:
                r.count("lazy requests refused")
                names = {I.exc_class_of(x) for g in res[1] for x in g if x[0] == "raised"}
                if "NotImplementedError" not in names:
                    r.add("lazy-refusal", e.ident, "a lazy request is refused with something other than NotImplementedError", e.name)
            else:
                r.add("no-result", e.ident, "no path returns a result", e.name)
            return r
        if not e.lazy:
            for k in ("dask", "h5", "delayed"):
                if k in ks:
                    r.add("eager-read-not-in-memory", f"{e.ident}: {k}", f"lazy=False may return data of kind {k!r}", e.name)
            for v in returned(res):
                if isinstance(v, Unk) and v.kind in ("dask", "h5", "delayed"):
                    r.add("eager-read-not-in-memory", f"{e.ident}: {v.kind}", f"lazy=False may return {v.kind!r}", e.name)
        else:
            definite = ks - {k for k in ks if k.startswith("?")} - {"str", "list", "path", "bytes", "int", "float", "bool", "slice", "tuple", "dtype"}
            if "dask" not in definite and definite and not any(k == "?" for k in ks):
                r.add("lazy-ignored", e.ident, f"lazy=True returns data already in memory ({', '.join(sorted(definite))})", e.name)
            elif "dask" in definite and e.plugin not in self.MIXED and definite & {"nd", "array"}:
                r.add("lazy-partly-ignored", e.ident, "some path with lazy=True returns data already in memory", e.name)
            if "h5" in definite and e.plugin not in ("hspy", "zspy"):
                r.add("lazy-raw-handle", e.ident, "lazy=True returns a raw file dataset object instead of a lazy array", e.name)
        r.sample(f"{e.name}: data kinds {sorted(ks)}")
        return r


class ReturnedStructure(FlowCheck):
    """Keys of every dictionary that can be returned, from the abstract heap at the return statements."""
    id = "C24"
    kinds = ("reader",)
    technique = "shape analysis of the returned abstract heap (list, dataset keys, axis keys)"
    floors = {"entries": 60, "dataset dictionaries": 60, "axis dictionaries": 100}
    REQUIRED = ("data", "axes", "metadata", "original_metadata")
    # an axis the file itself leaves unlabelled stays without a name (hyperspy shows it as undefined; the repository's tests rely on it)
    # a Delmic dimension without scale in the file is one of length 1 and is squeezed away afterwards
    ALLOW = {("nexus", "name"), ("delmic", "calibration")}

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        for v in returned(res):
            if isinstance(v, Const) or isinstance(v, Ref) and v.obj.kind not in ("list",):
                what = repr(v.v) if isinstance(v, Const) else v.obj.kind
                r.add("not-a-list", f"{e.ident}: {what}", f"a path returns {what}, not a list of datasets", e.name)
        ds = datasets(I, res)
        stores = [ev for ev in I.events.values() if ev.etype == "setitem"]
        r.count("dataset dictionaries", len(ds))
        follow = {}

        def need(o, k, seen=()):
            taken = (o, k) in I.taken
            if not from_start(o, k) or taken:
                follow.setdefault(id(o.node), {})[k] = not from_start(o, k)
                for p, _ in o.protos:
                    if p.kind == "dict" and p not in seen and k in set(map(str, inherited_keys(p))):
                        need(p, k, (*seen, o))
        for o, ks in ds.items():
            if not open_content(o):
                for k in self.REQUIRED:
                    if k not in ks:
                        r.add("dataset-key-missing", f"{e.ident}: {k}", f"a returned dataset never has the key {k!r}", site(o.node))
                    else:
                        need(o, k)
            for a in axes_of(I, o):
                ak = set(map(str, inherited_keys(a)))
                r.count("axis dictionaries")
                miss = [k for k in ("name", "units") if k not in ak]
                if "axis" not in ak:
                    miss += [k for k in ("size", "scale", "offset") if k not in ak]
                if "_type" in ak and "size" in ak:
                    miss = [k for k in miss if k in ("name", "units")]
                for k in ("name", "units", "size", "scale", "offset", "axis", "expression"):
                    if k in ak and (e.plugin, k) not in self.ALLOW:
                        need(a, k)
                for k in miss:
                    if (e.plugin, k) in self.ALLOW:
                        continue
                    r.add("axis-key-missing", f"{e.ident}: {k}", f"an axis description never has the key {k!r}", site(a.node))
        if follow:
            self.follow(I, e, r, follow, stores)
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: {len(ds)} dataset dictionaries")
        return r

    def follow(self, I, e, r, follow, stores):
        """Second run: for the dictionaries filled key by key, which keys can still be absent at each return."""
        r.count("keys followed along the paths", sum(map(len, follow.values())))
        I.track_abs, I.abs_stores = follow, {}
        try:
            rets, _ = I.run_entry(e.mod, e.fn, e.spec())
        finally:
            I.track_abs = {}

        def check(o, g, rule, what):
            absent = {f[2] for f in g if f[0] == "abs" and f[1] is o}
            if not absent:
                return
            if what == "an axis description":
                ak = set(map(str, inherited_keys(o)))
                # a full vector, or (hyperspy's third kind of axis) an expression of another axis
                full = "axis" in ak and "axis" not in absent or "expression" in ak and "expression" not in absent
                linear = {"size", "scale", "offset"} <= ak - absent
                absent.discard("expression")
                if "axis" in ak or "expression" in ak:
                    # either a vector or a linear scale
                    drop = {"size", "scale", "offset", "axis"} if full or linear else ({"size", "scale", "offset"} if not {"size", "scale", "offset"} <= ak else {"axis"} & ak)
                    absent -= drop
                if (e.plugin, "calibration") in self.ALLOW and not full and not linear:
                    absent = set()
            for f in g:
                if f[0] == "abs" and f[1] is o and f[2] in absent:
                    st = [ev for ev in stores if any(isinstance(b, Ref) and b.obj is o for b in ev.arg(0)) and any(isinstance(x, Const) and str(x.v) == f[2] for x in ev.arg(1))]
                    r.add(rule, f"{e.ident}: {f[2]} on a path", f"on some path {what} made at {site(o.node)} lacks the key {f[2]!r}", st[0].where() if st else site(o.node))
        for g, vals in sorted(rets.items(), key=repr):
            for o in datasets(I, ({g: vals}, ())):
                check(o, g, "dataset-key-missing", "a returned dataset")
                for a in axes_of(I, o):
                    check(a, g, "axis-key-missing", "an axis description")


def axes_of(I, o):
    out = []
    for ax in I.load_key(o, "axes"):
        for a in I.iter_elems(frozenset((ax,))):
            if isinstance(a, Ref) and a.obj.kind == "dict" and a.obj not in out and not open_content(a.obj) \
                    and not placeholder(a.obj) and set(map(str, inherited_keys(a.obj))) & {"size", "scale", "offset", "axis", "name", "units"}:
                out.append(a.obj)
    return out


def placeholder(o):
    """An empty dictionary of `[{}] * n`, there to be replaced."""
    p = getattr(o.node, "_parent", None)
    return isinstance(o.node, ast.Dict) and not o.node.keys and isinstance(p, ast.List) and isinstance(getattr(p, "_parent", None), ast.BinOp)


def from_start(o, key):
    """The dictionary is made with the key in it."""
    if isinstance(o.node, ast.Dict):
        return any(isinstance(k, ast.Constant) and k.value == key for k in o.node.keys)
    return isinstance(o.node, ast.Call) and any(k.arg == key for k in o.node.keywords)


# ------------------------------------------------------------------ C08
MULTI = set("hHiIlLqQnNefdgFDGPV" "U") - {"V"}
ONE_BYTE_NP = {"int8", "uint8", "byte", "ubyte", "bool", "bool_", "bytes_", "void", "character", "string_", "S"}
NAMED = {"int16", "int32", "int64", "uint16", "uint32", "uint64", "float16", "float32", "float64", "complex64", "complex128", "short", "ushort", "intc",
         "uintc", "int_", "uint", "intp", "uintp", "longlong", "ulonglong", "half", "single", "double", "longdouble", "csingle", "cdouble", "float_",
         "complex_", "int", "float", "complex", "long", "ulong", "str_", "float128"}


def order_char(c):
    return {"<": "<", ">": ">", "!": ">", "=": "native", "@": "native", "little": "<", "big": ">", "L": "<", "l": "<", "B": ">", "b": ">",
            "N": "native", "n": "native"}.get(c)


def text_orders(t, struct):
    """Byte orders of a format string: subset of {'<', '>', 'native', '-' (single bytes only)}."""
    out = set()
    if struct:
        o = order_char(t[:1]) if t[:1] in "<>!=@" else None
        multi = any(c in MULTI for c in t.lstrip("<>!=@ "))
        return {o or "native"} if multi else {"-"}
    for part in t.split(","):
        part = part.strip().lstrip("0123456789()")
        o = order_char(part[:1]) if part[:1] in ("<", ">", "=", "|", "!") else None
        body = part.lstrip("<>=|!")
        if body in ONE_BYTE_NP or body[:1] in ("S", "a", "V", "?", "O", "M") or body in ("c", "b", "B", "u1", "i1", "b1", "|b1", "") or body[:1] == "|":
            out.add("-")
        elif part[:1] == "|":
            out.add("-")
        else:
            out.add(o or "native")
    return out


def orders(I, vals, struct=False, depth=0):
    """Byte orders a dtype or struct format value can have; '?' when it is not determined here."""
    out = set()
    if depth > 6:
        return {"?"}
    for v in vals:
        if isinstance(v, Const):
            t = v.v
            if isinstance(t, bytes):
                t = t.decode("latin-1")
            if isinstance(t, str):
                out |= text_orders(t, struct)
            elif t is None:
                out.add("native" if not struct else "?")
            else:
                out.add("?")
        elif isinstance(v, StrP):
            ps = v.parts
            first = ps[0]
            if isinstance(first, str) and first[:1] in ("<", ">", "!", "=", "@", "|"):
                o = order_char(first[:1])
                out.add(o or "-")
            elif isinstance(first, str) and first.lstrip("0123456789")[:1] in tuple("SaVbB?xs" + ("c" if struct else "")):
                out.add("-" if not struct or not any(c in MULTI for c in "".join(x for x in ps if isinstance(x, str))) else "native")
            elif isinstance(first, str) and struct:
                out.add("native" if any(c in MULTI for c in "".join(x for x in ps if isinstance(x, str))) else "?")
            elif isinstance(first, str) and first[:1].isalpha():
                out.add("native")
            else:
                out.add("?")
        elif isinstance(v, Ext):
            nm = v.name.rpartition(".")[2]
            if nm in ONE_BYTE_NP or v.name in ("builtins.bool", "builtins.bytes", "builtins.object"):
                out.add("-")
            elif v.name.startswith("numpy.") and nm in NAMED or v.name in ("builtins.int", "builtins.float", "builtins.complex", "builtins.str"):
                out.add("native")
            else:
                out.add("?")
        elif isinstance(v, Ref):
            o = v.obj
            if o.kind == "dtype":
                ordv = o.fields.get("order")
                spec = orders(I, o.fields.get("spec", ()), struct, depth + 1)
                if ordv:
                    if spec <= {"-"}:
                        out.add("-")
                        continue
                    for x in ordv:
                        c = order_char(x.v) if isinstance(x, Const) and isinstance(x.v, str) else None
                        if isinstance(x, Const) and x.v in ("S", "s", None):
                            out.add("?")
                        elif isinstance(x, Const) and x.v in ("|", "I", "i"):
                            out |= spec
                        else:
                            out.add(c or "?")
                else:
                    out |= spec or {"?"}
            elif o.kind == "struct":
                out |= orders(I, o.fields.get("format", ()), True, depth + 1)
            elif o.kind in ("list", "tuple"):
                for el in I.iter_elems(frozenset((v,))):
                    if isinstance(el, Ref) and el.obj.kind in ("list", "tuple"):
                        fld = I.load_key(el.obj, 1)
                        # a (type, shape) pair
                        fld = frozenset().union(*[v.obj.fields[0] if isinstance(v, Ref) and v.obj.kind == "tuple" and 0 in v.obj.fields and not any(
                            isinstance(x, Ref) and x.obj.kind in ("list", "tuple") for x in v.obj.fields[0]) else {v} for v in fld]) if fld else fld
                        out |= orders(I, fld, struct, depth + 1) if fld else {"?"}
                    elif o.kind == "tuple" or isinstance(el, Const):
                        out |= orders(I, frozenset((el,)), struct, depth + 1) if isinstance(el, (Ref, Ext)) else {"?"}
                    else:
                        out.add("?")
            else:
                out.add("?")
        elif isinstance(v, Unk) and v.kind == "dtype" and "p:signal" in v.tags:
            out.add("caller")
        else:
            out.add("?")
    return out


class ByteOrder(FlowCheck):
    """Every raw decoding or encoding of file bytes: the byte order of its struct format or dtype."""
    id = "C08"
    kinds = ("reader", "writer", "extra")
    technique = "abstract interpretation of struct formats and dtypes at every raw decoding, with a requested byte order held fixed"
    floors = {"entries": 60, "orders determined": 250, "decodings": 250, "decodings under a requested byte order": 40}
    RAW = {"numpy.fromfile": ((1, "dtype"), None), "numpy.frombuffer": ((1, "dtype"), None), "numpy.memmap": ((1, "dtype"), None)}
    NPZ = ("rsciio.utils._tools",)
    # data in host order by definition of the container, one reason each
    ALLOW = {}

    def prepare(self, I):
        I.record_struct = True

    def entries(self, I):
        es = FlowCheck.entries(self, I)
        for plug in ("blockfile", "edax", "mrc", "mrcz"):
            for o in "<>":
                kinds = [("reader", "file_reader", False), ("reader", "file_reader", True)]
                if I.p.writes(plug):
                    kinds.append(("writer", "file_writer", None))
                for k, fn, lz in kinds:
                    e = Entry(k, plug, api_module(plug), fn, lz)
                    e.fixed = {"endianness": frozenset((Const(o),))}
                    e.want = {o, "-"}
                    es.append(e)
        m = I.p.modules.get("rsciio.utils._readfile")
        if m is None:
            raise AnalysisError("rsciio.utils._readfile vanished")
        for nm, vals in sorted(m.globals.items()):
            for v in vals:
                if isinstance(v, FuncV) and v.info.node._module is m and "endian" in v.info.params:
                    for o, w in (("<", "little"), (">", "big")):
                        e = Entry("extra", "utils", m.name, nm)
                        e.fixed = {"endian": frozenset((Const(w),))}
                        e.want = {o, "-"}
                        es.append(e)
        return es

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        want = getattr(e, "want", None)
        for ev in I.events.values():
            struct = False
            if ev.etype == "extcall" and ev.label in self.RAW:
                (pos, kwn), _ = self.RAW[ev.label]
                vals = ev.arg(pos, kwn)
                if not vals:
                    if ev.extra == "dstar":
                        continue
                    vals = frozenset((Const("u1"),)) if ev.label == "numpy.memmap" else frozenset((Ext("builtins.float"),))
            elif ev.etype == "extcall" and ev.label in ("struct.unpack", "struct.unpack_from", "struct.pack", "struct.pack_into", "struct.iter_unpack"):
                vals, struct = ev.arg(0, "format"), True
            elif ev.etype == "method" and ev.label in ("unpack", "unpack_from", "pack", "pack_into", "iter_unpack"):
                vals = frozenset(v for v in ev.arg(0) if isinstance(v, Ref) and v.obj.kind == "struct")
                struct = True
                if not vals:
                    continue
            elif ev.etype == "extcall" and ev.label.startswith("mrcz.") and ("endian" in ev.kw or "MRC" in ev.label):
                vals = frozenset(Const({"le": "<i4", "be": ">i4"}.get(v.v, "i4")) if isinstance(v, Const) else v for v in ev.kw.get("endian", ())) \
                    or frozenset((Const("<i4"),))
            elif ev.etype == "method" and ev.label in ("tobytes", "tofile") and e.kind == "writer":
                vals = frozenset().union(*[v.x[1] for v in ev.arg(0) if isinstance(v, Unk) and v.kind in ("nd", "memmap") and v.x and v.x[0] == "dt"])
                if not vals:
                    continue
            else:
                continue
            r.count("decodings")
            os_ = orders(I, vals, struct)
            if os_ != {"?"}:
                r.count("orders determined")
            if want is not None:
                r.count("decodings under a requested byte order")
                bad = os_ - want - {"?"}
                if bad and not (e.plugin, ev.fnqual().rpartition(":")[2]) in self.ALLOW:
                    r.add("requested-order-ignored", f"{e.ident}: {qualname(ev.node)}",
                          f"with {'/'.join(sorted(want - {'-'}))} requested, {ev.label} uses {', '.join(sorted(bad))} byte order", ev.where())
            elif "caller" in os_ and e.kind == "writer":
                r.add("callers-byte-order", f"{e.ident}: {qualname(ev.node)}", f"{ev.label} writes values in whatever byte order the caller's array has", ev.where())
            elif "native" in os_:
                r.add("host-byte-order", f"{e.ident}: {qualname(ev.node)}", f"{ev.label} decodes or encodes multi-byte values in the byte order of the machine", ev.where())
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: {r.counts.get('decodings', 0)} decodings")
        return r

    def static(self, I):
        """The documented default of a byte order parameter is a fixed order."""
        r = Result()
        for m, fn in functions(I.p):
            a = fn.args
            ps = a.posonlyargs + a.args
            for arg, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
                if arg.arg not in ("endianness", "endian", "byteorder", "byte_order"):
                    continue
                r.count("default byte orders")
                if isinstance(d, ast.Constant) and (d.value is None or order_char(d.value) in ("<", ">")):
                    continue
                vals = frozenset((Const(d.value),)) if isinstance(d, ast.Constant) else next((v.info.defaults.get(arg.arg, E) for v in m.globals.get(fn.name, ()) if isinstance(v, FuncV)), E)
                if any(isinstance(v, Const) and isinstance(v.v, str) and order_char(v.v) == "native" for v in vals) or "byteorder" in ast.unparse(d):
                    r.add("host-byte-order", f"{m.name}:{qualname(fn)}: default {arg.arg}", "the default byte order is that of the machine", site(fn))
        return r


class PathAccepted(FlowCheck):
    """Every reader and writer interpreted with a pathlib.Path as file name."""
    id = "C23"
    technique = "type-directed abstract interpretation: the file name is a pathlib.Path, and every operation on it is checked against what a Path offers"
    floors = {"entries": 60, "operations on the file name": 150}
    kinds = ("reader", "writer", "extra")

    def wants(self, e):
        return e.kind != "extra"

    def prepare(self, I):
        I.track_paths = True

    def entries(self, I):
        es = FlowCheck.entries(self, I)
        for e in FlowCheck.entries(type("X", (PathAccepted,), {"wants": lambda s, e: e.kind == "extra"})(), I):
            info = next((v.info for v in I.p.modules[e.mod].globals.get(e.fn, ()) if isinstance(v, FuncV)), None)
            if info and "filename" in info.params and e.mod != "rsciio.utils.path":
                es.append(e)
        for e in es:
            self.setup(e)
        return es

    def setup(self, e):
        e.fixed = {"filename": frozenset((Unk("path", frozenset(("p:filename",))),))}

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        self.operations(I, e, r, "pathop", "a pathlib.Path")
        mine = {id(ev.node): ev for ev in I.events.values() if ev.etype == "raise"}
        for v in values_reach(returned(res)) if e.kind == "reader" else ():
            if isinstance(v, Unk) and v.kind == "path" and "p:filename" in v.tags:
                r.add("path-returned", e.ident, "the returned dictionaries hold the pathlib.Path itself instead of the name as text", e.name)
        spec = dict(e.spec(), filename=frozenset((Unk("str", frozenset(("p:filename",))),)))
        rets = I.run_entry(e.mod, e.fn, spec)[0]
        self.operations(I, e, r, "textop", "a file name given as text")
        theirs = {id(ev.node): ev for ev in I.events.values() if ev.etype == "raise"}
        for one, other, what in ((mine, theirs, "a pathlib.Path is refused where the same name as text is accepted"), (theirs, mine, "a name given as text is refused where the pathlib.Path is accepted")):
            for i, ev in one.items():
                if i not in other and type_tests(ev.node):
                    r.add("path-refused", f"{e.ident}: {raise_text(ev.node)}", what, ev.where())
        if bool(rets) != bool(res[0]) and not r.findings:
            r.add("path-refused", e.ident, f"with {'text' if res[0] else 'a pathlib.Path'} no path returns", e.name)
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: {r.counts.get('operations on the file name', 0)} operations")
        return r

    def operations(self, I, e, r, etype, what):
        for ev in I.events.values():
            if any("p:filename" in tags_of(v) for v in ev.pos):
                r.count("operations on the file name")
            if ev.etype == etype:
                if handled(ev.node, ("TypeError", "AttributeError")):
                    r.count("operations with a fallback")
                    continue
                r.add("path-unsupported", f"{e.ident}: {ev.label} in {ev.fnqual().rpartition(':')[2]}", f"{ev.label} is applied to the file name, which fails for {what}", ev.where())


def type_tests(st):
    """The raise depends on the type of something."""
    n = st
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.Module)):
        if isinstance(n, ast.If) and any(isinstance(c, ast.Call) and getattr(c.func, "id", "") in ("isinstance", "type", "hasattr") for c in ast.walk(n.test)):
            return True
        n = n._parent
    return False


def handled(node, names):
    """Inside a try whose handler names one of these exceptions."""
    n, child = node._parent, node
    while n is not None and not isinstance(n, ast.FunctionDef):
        if isinstance(n, ast.Try) and child in n.body and any(
                h.type is not None and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(h.type)) for h in n.handlers):
            return True
        n, child = n._parent, n
    return False


FLOW = [ByteOrder, PathAccepted, LazyHonoured, ReturnedStructure, InputsUnchanged, HandlesReleased, NoCodeExecution, ReadersReadOnly, RejectBeforeTruncate, NoCrossCallState,
        Deterministic, ValidationSurvivesOptimise, ProcessSettings]
