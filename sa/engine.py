"""Whole-program abstract interpreter for the analysed package.

Never executes repository code: it walks the syntax trees with abstract values
(constants, string patterns, allocation-site heap objects, symbolic input roots,
unknown external values with provenance tags).  Environments are flow-sensitive
and disjunctive over a small "ghost" state (open handles, held locks, truncated
destination); the heap is flow-insensitive and grows monotonically, the entry is
re-run until it is stable.
"""
import ast
import builtins
import sys

from project import Module, Project, AnalysisError, qualname
from values import (AV, Serial, Const, StrP, Unk, Ref, FuncV, Bound, ClassV, ModV, Ext, Meth, Partial, order_of,
                    NONE, TRUE, FALSE, TOP, E, Obj, tags_of)

sys.setrecursionlimit(20000)

CAP = 40
MAXCTX = 24
MAXALLOC = 60
MAXDEPTH = 45


class AbsStop(Exception):
    """The current statement has no normal continuation."""


class Infeasible(Exception):
    pass


class FunctionInfo(Serial):
    def __init__(self, node, module, cls=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = getattr(node, "name", "<lambda>")
        self.qual = module.name + ":" + qualname(node)
        a = node.args
        self.posparams = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.params = self.posparams + self.kwonly
        self.defaults = {}
        self.globals_decl, self.nonlocal_decl = set(), set()
        self.locals = set(self.params)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        self.is_gen = False
        body = node.body if isinstance(node.body, list) else [node.body]
        for n in self._walk(body):
            if isinstance(n, ast.Global):
                self.globals_decl |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocal_decl |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
        self.locals -= self.globals_decl | self.nonlocal_decl
        # names that functions defined in here rebind
        self.shared = {x for n in ast.walk(node) if isinstance(n, ast.Nonlocal) and n not in body for x in n.names} - self.nonlocal_decl
        self.decos = [self._deconame(d) for d in getattr(node, "decorator_list", [])]
        self.is_property = any(d in ("property", "cached_property", "functools.cached_property", "lazyproperty", "abstractproperty") for d in self.decos)
        self.is_static = "staticmethod" in self.decos
        self.is_class = "classmethod" in self.decos
        self.is_ctxmgr = any(d.endswith("contextmanager") for d in self.decos)

    @staticmethod
    def _deconame(d):
        if isinstance(d, ast.Call):
            d = d.func
        try:
            return ast.unparse(d)
        except Exception:
            return "?"

    @staticmethod
    def _walk(body):
        st = list(body)
        while st:
            n = st.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                for d in getattr(n, "decorator_list", []):
                    st.append(d)
                continue
            st.extend(ast.iter_child_nodes(n))

    def __repr__(self):
        return f"<fn {self.qual}>"


class ClassInfo(Serial):
    def __init__(self, node, module):
        self.node, self.module = node, module
        self.name = node.name
        self.qual = module.name + ":" + qualname(node)
        self.bases = []        # AVs
        self.attrs = {}        # name -> set

    def mro(self):
        out, seen = [], set()

        def rec(c):
            if c in seen:
                return
            seen.add(c)
            out.append(c)
            for b in c.bases:
                if isinstance(b, ClassV):
                    rec(b.info)
        rec(self)
        return out

    def ext_bases(self):
        return [b.name for c in self.mro() for b in c.bases if isinstance(b, Ext)]

    def lookup(self, name, skip_until=None):
        mro = self.mro()
        if skip_until is not None and skip_until in mro:
            mro = mro[mro.index(skip_until) + 1:]
        for c in mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def __repr__(self):
        return f"<class {self.qual}>"


class Frame(Serial):
    def __init__(self, info, module, parent, ctx):
        self.info, self.module, self.parent, self.ctx = info, module, parent, ctx
        self.accum = {}
        self.yielded = set()


class Out:
    """Outcome of a block: ghost -> env (normal/brk/cont/exc); ret: ghost -> [values, env]."""
    __slots__ = ("normal", "brk", "cont", "exc", "ret")

    def __init__(self):
        self.normal, self.brk, self.cont, self.exc, self.ret = {}, {}, {}, {}, {}


def join_env(a, b):
    if a is b or b is None:
        return a
    if a is None:
        return b
    out = dict(a)
    for k, v in b.items():
        w = out.get(k)
        if w is None:
            out[k] = v
        elif w is not v and w != v:
            out[k] = w if v <= w else cap(w | v)
    return out


def cap(vals):
    if len(vals) <= CAP:
        return vals
    for v in vals:
        c = v.__class__
        if (c is Const and v.k[1] is not None and v.k[0] != "bool") or c is StrP or c is Unk:
            break
    else:
        return vals
    ck = vals if isinstance(vals, frozenset) else frozenset(vals)
    r = CAPCACHE.get(ck)
    if r is None:
        if len(CAPCACHE) > 20000:
            CAPCACHE.clear()
        r = CAPCACHE[ck] = _cap(ck)
    return r


CAPCACHE = {}


def _cap(vals):
    out = set()
    for v in vals:
        if isinstance(v, Const) and v.v is not None and not isinstance(v.v, bool):
            out.add(Unk(v.k[0]))
        elif isinstance(v, StrP):
            out.add(Unk("str", v.tags))
        else:
            out.add(v)
    if len(out) > 3 * CAP:
        un = {v for v in out if not isinstance(v, Unk)}
        tg = frozenset()
        for v in out:
            if isinstance(v, Unk):
                tg |= v.tags
        un.add(Unk("", tg))
        out = un
    return frozenset(out)


def put(d, ghost, env):
    d[ghost] = join_env(d.get(ghost), env)


def merge(dst, src):
    for g, e in src.items():
        put(dst, g, e)


def merge_ret(dst, src):
    for g, (v, e) in src.items():
        if g in dst:
            dst[g] = (cap(dst[g][0] | v), join_env(dst[g][1], e))
        else:
            dst[g] = (v, e)


MAXSTATES = 12
# attributes that are methods on every builtin container, file, string and array that has them
METHODS = frozenset((
    "append extend insert pop popitem popleft appendleft update setdefault clear remove discard sort reverse add get keys items values copy "
    "fill resize setflags itemset partition byteswap astype reshape ravel flatten transpose squeeze swapaxes tobytes tofile tolist view rechunk compute "
    "persist map_blocks map_overlap read readline readlines readinto seek tell write writelines close flush truncate lower upper strip split rsplit "
    "startswith endswith join encode decode write_text write_bytes read_text read_bytes unlink rename mkdir rmdir touch").split())


def squeeze(ghosts):
    """One set of facts standing for many: what may be so is kept, what must be so has to be so in all of them."""
    ghosts = list(ghosts)
    must = frozenset.intersection(*ghosts)
    return frozenset(f for g in ghosts for f in g if f[0] != "closed" or f in must)


def squeezed(d):
    """The states of a program point, folded into one when there are too many to follow apart."""
    if len(d) <= MAXSTATES:
        return d
    env = None
    for e in d.values():
        env = join_env(env, e)
    return {squeeze(d): env}


def may_have(o, key, seen=()):
    """The dictionary can hold the key."""
    return key in o.fields or bool(o.elem) or o.root is not None or o.kind not in ("dict", "box", "kwargs") or \
        any(p not in seen and may_have(p, key, (*seen, o)) for p, _ in o.protos)


class Event(Serial):
    __slots__ = ("etype", "fn", "node", "label", "pos", "kw", "ghosts", "extra", "ctxs")

    def __init__(self, etype, fn, node, label):
        self.etype, self.fn, self.node, self.label = etype, fn, node, label
        self.pos, self.kw, self.ghosts, self.extra, self.ctxs = [], {}, set(), set(), set()

    def arg(self, i, name=None):
        if name and name in self.kw:
            return self.kw[name]
        if i is not None and i < len(self.pos):
            return self.pos[i]
        return E

    def where(self):
        return f"{self.node._module.rel}:{getattr(self.node, 'lineno', 0)} ({qualname(self.node)})"

    def fnqual(self):
        return self.node._module.name + ":" + qualname(self.node)

    def __repr__(self):
        return f"<{self.etype} {self.label} @{self.where()}>"


BUILTIN_NAMES = set(dir(builtins))


def exhausted(st):
    """The last `elif x == c` of a chain over all the values a list of the module names: the option was checked against that list before."""
    if st.orelse:
        return False
    cs, e, prev = set(), None, None
    while isinstance(st, ast.If) and (prev is None or st.orelse == [prev]):
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and isinstance(t.comparators[0], ast.Constant)) or e not in (None, ast.dump(t.left)):
            break
        cs.add(t.comparators[0].value)
        e, prev, st = ast.dump(t.left), st, st._parent
    if len(cs) < 2:
        return False
    m = prev._module
    if not hasattr(m, "_choices"):
        m._choices = [{c.value for c in n.elts} - {None} for n in ast.walk(m.tree) if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and all(isinstance(c, ast.Constant) for c in n.elts)]
    return cs in m._choices


class Engine:
    def __init__(self, project):
        import models
        self.models = models
        self.p = project
        self.fninfos = {}
        self.classinfos = {}
        self.allocs = {}
        self.alloc_sites = {}
        self.frames = {}
        self.events = {}
        self.changed = False
        self.memo = {}
        self.active = {}
        self.ctx_count = {}
        self.stack = []          # call nodes
        self.fnstack = []
        self.reached = set()
        self.frame = None
        self.env = {}
        self.ghost = frozenset()
        self.track_abs = {}         # id of the expression making a dictionary -> keys whose absence is followed, and whether it is made without
        self.taken = set()          # (dictionary, key) removed somewhere
        self.abs_stores = {}        # fact -> statements and calls that end it
        self.cur_stmt = None
        self.class_frame = None
        self.track_paths = False    # record operations on pathlib.Path values that these do not have
        self.track_guards = {}  # id of an If whose body raises -> that raise: followed while the destination is untouched
        self.order_ctx = []     # loops over sequences of arbitrary order being analysed
        self.exc = None
        self.in_module = 0
        self.choices = []
        self.choice_i = 0
        self.returns = {}
        self.track_handles = True
        self.loopcache = {}
        self.recfns = set()
        self.merged = {}
        self.recargs, self.recvals, self.recfns = {}, {}, set()
        self.stats = {"calls": 0, "inlined": 0, "rounds": 0}
        self.missing_arg_events = True
        for m in project.modules.values():
            self.run_module(m)
        # second pass so that cross-module circular lookups are stable
        self.memo.clear()
        self.events.clear()

    # ------------------------------------------------------------------ heap
    def ctxkey(self):
        if self.recfns:
            for f in self.fnstack:
                if f in self.recfns:
                    return ("rec",)
        st = self.stack[-2:]
        if st and isinstance(st[-1], (ast.FunctionDef, ast.Lambda)):
            st = st[-1:]
        return tuple(id(n) for n in st)

    def alloc(self, kind, node, extra=None, cls=None, ctx=True):
        o = self._alloc(kind, node, extra, cls, ctx)
        if self.track_abs and kind in ("dict", "box", "kwargs"):
            ks = self.track_abs.get(id(node))
            if ks:
                self.ghost = self.ghost | frozenset(("abs", o, k) for k, absent in ks.items() if absent) | {("loose", o)}
        return o

    def linked(self, vals):
        """The dictionaries now belong to another object."""
        gone = frozenset(("loose", v.obj) for v in vals if isinstance(v, Ref)) & self.ghost
        if gone:
            self.ghost = self.ghost - gone

    def drop_loose(self, d, before):
        """Dictionaries begun and not stored anywhere yet are lost when their iteration or try block is left."""
        if not self.track_abs:
            return d
        res = {}
        keep = {f[1] for g in before for f in g if f[0] == "loose"}
        for g, env in d.items():
            lost = {f[1] for f in g if f[0] == "loose"} - keep
            put(res, frozenset(f for f in g if f[0] not in ("abs", "loose") or f[1] not in lost) if lost else g, env)
        return res

    def removed(self, base, keys):
        """An entry has been taken out of a dictionary."""
        if len(base) != 1:
            return
        for v in base:
            if isinstance(v, Ref) and v.obj.kind in ("dict", "box"):
                for k in keys:
                    if isinstance(k, Const) and isinstance(k.v, str):
                        self.taken.add((v.obj, k.v))
                        if len(keys) == 1 and k.v in self.track_abs.get(id(v.obj.node), ()):
                            self.ghost = self.ghost | {("abs", v.obj, k.v)}

    def now_has(self, obj, key=None):
        """A key (None: any key, or all of them) has been stored into a followed dictionary."""
        gone = frozenset(f for f in self.ghost if f[0] == "abs" and f[1] is obj and key in (None, f[2]))
        if gone:
            self.ghost = self.ghost - gone
            for f in gone:
                self.abs_stores.setdefault(f, set()).update((self.cur_stmt, *self.stack))

    def _alloc(self, kind, node, extra=None, cls=None, ctx=True):
        key = (kind, id(node), extra, self.ctxkey() if ctx and not self.in_module else (), cls)
        o = self.allocs.get(key)
        if o is None:
            site = (kind, id(node), cls)
            n = self.alloc_sites.get(site, 0)
            if n >= MAXALLOC and not self.in_module:
                # too many context variants of one allocation site: collapse the rest
                key = (kind, id(node), "collapsed", (), cls)
                o = self.allocs.get(key)
                if o is not None:
                    return o
            self.alloc_sites[site] = n + 1
            o = Obj(kind, node, cls)
            self.allocs[key] = o
            if self.in_module:
                m = node._module if node is not None else None
                o.static = (m.name if m else "?") + ":" + self._static_name(node)
            self.changed = True
        return o

    @staticmethod
    def _static_name(node):
        p = node
        while p is not None:
            if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
                return p.targets[0].id
            if isinstance(p, ast.AnnAssign) and isinstance(p.target, ast.Name):
                return p.target.id
            p = getattr(p, "_parent", None)
        return qualname(node)

    def root_obj(self, path, kind="any"):
        key = ("root", path)
        o = self.allocs.get(key)
        if o is None:
            o = Obj(kind, None, None, path)
            self.allocs[key] = o
        return o

    def child(self, obj, key):
        """Lazily created child of an input root."""
        if len(obj.root) > (5 if obj.root[0] in ("signal", "dictionary") else 2):
            return obj
        if isinstance(key, int) or obj.kind == "list":
            key = "*"
        c = obj.children.get(key)
        if c is None:
            path = obj.root + (key,)
            c = Obj(self.models.root_kind(path), obj.node, None, path)
            obj.children[key] = c
            self.changed = True
        return c

    def deepcopy_of(self, obj):
        if obj.kind in ("dtype", "handle", "lock") or obj.extra == "deep":
            return obj
        key = ("deep", obj.id)
        o = self.allocs.get(key)
        if o is None:
            o = Obj(obj.kind if obj.kind != "any" else "any", obj.node, obj.cls)
            o.protos.append((obj, True))
            o.extra = "deep"
            self.allocs[key] = o
        return o

    def add_proto(self, obj, src, deep=False):
        if self.track_abs and id(obj.node) in self.track_abs:
            for k in self.track_abs[id(obj.node)]:
                if ("abs", src, k) not in self.ghost and may_have(src, k):
                    self.now_has(obj, k)
        if src is obj or any(p is src and d == deep for p, d in obj.protos):
            return
        obj.protos.append((src, deep))
        self.changed = True

    def set_field(self, obj, key, vals):
        if self.track_abs:
            self.now_has(obj, key)
            self.linked(vals)
        cur = obj.fields.get(key)
        if cur is not None and (vals is cur or vals <= cur):
            return
        new = vals if cur is None else cap(cur | vals)
        if new != cur:
            obj.fields[key] = new
            self.changed = True

    def add_elem(self, obj, vals):
        if self.track_abs:
            self.now_has(obj)
            self.linked(vals)
        if not vals <= obj.elem:
            new = cap(frozenset(obj.elem | vals))
            if new != obj.elem:
                obj.elem = set(new)
                self.changed = True

    def load_key(self, obj, key, seen=None, dynamic=False):
        """key: python constant or None (unknown)."""
        seen = seen or set()
        if obj in seen:
            return frozenset()
        seen.add(obj)
        out = set()
        if obj.root is not None:
            if obj.kind == "array":
                return frozenset((Ref(obj),))
            out.add(Ref(self.child(obj, key if key is not None else "*")))
        if key is None:
            # a dynamic key on a dictionary that also has dynamically keyed entries selects those
            if not (dynamic and obj.elem and obj.kind in ("dict", "kwargs")):
                for v in obj.fields.values():
                    out |= v
        elif key in obj.fields:
            out |= obj.fields[key]
            if obj.kind in ("inst", "tuple", "closed"):
                return frozenset(out)
        out |= obj.elem
        for p, deep in obj.protos:
            if not deep and key is not None and key in obj.fields and p.root is not None:
                pass
            vals = self.load_key(p, key, seen, dynamic)
            if deep:
                vals = frozenset(Ref(self.deepcopy_of(v.obj)) if isinstance(v, Ref) else v for v in vals)
            out |= vals
        return cap(frozenset(out))

    # ---------------------------------------------------------------- events
    def event(self, etype, node, label, pos=(), kw=None, extra=None):
        key = (etype, id(node), label)
        ev = self.events.get(key)
        if ev is None:
            ev = self.events[key] = Event(etype, self.frame.info, node, label)
        for i, v in enumerate(pos):
            if i < len(ev.pos):
                ev.pos[i] = ev.pos[i] | v
            else:
                ev.pos.append(v)
        for k, v in (kw or {}).items():
            ev.kw[k] = ev.kw.get(k, E) | v
        ev.ghosts.add(self.ghost)
        if extra is not None:
            ev.extra.add(extra)
        return ev

    # --------------------------------------------------------------- modules
    def run_module(self, m):
        if m.state:
            return
        m.state = 1
        saved = (self.frame, self.env, self.ghost, self.exc, self.choices, self.choice_i)
        self.frame = Frame(None, m, None, ())
        self.frame.accum = m.globals
        self.env, self.ghost, self.exc = {}, frozenset(), {}
        self.in_module += 1
        self.env["__name__"] = frozenset((Const(m.name),))
        m.globals["__name__"] = self.env["__name__"]
        m.globals["__file__"] = frozenset((Unk("str", frozenset(("package-path",))),))
        out = self.exec_block(m.tree.body, {frozenset(): self.env})
        for env in out.normal.values():
            for k, v in env.items():
                m.globals[k] = v
        self.in_module -= 1
        self.frame, self.env, self.ghost, self.exc, self.choices, self.choice_i = saved
        m.state = 2

    def import_module(self, name):
        if name in self.p.modules:
            m = self.p.modules[name]
            self.run_module(m)
            return ModV(m)
        return Ext(name)

    def module_attr(self, m, name):
        if name in m.globals:
            return m.globals[name]
        sub = m.name + "." + name
        if sub in self.p.modules:
            return frozenset((self.import_module(sub),))
        mp = m.globals.get("_import_mapping")
        if mp:
            for v in mp:
                if isinstance(v, Ref) and name in v.obj.fields:
                    for t in v.obj.fields[name]:
                        if isinstance(t, Const):
                            rel = t.v.lstrip(".")
                            for cand in (m.name + "." + rel, m.package() + "." + rel,
                                         m.name.rpartition(".")[0] + "." + rel, rel):
                                if cand in self.p.modules:
                                    mm = self.p.modules[cand]
                                    self.run_module(mm)
                                    return self.module_attr(mm, name)
        if "__getattr__" in m.globals:
            # deprecated re-export module: find the name among in-package util modules
            for cand in ("rsciio.utils.file", "rsciio.utils.rgb", "rsciio.utils._tools", "rsciio.utils.path",
                         "rsciio.utils._deprecated", "rsciio.utils._dictionary"):
                mm = self.p.modules.get(cand)
                if mm is not None and mm is not m:
                    self.run_module(mm)
                    if name in mm.globals:
                        return mm.globals[name]
        return frozenset((TOP,))

    def resolve_import(self, m, node):
        if node.level:
            base = m.package().split(".")
            if node.level > 1:
                base = base[: -(node.level - 1)]
            return ".".join(base + ([node.module] if node.module else []))
        return node.module

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, S):
        out = Out()
        cur = S
        for st in stmts:
            if not cur:
                break
            o = self.exec_stmt(st, cur)
            merge(out.brk, o.brk)
            merge(out.cont, o.cont)
            merge(out.exc, o.exc)
            merge_ret(out.ret, o.ret)
            cur = squeezed(o.normal)
        out.normal = dict(cur)
        return out

    def run_choices(self, ghost, env, fn, out):
        """Run fn() for every combination of nondeterministic choices made inside it;
        returns [(ghost, env, value)]."""
        res = []
        saved = (self.env, self.ghost, self.exc, self.choices, self.choice_i)
        stackc = []
        guard = 0
        while True:
            guard += 1
            self.env, self.ghost = dict(env), ghost
            self.exc = out.exc
            self.choices, self.choice_i = stackc, 0
            try:
                v = fn()
                res.append((self.ghost, self.env, v))
            except AbsStop:
                pass
            stackc = self.choices
            while stackc and stackc[-1][0] + 1 >= stackc[-1][1]:
                stackc.pop()
            if not stackc or guard > 200:
                break
            stackc[-1] = (stackc[-1][0] + 1, stackc[-1][1])
        self.env, self.ghost, self.exc, self.choices, self.choice_i = saved
        return res

    def choose(self, n):
        if n <= 1:
            return 0
        if self.choice_i < len(self.choices):
            i, m = self.choices[self.choice_i]
            if m == n:
                self.choice_i += 1
                return i
            i = min(i, n - 1)
            self.choices[self.choice_i] = (i, n)
            self.choice_i += 1
            return i
        self.choices.append((0, n))
        self.choice_i += 1
        return 0

    def order_now(self, o):
        """Order tags a list gets when it is extended here: it then lists its elements in the order of the loop."""
        t = frozenset()
        for tags, st, fr in self.order_ctx:
            if fr == id(self.frame) and o.node is not None and not (st.lineno <= getattr(o.node, "lineno", 0) <= st.end_lineno):
                t |= tags
        return t

    def emit_exc(self, ghost=None, explicit=None, cls=None):
        g = self.ghost if ghost is None else ghost
        if explicit is not None:
            g = g | frozenset((("raised", explicit, cls),))
        if self.exc is not None:
            put(self.exc, g, self.env)

    def exec_stmt(self, st, S):
        out = Out()
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is not None:
            m(st, S, out)
            return out
        simple = getattr(self, "do_" + type(st).__name__, None)
        prev, self.cur_stmt = self.cur_stmt, st
        for g, env in S.items():
            if simple is None:
                put(out.normal, g, env)
                continue
            for g2, env2, _ in self.run_choices(g, env, lambda: simple(st), out):
                put(out.normal, g2, env2)
        self.cur_stmt = prev
        return out

    # simple statements -----------------------------------------------------
    def do_Expr(self, st):
        self.eval(st.value)

    def do_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v, st)

    def do_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value), st)

    def do_AugAssign(self, st):
        cur = self.eval_load(st.target)
        rhs = self.eval(st.value)
        self.event("aug", st, type(st.op).__name__, [cur, rhs])
        inplace = frozenset(v for v in cur if isinstance(v, Ref))
        for v in inplace:
            o = v.obj
            if o.kind in ("array", "nd", "list", "set") or (o.kind == "any" and o.extra in ("arraylike", "maybearray")) or (o.kind == "dict" and isinstance(st.op, ast.BitOr)):
                self.mutated(o, st, f"augmented assignment ({type(st.op).__name__})")
                if o.kind == "list":
                    self.add_elem(o, self.iter_elems(rhs))
                    o.tags |= self.order_now(o) | (order_of(rhs) if isinstance(st.op, ast.Add) else frozenset())
                elif o.kind == "dict":
                    for x in rhs:
                        if isinstance(x, Ref) and x.obj is not o:
                            self.add_proto(o, x.obj)
        res = self.binop(st.op, cur, rhs, st)
        res = frozenset(v for v in res if not isinstance(v, Ref)) | inplace
        self.assign(st.target, res or frozenset((TOP,)), st, aug=True)

    def do_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                self.removed(base, self.eval_index(t.slice))
                for v in base:
                    if isinstance(v, Ref):
                        self.mutated(v.obj, st, "del item")
                self.emit_exc()
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value)
                for v in base:
                    if isinstance(v, Ref) and v.obj.kind != "inst":
                        self.mutated(v.obj, st, "del attribute")

    def do_Import(self, st):
        self.emit_exc()
        for al in st.names:
            self.event("import", st, al.name)
            v = self.import_module(al.name)
            if al.asname:
                self.bind(al.asname, frozenset((v,)))
            else:
                top = al.name.split(".")[0]
                self.bind(top, frozenset((self.import_module(top),)))

    def do_ImportFrom(self, st):
        self.emit_exc()
        mod = self.resolve_import(self.frame.module, st)
        self.event("import", st, mod)
        mv = self.import_module(mod)
        for al in st.names:
            if al.name == "*":
                if isinstance(mv, ModV):
                    for k, v in mv.mod.globals.items():
                        if not k.startswith("_"):
                            self.bind(k, v)
                continue
            if isinstance(mv, ModV):
                vals = self.module_attr(mv.mod, al.name)
            else:
                vals = frozenset((Ext(mod + "." + al.name),))
            self.bind(al.asname or al.name, vals)

    def do_Assert(self, st):
        self.eval(st.test)
        self.event("assert", st, "assert")
        self.emit_exc()
        if not self.refine(st.test, True):
            raise AbsStop()

    def do_Raise(self, st):
        if st.exc is not None:
            v = self.eval(st.exc)
            if st.cause is not None:
                self.eval(st.cause)
            self.event("raise", st, "raise", [v])
            names = {x.x if isinstance(x, Unk) and x.kind == "exception" else
                     x.info.name if isinstance(x, ClassV) else
                     x.name.rpartition(".")[2] if isinstance(x, Ext) else None for x in v}
            self.emit_exc(explicit=st, cls=names.pop() if len(names) == 1 else None)
        else:
            self.event("reraise", st, "raise")
            # the state being re-raised keeps whatever was raised
            self.emit_exc()
        raise AbsStop()

    def do_Return(self, st):
        raise AssertionError

    def do_Global(self, st):
        pass

    do_Nonlocal = do_Pass = do_Global

    def do_FunctionDef(self, st):
        info = self.fninfo(st)
        for d in st.decorator_list:
            self.eval(d)
        self.eval_defaults(st, info)
        self.bind(st.name, frozenset((FuncV(info, self.frame if self.frame.info is not None else None),)))

    do_AsyncFunctionDef = do_FunctionDef

    def eval_defaults(self, st, info):
        a = st.args
        pos = a.posonlyargs + a.args
        self.in_module += 1   # default objects live as long as the function: static
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            info.defaults[arg.arg] = self.eval(d)
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                info.defaults[arg.arg] = self.eval(d)
        self.in_module -= 1

    def do_ClassDef(self, st):
        ci = self.classinfos.get(st)
        if ci is None:
            ci = self.classinfos[st] = ClassInfo(st, st._module)
        ci.bases = []
        for b in st.bases:
            ci.bases.extend(sorted(self.eval(b), key=repr)[:1])
        for d in st.decorator_list:
            self.eval(d)
        saved = self.env
        self.env = dict(saved)
        before = set(saved)
        self.in_module += 1
        outer, self.class_frame = self.class_frame, self.frame
        out = self.exec_block(st.body, {self.ghost: {k: v for k, v in saved.items()}})
        self.class_frame = outer
        self.in_module -= 1
        names = {n.name for n in st.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        for n in ast.walk(ast.Module(body=[s for s in st.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))], type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        for env in out.normal.values():
            for k in names:
                if k in env:
                    ci.attrs[k] = ci.attrs.get(k, E) | env[k]
                    if k not in before:
                        pass
        for k, vals in ci.attrs.items():
            for v in vals:
                if isinstance(v, FuncV):
                    v.info.cls = ci
        self.env = saved
        self.bind(st.name, frozenset((ClassV(ci),)))

    def fninfo(self, node, cls=None):
        fi = self.fninfos.get(node)
        if fi is None:
            fi = self.fninfos[node] = FunctionInfo(node, node._module, cls)
        return fi

    # compound statements ----------------------------------------------------
    def st_Return(self, st, S, out):
        for g, env in S.items():
            for g2, env2, v in self.run_choices(
                    g, env, lambda: self.eval(st.value) if st.value is not None else frozenset((NONE,)), out):
                merge_ret(out.ret, {g2: (v, env2)})

    def st_Break(self, st, S, out):
        merge(out.brk, S)

    def st_Continue(self, st, S, out):
        merge(out.cont, S)

    def st_If(self, st, S, out):
        T, F = {}, {}
        for g, env in S.items():
            def test():
                v = self.eval(st.test)
                return self.truth(v)
            for g2, env2, tr in self.run_choices(g, env, test, out):
                if True in tr:
                    e = self.refined(env2, g2, st.test, True)
                    if e is not None:
                        if id(st) in self.track_guards and ("trunc",) not in g2 and self.track_guards[id(st)] in st.orelse:
                            g2 = g2 | frozenset((("passed", self.track_guards[id(st)]),))
                        put(T, g2, e)
                if False in tr and not (self.track_abs and exhausted(st)):
                    e = self.refined(env2, g2, st.test, False)
                    if e is not None:
                        if id(st) in self.track_guards and ("trunc",) not in g2 and self.track_guards[id(st)] in st.body:
                            g2 = g2 | frozenset((("passed", self.track_guards[id(st)]),))
                        put(F, g2, e)
        for body, St in ((st.body, T), (st.orelse, F)):
            if St:
                o = self.exec_block(body, St)
                self.merge_out(out, o)
                merge(out.normal, o.normal)

    def merge_out(self, out, o, brk=True):
        if brk:
            merge(out.brk, o.brk)
            merge(out.cont, o.cont)
        merge(out.exc, o.exc)
        merge_ret(out.ret, o.ret)

    @staticmethod
    def widen(old, new):
        """Widen changed numeric constants / strings between loop iterations."""
        if old is None:
            return new
        res = {}
        for k, v in new.items():
            o = old.get(k)
            if o is not None and o != v:
                w = set()
                for x in v:
                    if isinstance(x, Const) and isinstance(x.v, (int, float)) and not isinstance(x.v, bool):
                        w.add(Unk(x.k[0]))
                    elif isinstance(x, Const) and isinstance(x.v, (str, bytes)) and x not in o:
                        w.add(Unk(x.k[0]))
                    elif isinstance(x, StrP) and x not in o:
                        w.add(Unk("str", x.tags))
                    else:
                        w.add(x)
                res[k] = frozenset(w)
            else:
                res[k] = v
        return res

    def loop(self, S, iterate, out, node):
        """iterate(head) -> (body_in, exit_states, o_test); generic fixpoint."""
        head = dict(S)
        brk = {}
        cached = self.loopcache.get(id(node))
        if cached is not None:
            merge(head, cached)
        exits = head
        for it in range(10):
            snap = dict(head)
            body_out, exits = iterate(head)
            merge(brk, body_out.brk)
            new = dict(head)
            merge(new, self.drop_loose(body_out.normal, S))
            merge(new, self.drop_loose(body_out.cont, S))
            if it >= 1:
                new = {g: self.widen(snap.get(g), e) for g, e in new.items()}
            self.merge_out(out, body_out, brk=False)
            if new == snap:
                break
            head = new
        self.loopcache[id(node)] = head
        self.body_end = self.drop_loose({**body_out.normal, **body_out.cont}, S)
        return exits, brk

    def assume_ran(self, st, exits, ends):
        """Keys the body of a loop stores count as stored after it: a loop over nothing leaves nothing to complete."""
        if not self.track_abs:
            return exits
        own = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)} if isinstance(st, ast.For) else set()
        inside = None
        drop = set()
        for f in {f for g in exits for f in g if f[0] == "abs"}:
            if ends and not any(f in g for g in ends):
                drop.add(f)
                continue
            for n in self.abs_stores.get(f, ()):
                if inside is None:
                    inside = {id(x) for b in st.body for x in ast.walk(b)}
                if id(n) not in inside or id(f[1].node) in inside:
                    continue
                # a loop that looks for the element of the file holding the value: the file has it
                if isinstance(n, ast.stmt):
                    used = {t.value.id for t in getattr(n, "targets", ()) if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)}
                else:
                    used = {a.id for a in getattr(n, "args", ()) if isinstance(a, ast.Name)}
                mine = any(isinstance(v, Ref) and v.obj is f[1] for e in ends.values() for nm in own & used for v in e.get(nm, ()))
                if not mine:
                    drop.add(f)
        if not drop:
            return exits
        fin = {}
        for g, env in exits.items():
            put(fin, g - drop, env)
        return fin

    def st_For(self, st, S, out):
        entry = {}
        for g, env in S.items():
            for g2, env2, v in self.run_choices(g, env, lambda: self.eval(st.iter), out):
                e = dict(env2)
                key = f"$it{id(st)}"
                e[key] = e.get(key, E) | v
                put(entry, g2, e)

        counters = {x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
                    if any(isinstance(v, Const) and type(v.v) is int for env in entry.values() for v in env.get(x.id, ()))}

        def iterate(head):
            bi = {}
            if counters:
                head = {g: self.positions(env, counters) if order_of(env.get(f"$it{id(st)}", E)) else env for g, env in head.items()}
            for g, env in head.items():
                its = env.get(f"$it{id(st)}", E)

                def step():
                    if not its or not all(isinstance(v, Ref) and v.obj.kind in ("list", "tuple", "dict", "set") for v in its):
                        self.emit_exc()
                    self.event("iter", st, "for", [its])
                    el = self.iter_elems(its, st)
                    self.assign(st.target, el, st)
                for g2, env2, _ in self.run_choices(g, env, step, out):
                    put(bi, g2, env2)
            its = frozenset().union(*[env.get(f"$it{id(st)}", E) for env in head.values()]) if head else E
            tags = order_of(its)
            if tags:
                self.order_ctx.append((tags, st, id(self.frame)))
            try:
                return self.exec_block(st.body, bi), head
            finally:
                if tags:
                    self.order_ctx.pop()

        exits, brk = self.loop(entry, iterate, out, st)
        exits = self.no_ordinals(exits)
        fin = self.closed_by_loop(st, self.assume_ran(st, exits, {**self.body_end, **brk}), brk)
        # a loop over a display that is certainly non-empty cannot be skipped: keep it simple, allow skip
        if st.orelse:
            o = self.exec_block(st.orelse, fin)
            self.merge_out(out, o)
            fin = o.normal
        merge(out.normal, fin)
        merge(out.normal, brk)

    @staticmethod
    def positions(env, names):
        """A number counted up in a loop of arbitrary order: while the loop runs it tells the position of the element in that order."""
        return {k: frozenset(Unk("int", tags_of((v,)) | {"ordinal"}) if isinstance(v, Unk) or isinstance(v, Const) and type(v.v) is int else v for v in vs)
                if k in names else vs for k, vs in env.items()}

    @staticmethod
    def no_ordinals(exits):
        """After the loop a running number is only a total, the same whatever the order."""
        fin = {}
        for g, env in exits.items():
            if any(isinstance(v, Unk) and "ordinal" in v.tags for vs in env.values() for v in vs):
                env = {k: frozenset(Unk(v.kind, v.tags - {"ordinal"}, v.x) if isinstance(v, Unk) and "ordinal" in v.tags else v for v in vs) for k, vs in env.items()}
            put(fin, g, env)
        return fin

    def closed_by_loop(self, st, exits, brk):
        """States after `for f in handles: f.close()`: every handle of the collection is closed, however many there are."""
        if brk or not isinstance(st.target, ast.Name) or not any(
                isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "close"
                and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == st.target.id for s in st.body) \
                or any(isinstance(n, ast.Continue) for s in st.body for n in ast.walk(s)):
            return dict(exits)
        fin = {}
        for g, env in exits.items():
            hs = {v.obj for v in env.get(st.target.id, E) if isinstance(v, Ref) and v.obj.kind == "handle"}
            its = env.get(f"$it{id(st)}", E)
            hs |= {v.obj for v in self.iter_elems(its, st) if isinstance(v, Ref) and v.obj.kind == "handle"}
            put(fin, g - {("open", h) for h in hs}, env)
        return fin

    def st_While(self, st, S, out):
        exits_all = {}

        def iterate(head):
            bi, ex = {}, {}
            for g, env in head.items():
                for g2, env2, tr in self.run_choices(g, env, lambda: self.truth(self.eval(st.test)), out):
                    if True in tr:
                        e = self.refined(env2, g2, st.test, True)
                        if e is not None:
                            put(bi, g2, e)
                    if False in tr:
                        e = self.refined(env2, g2, st.test, False)
                        if e is not None:
                            put(ex, g2, e)
            merge(exits_all, ex)
            o = self.exec_block(st.body, bi) if bi else Out()
            return o, ex

        exits, brk = self.loop(S, iterate, out, st)
        fin = self.assume_ran(st, exits_all, {**self.body_end, **brk})
        if st.orelse:
            o = self.exec_block(st.orelse, fin)
            self.merge_out(out, o)
            fin = o.normal
        merge(out.normal, fin)
        merge(out.normal, brk)

    def st_Try(self, st, S, out):
        o = self.exec_block(st.body, S)
        res = Out()
        # else
        if st.orelse and o.normal:
            oe = self.exec_block(st.orelse, o.normal)
            normal = oe.normal
            merge(res.exc, oe.exc)
            merge(res.brk, oe.brk)
            merge(res.cont, oe.cont)
            merge_ret(res.ret, oe.ret)
        else:
            normal = o.normal
        merge(res.normal, normal)
        merge(res.brk, o.brk)
        merge(res.cont, o.cont)
        merge_ret(res.ret, o.ret)
        # handlers
        pending = self.drop_loose(o.exc, S) if st.handlers else dict(o.exc)
        for h in st.handlers:
            if not pending:
                break
            types = self.handler_types(h, pending)
            catch, escape = {}, {}
            for g, env in pending.items():
                c, e = self.catches(types, g)
                if c:
                    g2 = frozenset(x for x in g if x[0] != "raised")
                    rs = [x for x in g if x[0] == "raised"]
                    if rs:
                        g2 = g2 | frozenset(("caught", *x[1:]) for x in rs)
                    put(catch, g2, env)
                if e:
                    put(escape, g, env)
            pending = escape
            if catch:
                if h.name:
                    catch = {g: {**env, h.name: frozenset((Unk("exception"),))} for g, env in catch.items()}
                oh = self.exec_block(h.body, catch)
                # after the handler the caught marker disappears; a bare re-raise restores it
                for g, env in oh.normal.items():
                    put(res.normal, self.uncaught(g), env)
                for g, env in oh.brk.items():
                    put(res.brk, self.uncaught(g), env)
                for g, env in oh.cont.items():
                    put(res.cont, self.uncaught(g), env)
                for g, (v, env) in oh.ret.items():
                    merge_ret(res.ret, {self.uncaught(g): (v, env)})
                for g, env in oh.exc.items():
                    put(res.exc, frozenset(("raised", *x[1:]) if x[0] == "caught" else x for x in g), env)
        merge(res.exc, pending)
        if st.finalbody:
            fin = Out()
            for name in ("normal", "brk", "cont", "exc"):
                src = getattr(res, name)
                if src:
                    of = self.exec_block(st.finalbody, dict(src))
                    merge(getattr(fin, name), of.normal)
                    merge(fin.exc, of.exc)
                    merge(fin.brk, of.brk)
                    merge(fin.cont, of.cont)
                    merge_ret(fin.ret, of.ret)
            for g, (v, env) in res.ret.items():
                e = dict(env)
                e["$ret"] = v
                of = self.exec_block(st.finalbody, {g: e})
                for g2, e2 in of.normal.items():
                    merge_ret(fin.ret, {g2: (e2.get("$ret", v), e2)})
                merge(fin.exc, of.exc)
                merge_ret(fin.ret, of.ret)
            res = fin
        merge(out.normal, res.normal)
        self.merge_out(out, res)

    st_TryStar = st_Try

    @staticmethod
    def uncaught(g):
        if any(x[0] == "caught" for x in g):
            return frozenset(x for x in g if x[0] != "caught")
        return g

    def handler_types(self, h, pending):
        if h.type is None:
            return [Ext("builtins.BaseException")]
        g, env = next(iter(pending.items()))
        o = Out()
        res = self.run_choices(g, env, lambda: self.eval(h.type), o)
        types = []
        for _, _, v in res:
            for x in v:
                if isinstance(x, Ref) and x.obj.kind == "tuple":
                    for vs in x.obj.fields.values():
                        types.extend(vs)
                else:
                    types.append(x)
        return types

    @staticmethod
    def exc_class_of(fact):
        """The class of the exception of a ("raised", statement, class) fact, if known."""
        if fact[2]:
            return fact[2]
        e = fact[1].exc
        f = e.func if isinstance(e, ast.Call) else e
        name = f.id if isinstance(f, ast.Name) else (f.attr if isinstance(f, ast.Attribute) else None)
        return name if isinstance(e, ast.Call) or name and name[:1].isupper() else None

    def catches(self, types, g):
        """(may catch, may escape)"""
        raised = [x for x in g if x[0] == "raised"]
        allnames = []
        for t in types:
            if isinstance(t, Ext):
                n = t.name.rpartition(".")[2]
                if n in ("BaseException", "Exception"):
                    return True, False
                allnames.append(n)
            elif isinstance(t, ClassV):
                allnames.append(t.info.name)
            else:
                allnames.append(None)
        if raised:
            name = self.exc_class_of(raised[0])
            if name is None:
                return True, True
            bn = getattr(builtins, name, None)
            for n in allnames:
                if n is None:
                    return True, True
                if n == name:
                    return True, False
                hn = getattr(builtins, n, None)
                if isinstance(bn, type) and isinstance(hn, type) and issubclass(bn, hn):
                    return True, False
            if isinstance(bn, type):
                return False, True
            return True, True
        return True, True

    def st_With(self, st, S, out):
        self._with(st.items, st.body, S, out, st)

    st_AsyncWith = st_With

    def _with(self, items, body, S, out, st):
        if not items:
            o = self.exec_block(body, S)
            merge(out.normal, o.normal)
            self.merge_out(out, o)
            return
        item = items[0]
        entered = {}
        cms = {}
        for g, env in S.items():
            def enter():
                cm = self.eval(item.context_expr)
                v, ghost_add = self.models.enter(self, cm, item)
                if ghost_add:
                    self.ghost = self.ghost | ghost_add
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, st)
                return cm, frozenset(ghost_add or ())
            for g2, env2, (cm, gadd) in self.run_choices(g, env, enter, out):
                e = dict(env2)
                e[f"$cm{id(item)}"] = cm
                e[f"$ga{id(item)}"] = frozenset((Const(tuple(sorted(gadd, key=repr))),)) if gadd else E
                put(entered, g2, e)
        inner = Out()
        self._with(items[1:], body, entered, inner, st)

        def leave(states, exc):
            res = {}
            for g, env in states.items():
                cm = env.get(f"$cm{id(item)}", E)
                ga = env.get(f"$ga{id(item)}", E)

                def ex():
                    self.models.leave(self, cm, item)
                    for c in ga:
                        self.ghost = self.ghost - frozenset(c.v)
                for g2, env2, _ in self.run_choices(g, env, ex, out):
                    put(res, g2, env2)
            return res

        merge(out.normal, leave(inner.normal, False))
        merge(out.brk, leave(inner.brk, False))
        merge(out.cont, leave(inner.cont, False))
        exc2 = {}
        for g, env in inner.exc.items():
            merge(exc2, leave({g: env}, True))
        sup = False
        for g, env in inner.exc.items():
            if self.models.suppresses(self, env.get(f"$cm{id(item)}", E)):
                sup = True
        if sup:
            for g, env in exc2.items():
                put(out.normal, frozenset(x for x in g if x[0] != "raised"), env)
        merge(out.exc, exc2)
        for g, (v, env) in inner.ret.items():
            e = dict(env)
            e["$ret"] = v
            for g2, e2 in leave({g: e}, False).items():
                merge_ret(out.ret, {g2: (v, e2)})

    def st_Match(self, st, S, out):
        self.event("unsupported", st, "match")
        merge(out.normal, S)

    # ------------------------------------------------------------- assignment
    def bind(self, name, vals):
        fr = self.frame
        vals = frozenset(vals)
        if fr.info is not None and name in fr.info.globals_decl:
            cur = fr.module.globals.get(name, E)
            fr.module.globals[name] = cur | vals
            return
        if fr.info is not None and name in fr.info.nonlocal_decl:
            p = fr.parent
            while p is not None and p.info is not None and name not in p.info.locals:
                p = p.parent
            if p is not None:
                new = p.accum.get(name, E) | vals
                if new != p.accum.get(name):
                    p.accum[name] = new
                    self.changed = True
            return
        self.env[name] = vals
        if fr is self.class_frame:
            return      # a name of a class body: not visible to the functions defined there
        cur = fr.accum.get(name)
        if cur is None or not vals <= cur:
            fr.accum[name] = cap((cur or E) | vals)
            self.changed = True

    def assign(self, t, vals, st, aug=False):
        if isinstance(t, ast.Name):
            fr = self.frame
            if fr.info is not None and t.id in fr.info.globals_decl:
                self.event("global-store", st, fr.module.name + ":" + t.id, [vals])
            self.bind(t.id, vals)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, vals, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, vals, st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            for v in base:
                if isinstance(v, Ref):
                    o = v.obj
                    if o.kind == "inst":
                        c, a = o.cls.lookup(t.attr) if o.cls else (None, None)
                        setter = None
                        if a:
                            for f in a:
                                if isinstance(f, FuncV) and any(d.endswith(".setter") for d in f.info.decos):
                                    setter = f
                        if setter is not None:
                            self.call_function(setter, [frozenset((v,)), vals], {}, st)
                        else:
                            self.set_field(o, t.attr, vals)
                        if o.static and not self.in_module:
                            self.mutated(o, st, f"attribute store .{t.attr}")
                    else:
                        self.set_field(o, t.attr, vals)
                        self.mutated(o, st, f"attribute store .{t.attr}")
                elif isinstance(v, ClassV):
                    v.info.attrs[t.attr] = v.info.attrs.get(t.attr, E) | vals
                    self.event("class-store", st, v.info.qual + "." + t.attr, [vals])
                elif isinstance(v, ModV):
                    self.event("global-store", st, v.mod.name + ":" + t.attr, [vals])
                elif isinstance(v, Ext):
                    self.event("ext-store", st, v.name + "." + t.attr, [vals])
                else:
                    self.event("attr-store", st, t.attr, [frozenset((v,)), vals])
                    if isinstance(v, Unk) and v.kind == "flags":
                        self.mutated(v.x[1], st, f"store of flags.{t.attr}")
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            keys = self.eval_index(t.slice)
            self.event("setitem", st, "setitem", [base, keys, vals])
            self.emit_exc()
            for v in base:
                if isinstance(v, Ref):
                    o = v.obj
                    self.store_item(o, keys, vals, t.slice)
                    self.mutated(o, st, "item store")
        else:
            self.event("unsupported", st, "assign-" + type(t).__name__)

    def store_item(self, o, keys, vals, slc=None):
        if o.kind in ("array", "nd"):
            return
        if isinstance(slc, ast.Slice):
            self.add_elem(o, self.iter_elems(vals))
            return
        for k in keys:
            if isinstance(k, Const) and o.kind not in ("list", "set"):
                self.set_field(o, k.v, vals)
            else:
                self.add_elem(o, vals)

    def unpack(self, elts, vals, st):
        n = len(elts)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        slots = [set() for _ in elts]
        for v in vals:
            if isinstance(v, Ref) and v.obj.kind == "tuple" and v.obj.fields:
                m = len(v.obj.fields)
                if star is None:
                    if m != n:
                        continue
                    for i in range(n):
                        slots[i] |= self.load_key(v.obj, i)
                else:
                    for i in range(n):
                        if i < star:
                            slots[i] |= self.load_key(v.obj, i)
                        else:
                            slots[i] |= self.iter_elems(frozenset((v,)))
            elif isinstance(v, Const) and isinstance(v.v, (tuple, str)) and len(v.v) == n:
                for i in range(n):
                    slots[i].add(Const(v.v[i]))
            else:
                el = self.iter_elems(frozenset((v,)))
                for s in slots:
                    s |= el
        for e, s in zip(elts, slots):
            fs = frozenset(s) or frozenset((TOP,))
            if isinstance(e, ast.Starred):
                lst = self.alloc("list", e)
                self.add_elem(lst, fs)
                fs = frozenset((Ref(lst),))
            self.assign(e, fs, st)

    def mutated(self, o, node, how):
        if o.root is not None or o.static:
            if self.in_module and o.static and o.root is None:
                return
            self.event("mutate", node, f"{'/'.join(map(str, o.root)) if o.root else o.static}", extra=how,
                       pos=[frozenset((Ref(o),))])
        elif self.record_all_mutations:
            self.event("mutate-local", node, f"obj{o.id}", pos=[frozenset((Ref(o),))], extra=how)

    record_all_mutations = False

    # ------------------------------------------------------------ truthiness
    def truth(self, vals):
        out = set()
        for v in vals:
            if isinstance(v, Const):
                out.add(bool(v.v))
            elif isinstance(v, (FuncV, ClassV, ModV, Bound, Ext, Meth)):
                out.add(True)
            elif isinstance(v, StrP):
                out.add(True)
                if not any(isinstance(p, str) and p for p in v.parts):
                    out.add(False)
            elif isinstance(v, Ref) and v.obj.kind in ("handle", "dtype"):
                out.add(True)
            elif isinstance(v, Ref) and v.obj.kind == "inst" and not (v.obj.cls and (v.obj.cls.lookup("__len__")[1] or v.obj.cls.lookup("__bool__")[1] or v.obj.cls.ext_bases())):
                out.add(True)
            elif isinstance(v, Unk) and v.kind == "exception":
                out.add(True)
            else:
                out.add(True)
                out.add(False)
        return out or {True, False}

    def refined(self, env, ghost, test, branch):
        saved = (self.env, self.ghost, self.exc)
        self.env, self.ghost, self.exc = dict(env), ghost, None
        self.in_refine = True
        try:
            ok = self.refine(test, branch)
        except AbsStop:
            ok = True
        res = self.env
        self.env, self.ghost, self.exc = saved
        return res if ok else None

    def refine(self, test, branch):
        """Narrow self.env under test==branch. False: infeasible."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not branch)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == branch
            if conj:
                return all(self.refine(v, branch) for v in test.values)
            # disjunction: feasible if any feasible; join refined envs
            res, base = None, self.env
            for i, v in enumerate(test.values):
                self.env = dict(base)
                ok = True
                for u in test.values[:i]:
                    ok = ok and self.refine(u, not branch)
                if ok and self.refine(v, branch):
                    res = join_env(res, self.env)
            if res is None:
                self.env = base
                return False
            self.env = res
            return True
        if isinstance(test, ast.NamedExpr):
            test = test.target
        if isinstance(test, ast.Name):
            vals = self.env.get(test.id)
            if vals:
                keep = frozenset(v for v in vals if branch in self.truth((v,)))
                if not keep:
                    return False
                self.env[test.id] = keep
            return True
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            left, op, right = test.left, test.ops[0], test.comparators[0]
            if isinstance(left, ast.Name) and left.id in self.env:
                vals = self.env[left.id]
                rv = self.pure_eval(right)
                if rv is None:
                    return True
                keep = frozenset(v for v in vals if branch in self.compare(op, frozenset((v,)), rv))
                if not keep:
                    return False
                # equality with a constant: unknown becomes that constant
                if branch and isinstance(op, ast.Eq) and len(rv) == 1:
                    (c,) = rv
                    if isinstance(c, Const):
                        keep = frozenset(c if isinstance(v, (Unk, StrP)) and not (isinstance(v, Unk) and v.kind in ("nd", "dask", "h5")) else v for v in keep)
                self.env[left.id] = keep
            return True
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            nm = test.args[0].id
            vals = self.env.get(nm)
            tv = self.pure_eval(test.args[1])
            if vals and tv:
                keep = frozenset(v for v in vals if branch in self.models.isinst(self, v, tv))
                if not keep:
                    return False
                if not branch and tv == frozenset((Ext("builtins.list"),)):
                    # an argument known not to be a list: container mutators cannot apply to it
                    keep = frozenset(Ref(self.child(v.obj, "!list")) if isinstance(v, Ref) and v.obj.root is not None
                                     and v.obj.kind == "any" and len(v.obj.root) == 1 else v for v in keep)
                self.env[nm] = keep
        return True

    def pure_eval(self, node):
        try:
            saved = self.exc
            self.exc = None
            return self.eval(node)
        except AbsStop:
            return None
        finally:
            self.exc = saved

    def compare(self, op, a, b):
        out = set()
        if len(a) * len(b) > 200:
            return {True, False}
        for x in a:
            for y in b:
                out |= self.compare1(op, x, y)
                if len(out) == 2:
                    return out
        return out or {True, False}

    def compare1(self, op, x, y):
        both = {True, False}
        if isinstance(op, (ast.Is, ast.IsNot)):
            pos = isinstance(op, ast.Is)
            if isinstance(y, Const) and y.v is None or isinstance(y, Const) and isinstance(y.v, bool):
                if isinstance(x, Const):
                    return {(x == y) == pos}
                if isinstance(x, (FuncV, ClassV, ModV, Bound, StrP, Meth)):
                    return {not pos}
                if isinstance(x, Ref) and x.obj.root is None:
                    return {not pos}
                if isinstance(x, Ext) and x.name.startswith("builtins."):
                    return {not pos}
                if isinstance(x, Ref) and x.obj.kind in ("array", "dict", "list") and x.obj.root[0] == "signal" and len(x.obj.root) <= 2:
                    return {not pos}
                if isinstance(x, Unk) and x.kind in ("nd", "dask", "h5", "bytes", "int", "float", "list", "dict", "exception", "memmap"):
                    return {not pos}
            return both
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            if isinstance(y, Ref) and y.obj.kind in ("tuple", "list", "set", "dict") and y.obj.root is None and not y.obj.protos and isinstance(x, Const):
                o = y.obj
                if o.kind == "dict":
                    if x.v in o.fields and not o.elem:
                        return both if not o.static else {pos}
                    if o.static and not o.elem:
                        return {not pos}
                    return both
                items = set()
                for v in o.fields.values():
                    items |= v
                items |= o.elem
                if all(isinstance(i, Const) for i in items) and o.static or (o.kind == "tuple" and all(isinstance(i, Const) for i in items)):
                    return {(x in items) == pos}
                if o.kind in ("list", "tuple", "set") and not o.static and all(isinstance(i, Const) for i in items) and o.extra == "display":
                    return {(x in items) == pos}
                return both
            if isinstance(x, Const) and isinstance(y, Const) and isinstance(y.v, (str, tuple, bytes)):
                try:
                    return {(x.v in y.v) == pos}
                except TypeError:
                    return both
            return both
        if isinstance(x, Const) and isinstance(y, Const):
            try:
                a, b = x.v, y.v
                if isinstance(op, ast.Eq):
                    return {a == b}
                if isinstance(op, ast.NotEq):
                    return {a != b}
                if isinstance(op, ast.Lt):
                    return {a < b}
                if isinstance(op, ast.LtE):
                    return {a <= b}
                if isinstance(op, ast.Gt):
                    return {a > b}
                if isinstance(op, ast.GtE):
                    return {a >= b}
            except TypeError:
                return both
        if isinstance(op, (ast.Eq, ast.NotEq)):
            pos = isinstance(op, ast.Eq)
            for u, w in ((x, y), (y, x)):
                if isinstance(u, StrP) and isinstance(w, Const):
                    if not isinstance(w.v, str):
                        return {not pos}
                    ps = u.parts
                    if ps and isinstance(ps[0], str) and not w.v.startswith(ps[0]):
                        return {not pos}
                    if ps and isinstance(ps[-1], str) and not w.v.endswith(ps[-1]):
                        return {not pos}
                if isinstance(u, Const) and isinstance(w, Ref) and w.obj.root is None and w.obj.kind in ("dict", "list", "tuple", "handle"):
                    return {not pos}
        return both

    # ------------------------------------------------------------ expressions
    def eval(self, n):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            self.event("unsupported", n, type(n).__name__)
            return frozenset((TOP,))
        return m(n)

    def eval_load(self, t):
        if isinstance(t, ast.Name):
            return self.lookup(t.id)
        if isinstance(t, ast.Attribute):
            return self.ev_Attribute(t)
        return self.ev_Subscript(t)

    def ev_Constant(self, n):
        if n.value is Ellipsis:
            return frozenset((Const("..."),))
        return frozenset((Const(n.value),))

    def lookup(self, name):
        v = self.env.get(name)
        fr = self.frame
        if v is not None:
            if fr.info is not None and name in fr.info.shared:
                return v | fr.accum.get(name, E)
            return v
        if fr.info is not None and name in fr.info.locals:
            v = fr.accum.get(name)
            return v if v else frozenset((TOP,))
        p = fr.parent
        while p is not None and p.info is not None:
            if name in p.info.locals or name in p.accum:
                v = p.accum.get(name)
                if v:
                    return v
            p = p.parent
        g = fr.module.globals
        if name in g:
            return g[name]
        if name in BUILTIN_NAMES:
            return frozenset((Ext("builtins." + name),))
        if name == "__file__":
            return frozenset((Unk("str"),))
        return frozenset((TOP,))

    def ev_Name(self, n):
        return self.lookup(n.id)

    def ev_Attribute(self, n):
        base = self.eval(n.value)
        out = set()
        for v in base:
            if n.attr in METHODS and (isinstance(v, Unk) and v.kind != "" or isinstance(v, Ref) and v.obj.kind not in ("inst", "box", "module")):
                out.add(Meth(v, n.attr))        # a bound method kept for later
            else:
                out |= self.load_attr(v, n.attr, n)
        return cap(frozenset(out)) or frozenset((TOP,))

    def load_attr(self, v, attr, node):
        if isinstance(v, ModV):
            return self.module_attr(v.mod, attr)
        if isinstance(v, Ext):
            if v.name.startswith("builtins.") and v.name.count(".") == 1 and attr in ("__name__",):
                return frozenset((Unk("str"),))
            return self.models.ext_attr(self, v, attr, node)
        if isinstance(v, ClassV):
            c, a = v.info.lookup(attr)
            if a is not None:
                return self.bind_method(a, v, v.info)
            if attr in ("__name__", "__qualname__"):
                return frozenset((Const(v.info.name),))
            return frozenset((TOP,))
        if isinstance(v, Ref):
            o = v.obj
            if o.kind == "inst":
                return self.inst_attr(v, attr, node)
            return self.models.obj_attr(self, v, attr, node)
        if isinstance(v, FuncV) and attr == "__name__":
            return frozenset((Const(v.info.name),))
        return self.models.unk_attr(self, v, attr, node)

    def bind_method(self, vals, recv, cls):
        out = set()
        for f in vals:
            if isinstance(f, FuncV):
                if f.info.is_static:
                    out.add(f)
                elif f.info.is_class:
                    out.add(Bound(f, ClassV(cls)))
                elif isinstance(recv, ClassV):
                    out.add(f)
                else:
                    out.add(Bound(f, recv))
            else:
                out.add(f)
        return frozenset(out)

    def inst_attr(self, v, attr, node):
        o = v.obj
        if attr == "__class__":
            return frozenset((ClassV(o.cls),))
        if attr == "__dict__":
            return frozenset((TOP,))
        out = set()
        if attr in o.fields:
            out |= o.fields[attr]
        c, a = o.cls.lookup(attr)
        if a is not None:
            for f in a:
                if isinstance(f, FuncV) and f.info.is_property:
                    out |= self.call_function(f, [frozenset((v,))], {}, node)
                elif isinstance(f, FuncV):
                    out |= self.bind_method((f,), v, o.cls)
                else:
                    out.add(f)
        for p, deep in o.protos:
            out |= self.load_attr(Ref(p), attr, node)
        if not out:
            # subclass attribute used by an abstract base, or dynamic
            if o.elem:
                out |= o.elem
            else:
                out.add(Unk("", frozenset()))
        return frozenset(out)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            for x in (s.lower, s.upper, s.step):
                if x is not None:
                    self.eval(x)
            return frozenset((Unk("slice"),))
        return self.eval(s)

    def ev_Slice(self, n):
        self.eval_index(n)
        return frozenset((Unk("slice"),))

    def ev_Subscript(self, n):
        base = self.eval(n.value)
        keys = self.eval_index(n.slice)
        if self.track_paths:
            self.models.pathop(self, n, "indexing", base)
        self.emit_exc()
        return self.subscript(base, keys, n)

    def subscript(self, base, keys, n):
        out = set()
        slc = n.slice if isinstance(n, ast.Subscript) else None
        for v in base:
            out |= self.models.subscript(self, v, keys, slc, n)
        return cap(frozenset(out)) or frozenset((TOP,))

    def ev_BinOp(self, n):
        a, b = self.eval(n.left), self.eval(n.right)
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, n):
        return self.models.binop(self, op, a, b, n)

    def ev_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return frozenset(Const(not t) for t in self.truth(v))
        out = set()
        for x in v:
            if isinstance(x, Const) and isinstance(x.v, (int, float)):
                try:
                    out.add(Const(-x.v if isinstance(n.op, ast.USub) else (~x.v if isinstance(n.op, ast.Invert) else x.v)))
                    continue
                except TypeError:
                    pass
            out.add(Unk(x.kind if isinstance(x, Unk) else ("nd" if isinstance(x, Ref) and x.obj.kind in ("array", "nd") else ""), tags_of((x,))))
        return frozenset(out)

    def ev_BoolOp(self, n):
        saved = self.env
        out = set()
        self.env = dict(saved)
        isand = isinstance(n.op, ast.And)
        try:
            for i, e in enumerate(n.values):
                v = self.eval(e)
                last = i == len(n.values) - 1
                if last:
                    out |= v
                    break
                t = self.truth(v)
                # values that short-circuit
                for x in v:
                    tx = self.truth((x,))
                    if (not isand) in tx:
                        if isinstance(x, Const) or not isand:
                            out.add(x)
                        else:
                            out.add(Unk(x.kind if isinstance(x, Unk) else "", tags_of((x,))))
                            out.add(FALSE) if False else None
                if isand not in t:
                    break
                if not self.refine(e, isand):
                    break
        finally:
            walrus = {k: v for k, v in self.env.items() if k not in saved}
            self.env = saved
            if walrus:
                self.env.update(walrus)
        return cap(frozenset(out)) or frozenset((TOP,))

    def ev_Compare(self, n):
        left = self.eval(n.left)
        res = {True}
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c)
            if self.track_paths and isinstance(op, (ast.In, ast.NotIn)):
                self.models.pathop(self, n, "`in`", right)
                if right and all(isinstance(v, (StrP,)) or isinstance(v, Const) and isinstance(v.v, str) or isinstance(v, Unk) and v.kind == "str" for v in right):
                    self.models.pathop(self, n, "`in`", left)
            r = self.compare(op, left, right)
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                for v in left | right:
                    if (isinstance(v, Unk) and v.kind in ("nd", "dask")) or (isinstance(v, Ref) and v.obj.kind == "array"):
                        return frozenset((Unk(v.kind if isinstance(v, Unk) else "nd"),))
            if False in r:
                res.add(False)
            if True not in r:
                res.discard(True)
            left = right
        if True not in res:
            res = {False}
        return frozenset(Const(x) for x in res)

    def ev_IfExp(self, n):
        t = self.truth(self.eval(n.test))
        saved = self.env
        out = set()
        for br, e in ((True, n.body), (False, n.orelse)):
            if br not in t:
                continue
            self.env = dict(saved)
            if self.refine(n.test, br):
                out |= self.eval(e)
        self.env = saved
        return cap(frozenset(out)) or frozenset((TOP,))

    def ev_Dict(self, n):
        o = self.alloc("dict", n)
        for k, v in zip(n.keys, n.values):
            vals = self.eval(v)
            if k is None:
                for x in vals:
                    if isinstance(x, Ref):
                        self.add_proto(o, x.obj)
                continue
            for kk in self.eval(k):
                if isinstance(kk, Const):
                    self.set_field(o, kk.v, vals)
                else:
                    self.add_elem(o, vals)
        return frozenset((Ref(o),))

    def _seq(self, n, kind):
        if kind == "tuple" and all(isinstance(e, ast.Constant) for e in n.elts) and n.elts:
            o = self.alloc(kind, n)
        else:
            o = self.alloc(kind, n)
        o.extra = "display"
        hasstar = any(isinstance(e, ast.Starred) for e in n.elts)
        for i, e in enumerate(n.elts):
            if isinstance(e, ast.Starred):
                self.add_elem(o, self.iter_elems(self.eval(e.value)))
            elif kind == "tuple" and not hasstar:
                self.set_field(o, i, self.eval(e))
            elif kind == "list" and not hasstar and len(n.elts) <= 4:
                # remember positions of short displays as well
                v = self.eval(e)
                self.add_elem(o, v)
                if not isinstance(o.tags, frozenset):
                    pass
            else:
                self.add_elem(o, self.eval(e))
        return frozenset((Ref(o),))

    def ev_Tuple(self, n):
        return self._seq(n, "tuple")

    def ev_List(self, n):
        return self._seq(n, "list")

    def ev_Set(self, n):
        r = self._seq(n, "set")
        return r

    def _comp(self, n, kind, body):
        saved = self.env
        self.env = dict(saved)
        o = self.alloc(kind, n)
        ordtag = frozenset()
        for gen in n.generators:
            its = self.eval(gen.iter)
            self.event("iter", gen.iter, "comp", [its])
            ordtag |= order_of(its)
            self.emit_exc()
            self.assign_comp(gen.target, self.iter_elems(its, gen.iter))
            for c in gen.ifs:
                self.eval(c)
                self.refine(c, True)
        g0 = self.ghost
        body(o)
        if self.ghost != g0:
            body(o)         # the second element meets what the first one opened
        if kind in ("list", "generator") and not ordtag <= o.tags:
            o.tags |= ordtag
            self.changed = True
        self.env = saved
        return frozenset((Ref(o),))

    def assign_comp(self, t, vals):
        # comprehension targets do not leak, but closures may read them
        if isinstance(t, ast.Name):
            self.env[t.id] = vals
            fr = self.frame
            cur = fr.accum.get(t.id, E)
            if not vals <= cur:
                fr.accum[t.id] = cap(cur | vals)
        else:
            self.assign(t, vals, t)

    def ev_ListComp(self, n):
        return self._comp(n, "list", lambda o: self.add_elem(o, self.eval(n.elt)))

    def ev_SetComp(self, n):
        return self._comp(n, "set", lambda o: self.add_elem(o, self.eval(n.elt)))

    def ev_GeneratorExp(self, n):
        return self._comp(n, "generator", lambda o: self.add_elem(o, self.eval(n.elt)))

    def ev_DictComp(self, n):
        def body(o):
            ks = self.eval(n.key)
            vs = self.eval(n.value)
            for k in ks:
                if isinstance(k, Const):
                    self.set_field(o, k.v, vs)
                else:
                    self.add_elem(o, vs)
            self.add_key(o, ks)
        return self._comp(n, "dict", body)

    def add_key(self, o, ks):
        pass

    def ev_Lambda(self, n):
        info = self.fninfo(n)
        self.eval_defaults(n, info)
        return frozenset((FuncV(info, self.frame if self.frame.info is not None else None),))

    def ev_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append([str(p.value)])
            else:
                v = self.eval(p.value)
                if p.format_spec is None and len(v) <= 6 and all(isinstance(x, (Const, StrP)) for x in v):
                    alts = []
                    for x in v:
                        alts.append(str(x.v) if isinstance(x, Const) else x.parts)
                    parts.append(alts)
                else:
                    if p.format_spec is not None:
                        self.eval(p.format_spec)
                    parts.append([(("?", tags_of(v)),)])
        combos = [()]
        for alts in parts:
            if len(combos) * len(alts) > 30:
                alts = [(("?", frozenset()),)]
            combos = [c + ((a,) if isinstance(a, str) else tuple(a)) for c in combos for a in alts]
        return frozenset(self.models.mkstr(c) for c in combos)

    def ev_FormattedValue(self, n):
        return frozenset((Unk("str", tags_of(self.eval(n.value))),))

    def ev_TemplateStr(self, n):
        return frozenset((TOP,))

    def ev_Starred(self, n):
        return self.eval(n.value)

    def ev_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v, n)
        return v

    def ev_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else frozenset((NONE,))
        fr = self.frame
        if not v <= fr.yielded:
            fr.yielded |= v
            self.changed = True
        self.emit_exc()
        return frozenset((TOP,))

    def ev_YieldFrom(self, n):
        v = self.iter_elems(self.eval(n.value))
        fr = self.frame
        if not v <= fr.yielded:
            fr.yielded |= v
            self.changed = True
        self.emit_exc()
        return frozenset((TOP,))

    def ev_Await(self, n):
        return self.eval(n.value)

    def iter_elems(self, vals, node=None):
        out = set()
        for v in vals:
            out |= self.models.iter_one(self, v, node)
        return cap(frozenset(out)) or frozenset((TOP,))

    # ------------------------------------------------------------------ calls
    def ev_Call(self, n):
        self.stats["calls"] += 1
        f = n.func
        recvs = None
        if isinstance(f, ast.Attribute):
            recvs = self.eval(f.value)
            # super().m
        else:
            targets = self.eval(f)
        pos, star, kw, dstar = [], None, {}, []
        for a in n.args:
            if isinstance(a, ast.Starred):
                sv = self.eval(a.value)
                exact = None
                if len(sv) == 1:
                    (x,) = sv
                    if isinstance(x, Ref) and x.obj.kind == "tuple" and not x.obj.elem and x.obj.fields and not x.obj.protos:
                        exact = [x.obj.fields[i] for i in sorted(x.obj.fields)]
                if exact is not None and star is None:
                    pos.extend(exact)
                else:
                    star = (star or E) | self.iter_elems(sv)
            else:
                v = self.eval(a)
                if star is None:
                    pos.append(v)
                else:
                    star = star | v
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                dstar.extend(v)
            else:
                kw[k.arg] = v
        args = (pos, star, kw, dstar)
        out = set()
        callees = []
        if recvs is not None:
            for r in recvs:
                callees.append(("m", r))
        else:
            for t in targets:
                callees.append(("f", t))
        self._n_callees = len(callees)
        if len(callees) > 1:
            # nondeterministic target: evaluate each from the same state, join
            g0, e0 = self.ghost, self.env
            results = {}
            stopped = 0
            for kind, t in callees:
                self.ghost = g0
                self.env = dict(e0)
                try:
                    r = self.call_method(t, f.attr, args, n) if kind == "m" else self.call_value(t, args, n)
                    if self.ghost in results:
                        results[self.ghost] = (results[self.ghost][0] | r, join_env(results[self.ghost][1], self.env))
                    else:
                        results[self.ghost] = (r, self.env)
                except AbsStop:
                    stopped += 1
            if not results:
                raise AbsStop()
            if self.track_abs and len(results) > 1 and all(k == "m" and isinstance(t, Ref) and t.obj.kind in ("dict", "box") for k, t in callees):
                # which of the dictionaries is completed: the one that needs it
                both = frozenset.intersection(*results)
                done = {}
                for g, (r, env) in results.items():
                    g = frozenset(f for f in g if f[0] != "abs" or f in both)
                    done[g] = (done[g][0] | r, join_env(done[g][1], env)) if g in done else (r, env)
                results = done
            gs = sorted(results, key=repr)
            g = gs[self.choose(len(gs))]
            self.ghost = g
            self.env = results[g][1]
            return cap(frozenset(results[g][0])) or frozenset((TOP,))
        for kind, t in callees:
            out |= self.call_method(t, f.attr, args, n) if kind == "m" else self.call_value(t, args, n)
        return cap(frozenset(out)) or frozenset((TOP,))

    def call_method(self, recv, name, args, n):
        if isinstance(recv, ModV):
            out = set()
            for t in self.module_attr(recv.mod, name):
                out |= self.call_value(t, args, n)
            return out
        if isinstance(recv, Ext):
            out = set()
            for t in self.models.ext_attr(self, recv, name, n):
                out |= self.call_value(t, args, n)
            return out
        if isinstance(recv, ClassV):
            c, a = recv.info.lookup(name)
            if a is None:
                return self.models.call_unknown(self, recv, name, args, n)
            out = set()
            for t in self.bind_method(a, recv, recv.info):
                out |= self.call_value(t, args, n)
            return out
        if isinstance(recv, Ref) and recv.obj.kind == "super":
            inst, cls = recv.obj.extra
            c, a = inst.obj.cls.lookup(name, skip_until=cls) if inst.obj.cls else (None, None)
            if a is None:
                return self.models.super_ext(self, inst, name, args, n)
            out = set()
            for t in self.bind_method(a, inst, inst.obj.cls):
                out |= self.call_value(t, args, n)
            return out
        if isinstance(recv, Ref) and recv.obj.kind == "inst":
            o = recv.obj
            out = set()
            found = False
            if name in o.fields:
                found = True
                for t in o.fields[name]:
                    out |= self.call_value(t, args, n)
            c, a = o.cls.lookup(name)
            if a is not None:
                found = True
                for f in a:
                    if isinstance(f, FuncV) and f.info.is_property:
                        for t in self.call_function(f, [frozenset((recv,))], {}, n):
                            out |= self.call_value(t, args, n)
                    else:
                        for t in self.bind_method((f,), recv, o.cls):
                            out |= self.call_value(t, args, n)
            if not found:
                out |= self.models.call_obj_method(self, recv, name, args, n)
            return out
        return self.models.call_obj_method(self, recv, name, args, n)

    def call_value(self, t, args, n):
        pos, star, kw, dstar = args
        if isinstance(t, FuncV):
            return self.call_bound(t, None, args, n)
        if isinstance(t, Bound):
            return self.call_bound(t.func, t.self, args, n)
        if isinstance(t, ClassV):
            return self.instantiate(t, args, n)
        if isinstance(t, Ext):
            return self.models.call_ext(self, t.name, args, n)
        if isinstance(t, Meth):
            return self.call_method(t.recv, t.name, args, n)
        if isinstance(t, Partial):
            return self.models.call_partial(self, t, args, n)
        if isinstance(t, Ref) and t.obj.kind == "inst":
            c, a = t.obj.cls.lookup("__call__")
            if a:
                out = set()
                for f in self.bind_method(a, t, t.obj.cls):
                    out |= self.call_value(f, args, n)
                return out
        return self.models.call_unknown(self, t, None, args, n)

    def instantiate(self, t, args, n):
        ci = t.info
        if any("Exception" in b or "Error" in b or "Warning" in b for b in ci.ext_bases()):
            return frozenset((Unk("exception", frozenset(), ci.name),))
        ext = ci.ext_bases()
        if any(b.startswith("enum.") for b in ext):
            return frozenset((TOP,))
        if any(b == "box.Box" or b.endswith("box.Box") for b in ext):
            return self.models.box(self, args[0], args[2], n)
        o = self.alloc("inst", n, cls=ci)
        r = Ref(o)
        c, a = ci.lookup("__init__")
        if a:
            for f in a:
                if isinstance(f, FuncV):
                    self.call_bound(f, r, args, n)
        else:
            # dataclass / namedtuple style
            names = [s.target.id for s in ci.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            for nm, v in zip(names, args[0]):
                self.set_field(o, nm, v)
            for k, v in args[2].items():
                self.set_field(o, k, v)
            c2, pi = ci.lookup("__post_init__")
            if pi:
                for f in pi:
                    self.call_bound(f, r, ([], None, {}, []), n)
        return frozenset((r,))

    def call_bound(self, fv, selfv, args, n):
        pos, star, kw, dstar = args
        info = fv.info
        p = list(pos)
        if selfv is not None:
            p = [frozenset((selfv,))] + p
        bound = {}
        extra_pos = []
        for i, v in enumerate(p):
            if i < len(info.posparams):
                bound[info.posparams[i]] = v
            else:
                extra_pos.append(v)
        extra_kw = {}
        for k, v in kw.items():
            if k in info.params:
                bound[k] = bound.get(k, E) | v
            else:
                extra_kw[k] = v
        dobjs = [d.obj for d in dstar if isinstance(d, Ref)]
        dunk = any(not isinstance(d, Ref) for d in dstar)
        for nm in info.params:
            if nm in bound:
                continue
            vals = set()
            certain = False
            if star is not None and nm in info.posparams:
                vals |= star
            for d in dobjs:
                if d.kind == "kwargs" and not d.protos:
                    if nm in d.fields:
                        vals |= d.fields[nm]
                        certain = True
                elif d.root is not None or d.protos or nm in d.fields or d.elem:
                    vals |= self.load_key(d, nm)
                    if nm in d.fields and d.root is None:
                        certain = True
            if nm in info.defaults and not certain:
                vals |= info.defaults[nm]
            if not vals:
                vals = {TOP}
            bound[nm] = cap(frozenset(vals))
        if info.vararg:
            o = self.alloc("tuple", n, extra=("vararg", info.qual))
            if star is None and extra_pos:
                for i, v in enumerate(extra_pos):
                    self.set_field(o, i, v)
            for v in extra_pos if star is not None else ():
                self.add_elem(o, v)
            if star is not None:
                self.add_elem(o, star)
            bound[info.vararg] = frozenset((Ref(o),))
        if info.kwarg:
            o = self.alloc("kwargs", n, extra=("kwarg", info.qual))
            for k, v in extra_kw.items():
                self.set_field(o, k, v)
            for d in dobjs:
                self.add_proto(o, d)
            bound[info.kwarg] = frozenset((Ref(o),))
        passed = frozenset(list(info.posparams[:len(p)]) + [k for k in kw if k in info.params])
        self.event("fncall", n, info.qual, [bound[q] for q in info.params], dict(kw),
                   extra=("passed", passed, bool(dstar) or star is not None))
        return self.call_function(fv, None, bound, n)

    def call_function(self, fv, pos, bound, n):
        info = fv.info
        if pos is not None:
            bound = dict(bound)
            for nm, v in zip(info.posparams, pos):
                bound[nm] = v
            for nm in info.params:
                if nm not in bound:
                    bound[nm] = info.defaults.get(nm) or frozenset((TOP,))
            if info.vararg and info.vararg not in bound:
                bound[info.vararg] = frozenset((Ref(self.alloc("tuple", n, extra=("vararg", info.qual))),))
            if info.kwarg and info.kwarg not in bound:
                bound[info.kwarg] = frozenset((Ref(self.alloc("kwargs", n, extra=("kwarg", info.qual))),))
        self.reached.add(info)
        if len(self.stack) > MAXDEPTH:
            self.event("depth", n, info.qual)
            return frozenset((TOP,))
        # recursion: fold the arguments into the outermost activation, use its summary so far
        rk = (info, fv.frame)
        if info in self.fnstack:
            mg = self.recargs.setdefault(rk, {})
            if info not in self.recfns:
                self.recfns.add(info)
                self.changed = True
            for k, v in bound.items():
                nv = cap(self.generalise(v) | mg.get(k, E))
                if nv != mg.get(k):
                    mg[k] = nv
                    self.changed = True
            self.emit_exc()
            vals = self.recvals.get(rk)
            if vals is None:
                self.recvals[rk] = E
                self.changed = True
                vals = E
            if not vals:
                raise AbsStop()
            return vals
        mg = self.recargs.get(rk)
        if mg:
            bound = {k: cap(v | mg.get(k, E)) for k, v in bound.items()}
        # context budget
        cnt = self.ctx_count.setdefault(info, set())
        key0 = frozenset(bound.items())
        ck = (id(n),) + tuple(id(x) for x in self.stack[-1:])
        if key0 not in cnt:
            if len(cnt) >= MAXCTX:
                # context-insensitive from here on: one growing argument binding
                mg = self.merged.setdefault((info, fv.frame), {})
                bound = {k: cap(self.generalise(v) | mg.get(k, E)) for k, v in bound.items()}
                if any(mg.get(k) != v for k, v in bound.items()):
                    mg.update(bound)
                    self.changed = True
                bound = dict(mg)
                key0 = "merged"
                ck = ("merged",)
                n = info.node
            cnt.add(key0)
        key = (info, fv.frame, key0, self.ghost, ck)
        res = self.memo.get(key)
        if res is None:
            if key in self.active:
                prev = self.returns.get(key)
                self.active[key] = True
                if prev is None:
                    raise AbsStop()      # bottom: first approximation of a recursive call
                res = prev
            else:
                res = self.run_function(fv, bound, n, key)
        rets, excs = res
        for g in excs:
            self.emit_exc(g)
        if not rets:
            raise AbsStop()
        gs = sorted(rets, key=repr)
        g = gs[self.choose(len(gs))]
        self.ghost = g
        return rets[g]

    def generalise(self, vals):
        out = set()
        for v in vals:
            if isinstance(v, Const) and v.v is not None and not isinstance(v.v, bool):
                out.add(Unk(v.k[0]))
            elif isinstance(v, StrP):
                out.add(Unk("str", v.tags))
            else:
                out.add(v)
        return frozenset(out)

    def run_function(self, fv, bound, n, key):
        info = fv.info
        self.stats["inlined"] += 1
        saved = (self.frame, self.env, self.ghost, self.exc, self.choices, self.choice_i, self.in_module)
        self.active[key] = False
        self.stack.append(n)
        self.fnstack.append(info)
        fkey = (info, fv.frame, self.ctxkey())
        fr = self.frames.get(fkey)
        if fr is None:
            fr = self.frames[fkey] = Frame(info, info.module, fv.frame, self.ctxkey())
        self.frame = fr
        self.in_module = 0
        saved_lc, self.loopcache = self.loopcache, {}
        env = dict(bound)
        for k, v in env.items():
            cur = fr.accum.get(k)
            if cur is None or not v <= cur:
                fr.accum[k] = cap((cur or E) | v)
        self.env = env
        try:
            for attempt in range(1):
                if isinstance(info.node, ast.Lambda):
                    out = Out()
                    for g2, env2, v in self.run_choices(self.ghost, env, lambda: self.eval(info.node.body), out):
                        merge_ret(out.ret, {g2: (v, env2)})
                else:
                    out = self.exec_block(info.node.body, {saved[2]: env})
                rets = {}
                for g, (v, e) in out.ret.items():
                    rets[g] = rets.get(g, E) | v
                for g, e in out.normal.items():
                    rets[g] = rets.get(g, E) | frozenset((NONE,))
                if info.is_gen:
                    o = self.alloc("generator", n, extra=info.qual)
                    self.add_elem(o, frozenset(fr.yielded))
                    o.extra = info
                    rets = {g: frozenset((Ref(o),)) for g in rets}
                if len(rets) > MAXSTATES:
                    rets = {squeeze(rets): cap(frozenset().union(*rets.values()))}
                if self.track_abs:
                    # what a failed call had begun to fill is lost with it
                    exc = {}
                    for g, e in out.exc.items():
                        put(exc, frozenset(f for f in g if f[0] not in ("abs", "loose") or f in saved[2]), e)
                    out.exc = exc
                res = (rets, frozenset(out.exc) if len(out.exc) <= MAXSTATES else frozenset((squeeze(out.exc),)))
                rk = (info, fv.frame)
                if rk in self.recvals:
                    allv = self.recvals[rk]
                    for v in rets.values():
                        allv = allv | v
                    allv = cap(allv)
                    if allv != self.recvals[rk]:
                        self.recvals[rk] = allv
                        self.changed = True
                if self.active[key] and self.returns.get(key) != res:
                    prev = self.returns.get(key)
                    if prev is not None:
                        merged = dict(prev[0])
                        for g, v in rets.items():
                            merged[g] = cap(merged.get(g, E) | v)
                        res = (merged, prev[1] | res[1])
                        if res == prev:
                            break
                    self.returns[key] = res
                    self.changed = True
                break
        finally:
            self.stack.pop()
            self.fnstack.pop()
            self.loopcache = saved_lc
            del self.active[key]
            (self.frame, self.env, self.ghost, self.exc, self.choices, self.choice_i, self.in_module) = saved
        self.memo[key] = res
        return res

    # ------------------------------------------------------------------ entry
    def run_entry(self, modname, fnname, argspec, rounds=12):
        """argspec: name -> frozenset of values; missing params become input roots."""
        m = self.p.modules.get(modname)
        if m is None:
            raise AnalysisError(f"module {modname} vanished")
        vals = m.globals.get(fnname)
        fvs = [v for v in (vals or ()) if isinstance(v, FuncV)]
        if not fvs:
            raise AnalysisError(f"entry {modname}.{fnname} is not a function any more")
        fv = fvs[0]
        info = fv.info
        self.reached.add(info)
        bound = {}
        for nm in info.params:
            bound[nm] = argspec.get(nm) or frozenset((Ref(self.root_obj((nm,), self.models.root_kind((nm,)))),))
            # a mutable default is one object for all calls
            bound[nm] |= frozenset(v for v in info.defaults.get(nm, ()) if isinstance(v, Ref) and v.obj.static)
        if info.vararg:
            bound[info.vararg] = frozenset((Ref(self.root_obj((info.vararg,))),))
        if info.kwarg:
            o = self.alloc("kwargs", info.node, extra="entry", ctx=False)
            o.protos = []
            ro = self.root_obj((info.kwarg,))
            self.add_proto(o, ro)
            bound[info.kwarg] = frozenset((Ref(o),))
        for r in range(rounds):
            self.stats["rounds"] += 1
            self.changed = False
            self.memo = {}
            self.ctx_count = {}
            self.events = {}
            self.taken = set()
            self.frame = Frame(None, m, None, ())
            self.frame.accum = m.globals
            self.env, self.ghost, self.exc = {}, frozenset(), {}
            self.choices, self.choice_i = [], 0
            self.stack, self.fnstack = [], []
            res = None
            try:
                # collect all ghost outcomes at once
                self.choices = []
                key = (info, "entry", r)
                self.active[key] = False
                del self.active[key]
                res = self.run_function(fv, bound, info.node, key)
            except AbsStop:
                res = ({}, frozenset())
            if not self.changed:
                break
        self.memo = {}
        return res
