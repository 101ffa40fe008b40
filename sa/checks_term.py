"""C11: every loop reached while reading makes progress on every path back to its head."""
import ast
import re

from common import *
from project import enclosing
from checks_flow import FlowCheck, dedup, site, conjuncts

LEAVE = (ast.Return, ast.Raise, ast.Break)
READ = re.compile(r"^_*(read|readline|readinto|read1|recv|read_bytes|read_\w+)$")
UNPACK = {"unpack", "unpack_from", "iter_unpack"}
REMOVE = re.compile(r"^(pop|popleft|popitem|remove\w*|discard|clear)$")
UNKNOWN = object()
INVERT = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
          ast.In: ast.NotIn, ast.NotIn: ast.In}


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def keys_of(e):
    """Variables an expression depends on: names and self attributes."""
    return names(e) | {"self." + x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"}


def key(t):
    if isinstance(t, ast.Name):
        return t.id
    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
        return "self." + t.attr
    return None


def value(e, env):
    """Value of an expression when some variables are known (the empty read at the end of the file), else UNKNOWN."""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.NamedExpr):
        return value(e.value, env)
    if key(e) in env:
        return env[key(e)]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = value(e.operand, env)
        return UNKNOWN if v is UNKNOWN else not v
    if isinstance(e, ast.BoolOp):
        vs = [value(x, env) for x in e.values]
        if isinstance(e.op, ast.And):
            if any(v is not UNKNOWN and not v for v in vs):
                return False
        elif any(v is not UNKNOWN and v for v in vs):
            return True
        return UNKNOWN if any(v is UNKNOWN for v in vs) else vs[-1]
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ("len", "bool", "str", "any", "all", "bytes") and len(e.args) == 1:
            v = value(e.args[0], env)
            return UNKNOWN if v is UNKNOWN or not isinstance(v, (str, bytes)) else {"len": 0, "bool": False, "any": False, "all": True}.get(e.func.id, v)
        if isinstance(e.func, ast.Attribute):
            v = value(e.func.value, env)
            if isinstance(v, (str, bytes)) and not v:
                a = e.func.attr
                if a in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "casefold"):
                    return v
                if a == "decode":
                    return ""
                if a in ("startswith", "endswith") and e.args and isinstance(e.args[0], ast.Constant):
                    return not e.args[0].value
                if a == "isspace":
                    return False
        return UNKNOWN
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = value(e.left, env), value(e.comparators[0], env)
        op = e.ops[0]
        if isinstance(op, (ast.In, ast.NotIn)) and not (a is UNKNOWN) and isinstance(e.comparators[0], (ast.Tuple, ast.List, ast.Set)):
            b = [value(x, env) for x in e.comparators[0].elts]
            if any(x is UNKNOWN for x in b):
                return UNKNOWN
        if isinstance(op, (ast.In, ast.NotIn)) and a is not UNKNOWN and a and b in ("", b""):
            return isinstance(op, ast.NotIn)
        if a is UNKNOWN or b is UNKNOWN:
            return UNKNOWN
        try:
            return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                    ast.GtE: lambda: a >= b, ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b}[type(op)]()
        except TypeError:
            return UNKNOWN
    return UNKNOWN


class Loop:
    """One while loop (or for loop over an endless iterator)."""
    depth = 0
    rets = None      # when a helper is analysed: states at its return statements

    def __init__(self, node, summaries):
        self.node, self.sum = node, summaries
        self.cond = node.test if isinstance(node, ast.While) else ast.Constant(True)
        self.fn = enclosing(node, ast.FunctionDef) or node
        self.eofs = self.eof_values()
        self.why = set()
        self.deps = self.exit_vars()

    def eof_values(self):
        modes = set()
        for c in ast.walk(self.fn):
            if isinstance(c, ast.Call) and ((isinstance(c.func, ast.Name) and c.func.id == "open") or (isinstance(c.func, ast.Attribute) and c.func.attr == "open")):
                m = next((k.value for k in c.keywords if k.arg == "mode"), c.args[1] if len(c.args) > 1 else None)
                modes.add(b"" if m is not None and isinstance(m, ast.Constant) and isinstance(m.value, str) and "b" in m.value else "" if m is None or isinstance(m, ast.Constant) else None)
        return [next(iter(modes))] if len(modes) == 1 and None not in modes else ["", b""]

    def exit_vars(self):
        deps = set(keys_of(self.cond))
        for n in ast.walk(self.node):
            if isinstance(n, ast.If) and any(isinstance(x, LEAVE) for b in (n.body, n.orelse) for x in b):
                deps |= keys_of(n.test)
        while True:
            new = set(deps)
            for n in ast.walk(self.node):
                if isinstance(n, ast.Assign) and any(key(t) in deps for tt in n.targets for t in (tt.elts if isinstance(tt, (ast.Tuple, ast.List)) else [tt])):
                    new |= keys_of(n.value)
            if new == deps:
                return deps
            deps = new

    # -- facts about single statements
    def is_read(self, e):
        return isinstance(e, ast.Call) and (isinstance(e.func, ast.Attribute) and bool(READ.match(e.func.attr)) and self.sum.reads(e, self.node)
                                            or isinstance(e.func, ast.Name) and e.func.id in ("input",)
                                            or self.sum.plain_read(e, self.node))

    def has_read(self, e):
        """A read whose result, empty at the end of the file, reaches what e is used for: `read() or something` is never empty."""
        stack = [e]
        while stack:
            x = stack.pop()
            if self.is_read(x) or isinstance(x, ast.Call) and ast.unparse(x.func).endswith("fromfile"):
                return True
            if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.Or):
                stack.append(x.values[-1])
            else:
                stack.extend(ast.iter_child_nodes(x))
        return False

    def clamped(self, k):
        """Every test that could end the loop sees the variable only through min() or max()."""
        tests = [self.cond] + [n.test for n in ast.walk(self.node) if isinstance(n, ast.If) and any(isinstance(x, LEAVE) for b in (n.body, n.orelse) for x in b)]
        seen = free = 0
        stack = [(t, False) for t in tests]
        while stack:
            x, inside = stack.pop()
            if key(x) == k:
                seen += 1
                free += not inside
            inside = inside or isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in ("min", "max", "clip", "minimum", "maximum")
            stack.extend((c, inside) for c in ast.iter_child_nodes(x))
        return seen > 0 and not free

    def raising_read(self, e):
        """Evaluating e reads from the file and raises at its end."""
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                f = x.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                if (nm in UNPACK or "unp" in nm or nm in ("int", "float", "loads", "index")) and any(self.has_read(a) for a in x.args):
                    return True
                if nm == "next" and len(x.args) == 1 or nm == "input":
                    return True
                if self.sum.consumes(x, self.node):
                    return True
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and not isinstance(x.slice, ast.Slice) and isinstance(x.value, ast.Call) \
                    and re.search(r"(fromfile|frombuffer|unpack)$", ast.unparse(x.value.func)) and self.has_read(x.value):
                return True
        return False

    def eof_binding(self, st):
        """Variable bound to the plain result of a read."""
        tgt, v = None, None
        if isinstance(st, ast.Assign) and len(st.targets) == 1:
            tgt, v = key(st.targets[0]), st.value
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            tgt, v = key(st.target), st.value
        if tgt is None:
            return None
        while True:
            if self.is_read(v):
                return tgt
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("str", "bytes") and len(v.args) == 1:
                v = v.args[0]
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("strip", "rstrip", "lstrip", "decode", "lower"):
                v = v.func.value
            else:
                return None

    def false_at_eof(self, e, var):
        return any(value(e, {var: x}) is not UNKNOWN and not value(e, {var: x}) for x in self.eofs)

    def true_at_eof(self, e, var):
        return any(value(e, {var: x}) is not UNKNOWN and bool(value(e, {var: x})) for x in self.eofs)

    def positive(self, e, depth=0):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, float)) and e.value > 0
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.positive(e.left, depth) or self.positive(e.right, depth)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            return self.positive(e.left, depth) and self.positive(e.right, depth)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "max":
            return any(self.positive(a, depth) for a in e.args)
        if isinstance(e, ast.Call) and ast.unparse(e.func) in ("struct.calcsize", "calcsize"):
            return True
        if isinstance(e, ast.Attribute) and e.attr in ("itemsize", "size") and isinstance(e.value, ast.Name) and e.attr == "itemsize":
            return True
        if isinstance(e, (ast.Name, ast.Attribute)) and key(e) and depth < 4:
            k = key(e)
            if self.guarded(k):
                return True
            binds = [n.value for n in ast.walk(self.fn) if isinstance(n, ast.Assign) and any(key(t) == k for t in n.targets)]
            others = [n for n in ast.walk(self.fn) if isinstance(n, (ast.AugAssign, ast.For, ast.NamedExpr)) and key(n.target) == k
                      or isinstance(n, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) and any(key(y) == k for y in t.elts) for t in n.targets)]
            if not binds and not others:
                for s in self.fn._module.tree.body:
                    if isinstance(s, ast.Assign) and any(key(t) == k for t in s.targets):
                        binds.append(s.value)
            return bool(binds) and not others and all(self.positive(b, depth + 1) for b in binds)
        return False

    def unfold(self, t, neg=False, depth=0):
        """The test with named conditions replaced by what they stand for and negations moved inwards."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.unfold(t.operand, not neg, depth)
        if isinstance(t, ast.Name) and depth < 3:
            binds = [n.value for n in ast.walk(self.node) if isinstance(n, ast.Assign) and any(key(x) == t.id for x in n.targets)]
            if len(binds) == 1 and isinstance(binds[0], (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                return self.unfold(binds[0], neg, depth + 1)
        if isinstance(t, ast.BoolOp):
            op = t.op if not neg else ast.And() if isinstance(t.op, ast.Or) else ast.Or()
            return ast.BoolOp(op=op, values=[self.unfold(x, neg, depth) for x in t.values])
        if neg and isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in INVERT:
            return ast.Compare(left=t.left, ops=[INVERT[type(t.ops[0])]()], comparators=t.comparators)
        return ast.UnaryOp(op=ast.Not(), operand=t) if neg else t

    def guarded(self, k):
        """The loop is left when the value is not positive: if k <= 0: raise (or break, return)."""
        for n in ast.walk(self.node):
            if not isinstance(n, ast.If):
                continue
            for body, neg in ((n.body, False), (n.orelse, True)):
                if not body or not isinstance(body[-1], LEAVE):
                    continue
                t = self.unfold(n.test, neg)
                for c in t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or) else [t]:
                    r = value(c, {k: 0})
                    if r is not UNKNOWN and r:
                        return True
                    if isinstance(c, ast.Compare) and len(c.ops) == 1 and key(c.left) == k and isinstance(c.ops[0], (ast.Lt, ast.LtE)) \
                            and (self.positive(c.comparators[0], 2) or isinstance(c.ops[0], ast.LtE) and isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value == 0):
                        return True
                    if isinstance(c, ast.Compare) and len(c.ops) == 1 and key(c.comparators[0]) == k and isinstance(c.ops[0], (ast.Gt, ast.GtE)) and self.positive(c.left, 2):
                        return True
        return False

    def direction_ok(self, k, up):
        for c in conjuncts(self.cond):
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and key(c.left) == k:
                if isinstance(c.ops[0], (ast.Lt, ast.LtE)):
                    return up
                if isinstance(c.ops[0], (ast.Gt, ast.GtE)):
                    return not up
        return True

    def progress(self, st):
        """Executing this simple statement without an exception brings the loop closer to its end."""
        if isinstance(st, ast.AugAssign) and key(st.target) in self.deps and isinstance(st.op, (ast.Add, ast.Sub, ast.RShift, ast.FloorDiv)):
            if isinstance(st.op, (ast.Add, ast.Sub)) and self.positive(st.value) and not self.clamped(key(st.target)) and self.direction_ok(key(st.target), isinstance(st.op, ast.Add)):
                return "a counter advances"
            if isinstance(st.op, (ast.RShift, ast.FloorDiv)):
                return "a counter shrinks"
        if isinstance(st, ast.Assign) and len(st.targets) == 1:
            k = key(st.targets[0])
            v = st.value
            if k in self.deps and isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)):
                terms, e = [], v
                while isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
                    terms.append(e.right)
                    e = e.left
                if key(e) == k and any(self.positive(t) for t in terms):
                    return "a counter advances"
                if isinstance(v.op, ast.Add) and key(v.right) == k and self.positive(v.left):
                    return "a counter advances"
            if k in self.deps and isinstance(v, ast.Subscript) and key(v.value) == k and isinstance(v.slice, ast.Slice) and v.slice.lower is not None \
                    and self.positive(v.slice.lower):
                return "a buffer is consumed"
            if k in self.deps and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("find", "index", "rfind", "rindex"):
                for a in v.args[1:]:
                    if isinstance(a, ast.BinOp) and self.positive(a) and k in keys_of(a):
                        return "a search position advances"
            if k in self.deps and isinstance(v, ast.Attribute) and key(v.value) == k:
                return "a link is followed"
        if isinstance(st, ast.Assign) and any(k in self.deps for t in st.targets for k in (map(key, t.elts) if isinstance(t, (ast.Tuple, ast.List)) else ())):
            # the next position is computed from a match found (index raises when there is none) at or after the current one
            outs = {key(x) for t in st.targets if isinstance(t, (ast.Tuple, ast.List)) for x in t.elts} & keys_of(self.cond)
            for n in ast.walk(self.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "index" \
                        and len(n.value.args) > 1 and keys_of(n.value.args[1]) & outs and {key(t) for t in n.targets} & keys_of(st.value):
                    return "a search position advances"
        for x in ast.walk(st):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and REMOVE.match(x.func.attr):
                root = x.func.value
                while isinstance(root, (ast.Attribute, ast.Subscript)) and key(root) is None:
                    root = root.value
                if keys_of(x.func.value) & self.deps:
                    return "a container is emptied"
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    return "an existing item is deleted"
        if self.raising_read(st):
            return "the file is read, with an error at its end"
        v = self.eof_binding(st)
        if v is not None and self.false_at_eof(self.cond, v):
            return "the file is read, and the condition ends the loop at its end"
        if isinstance(st, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) > 1 for t in st.targets) and self.has_read(st.value) \
                and "partition" not in ast.unparse(st.value):
            return "the file is read, with an error at its end"
        if self.helper_advances(st):
            return "a helper advances"
        c = st.value if isinstance(st, ast.Expr) else None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "add") and c.args:
            k = key(c.func.value)
            if k in self.deps and any(isinstance(x, ast.Call) and ast.unparse(x.func) == "len" and x.args and key(x.args[0]) == k for x in ast.walk(self.node)) \
                    and not any(isinstance(x, ast.Attribute) and REMOVE.match(x.attr) and key(x.value) == k for x in ast.walk(self.node)) and c.func.attr == "append":
                return "a list grows"
            p = getattr(st, "_parent", None)
            if isinstance(p, ast.If) and st in p.body:
                for t in conjuncts(p.test):
                    if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.NotIn) and ast.dump(t.left) == ast.dump(c.args[0]) \
                            and keys_of(c.func.value) & keys_of(t.comparators[0]):
                        return "a set of visited elements grows"
        return None

    def helper_advances(self, st):
        """x = helper(x, ...) or self.helper(...), where the helper itself advances what the loop depends on."""
        for c in ast.walk(st):
            fns = self.sum.resolve(c, self.node) if isinstance(c, ast.Call) else None
            if not fns:
                continue
            outs = set()
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    outs |= set(map(key, t.elts)) if isinstance(t, (ast.Tuple, ast.List)) else {key(t)}
            both = outs & self.deps & {k for a in list(c.args) + [w.value for w in c.keywords] for k in keys_of(a)}
            attrs = {k for k in self.deps if k and k.startswith("self.")}
            for fn in fns:
                params = [a.arg for a in fn.args.args]
                if params and params[0] in ("self", "cls"):
                    params = params[1:]
                tracked = {p for p, a in zip(params, c.args) if keys_of(a) & both} | {k.arg for k in c.keywords if keys_of(k.value) & both} | attrs
                if not tracked:
                    continue
                w = ast.While(test=ast.Constant(True), body=fn.body, orelse=[])
                w._module, w._parent = fn._module, fn
                lp = Loop.__new__(Loop)
                lp.node, lp.sum, lp.cond, lp.fn, lp.eofs, lp.why, lp.deps = w, self.sum, w.test, fn, ["", b""], set(), tracked
                if self.depth < 3:
                    lp.depth = self.depth + 1
                    for s in ast.walk(fn):
                        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and lp.progress(s):
                            return True
                        if both and isinstance(s, ast.Return) and s.value is not None and any(
                                isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)) and keys_of(x) & tracked
                                and (lp.positive(x.right) or lp.positive(x.left)) for x in ast.walk(s.value)):
                            return True
        return False

    def bounded_growth(self):
        """X grows in the loop, which is left by an error when len(X) exceeds a bound."""
        for n in ast.walk(self.node):
            if isinstance(n, ast.If) and n.body and isinstance(n.body[-1], (ast.Raise, ast.Return)) and isinstance(n.test, ast.Compare) \
                    and isinstance(n.test.ops[0], (ast.Gt, ast.GtE)) and isinstance(n.test.left, ast.Call) and ast.unparse(n.test.left.func) == "len":
                x = ast.dump(n.test.left.args[0])
                blk = n._parent
                for f in ("body", "orelse"):
                    for s in getattr(blk, f, []) if n in getattr(blk, f, []) else []:
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                                and s.value.func.attr in ("extend", "append", "add") and ast.dump(s.value.func.value) == x:
                            return True
        return False

    # -- flow: set of (progressed, will leave at the head, reads pending) states
    def flow(self, stmts, S):
        cont = set()
        for st in stmts:
            if not S:
                break
            if isinstance(st, ast.Return) and self.rets is not None:
                h0 = st.value is not None and self.raising_read(st.value)
                self.rets |= {(h or h0, x, p) for h, x, p in S}
            if isinstance(st, LEAVE):
                return set(), cont
            if isinstance(st, ast.Continue):
                return set(), cont | S
            if isinstance(st, ast.If):
                S0 = {(True, x, p) if self.raising_read(st.test) else (h, x, p) for h, x, p in S} if self.raising_read(st.test) else S
                for w in ast.walk(st.test):
                    if isinstance(w, ast.NamedExpr) and self.is_read(w.value):
                        S0 = {(h, x, w.target.id) for h, x, p in S0}
                a, b = set(), set()
                for h, x, p in S0:
                    ha = hb = h
                    if p is not None:
                        if self.true_at_eof(st.test, p):
                            hb = True            # not the end of the file on this branch: something was read
                        elif self.false_at_eof(st.test, p):
                            ha = True
                    a.add((ha, x, p))
                    b.add((hb, x, p))
                if isinstance(st.test, ast.Constant):
                    a, b = (a, set()) if st.test.value else (set(), b)
                n1, c1 = self.flow(st.body, a)
                n2, c2 = self.flow(st.orelse, b)
                S, cont = n1 | n2, cont | c1 | c2
            elif isinstance(st, ast.With):
                S, c = self.flow(st.body, S)
                cont |= c
            elif isinstance(st, ast.For):
                if self.raising_read(st.iter):
                    S = {(True, x, p) for h, x, p in S}
                cur = set(S)
                while True:
                    n, c = self.flow_inner(st.body, cur)
                    if n | c <= cur:
                        break
                    cur |= n | c
                S = cur
            elif isinstance(st, ast.While):
                cur = set(S)
                while True:
                    n, c = self.flow_inner(st.body, cur)
                    if n | c <= cur:
                        break
                    cur |= n | c
                S = set() if isinstance(st.test, ast.Constant) and st.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(st)) else cur
            elif isinstance(st, ast.Try):
                n, c = self.flow(st.body, S)
                cont |= c
                n2, c2 = self.flow(st.orelse, n)
                cont |= c2
                hs = set()
                mid = set(S)
                # an exception after a progress statement of the body: progress was made or that statement raised
                for h in st.handlers:
                    k, c3 = self.flow(h.body, mid)
                    hs |= k
                    cont |= c3
                S = n2 | hs
                if st.finalbody:
                    S, c4 = self.flow(st.finalbody, S)
                    cont |= c4
            elif isinstance(st, ast.Match):
                new = set(S)
                for cs in st.cases:
                    k, c5 = self.flow(cs.body, S)
                    new |= k
                    cont |= c5
                S = new
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
                pass
            else:
                why = self.progress(st)
                if why:
                    self.why.add(why)
                    S = {(True, x, p) for h, x, p in S}
                v = self.eof_binding(st)
                if v is not None:
                    S = {(h, x, v) for h, x, p in S}
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and key(st.targets[0]) in keys_of(self.cond):
                    r = value(self.cond, {key(st.targets[0]): value(st.value, {})}) if value(st.value, {}) is not UNKNOWN else UNKNOWN
                    S = {(h, r is not UNKNOWN and not r, p) for h, x, p in S}
        return S, cont

    def flow_inner(self, stmts, S):
        """Body of an inner loop: break and continue belong to it."""
        brk = []

        def strip(ss):
            return ss
        n, c = self.flow(stmts, S)
        # a break of the inner loop leaves it with the states seen so far: approximate by the entry states
        if any(isinstance(x, ast.Break) for s in stmts for x in ast.walk(s)):
            n = n | S
        return n, c

    def verdict(self):
        start = {(False, False, None)}
        for w in ast.walk(self.cond):
            if isinstance(w, ast.NamedExpr) and self.is_read(w.value) and self.false_at_eof(self.cond, w.target.id):
                return "the file is read, and the condition ends the loop at its end"
            if isinstance(w, ast.Call) and self.is_read(w) and isinstance(w, ast.Call):
                if self.raising_read(self.cond):
                    return "the file is read, with an error at its end"
        if isinstance(self.cond, ast.Constant) and not self.cond.value:
            return "never entered"
        n, c = self.flow(self.node.body, start)
        bad = [s for s in n | c if not s[0] and not s[1]]
        if bad and all(b[2] is not None for b in bad):
            # the end of the file is noticed at the next pass
            again = {b for b in bad if not self.false_at_eof(self.cond, b[2])}
            n, c = self.flow(self.node.body, again)
            bad = [s for s in n | c if not s[0] and not s[1]]
        if not bad:
            return ", ".join(sorted(self.why)) or "every path leaves the loop"
        if self.bounded_growth():
            return "growth is bounded"
        return None


class Summaries:
    """Which functions read from the file on every path and raise at its end."""

    def __init__(self, project):
        self.by_name = {}
        for m in project.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    self.by_name.setdefault((m.name, n.name), []).append(n)
        self.memo = {}

    def resolve(self, call, at):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
            nm = f.attr
        elif isinstance(f, ast.Name):
            nm = f.id
        else:
            return None
        return self.by_name.get((at._module.name, nm))

    def reads(self, call, at):
        """Whether a method called read_... reads on from a position: false for a helper of the package that never does."""
        fns = self.resolve(call, at)
        if not fns:
            return True
        return any(self.touches(fn) for fn in fns)

    def touches(self, fn):
        if ("t", fn) not in self.memo:
            self.memo["t", fn] = False
            got = False
            for c in ast.walk(fn):
                if isinstance(c, ast.Call) and not got:
                    nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
                    sub = self.resolve(c, fn)
                    got = any(self.touches(x) for x in sub) if sub else nm in ("fromfile", "next", "input") or bool(READ.match(nm))
            self.memo["t", fn] = got
        return self.memo["t", fn]

    def consumes(self, call, at):
        fns = self.resolve(call, at)
        return bool(fns) and all(self.fn(x) for x in fns)

    def plain_read(self, call, at):
        """A helper that returns what a read gives, also at the end of the file."""
        fns = self.resolve(call, at)
        if not fns:
            return False
        for fn in fns:
            if ("r", fn) not in self.memo:
                self.memo["r", fn] = False
                lp = Loop.__new__(Loop)
                lp.node, lp.sum, lp.fn = fn, self, fn
                rets = [x.value for x in ast.walk(fn) if isinstance(x, ast.Return)]
                bound = {key(x.targets[0]) for x in ast.walk(fn) if isinstance(x, ast.Assign) and len(x.targets) == 1 and lp.eof_binding(x)}
                self.memo["r", fn] = bool(rets) and all(v is not None and (key(v) in bound or lp.eof_binding(ast.Assign(targets=[ast.Name("x")], value=v))) for v in rets)
            if not self.memo["r", fn]:
                return False
        return True

    def fn(self, n):
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = False
        w = ast.While(test=ast.Constant(True), body=n.body, orelse=[])
        w._module, w._parent = n._module, n
        lp = Loop.__new__(Loop)
        lp.node, lp.sum, lp.cond, lp.fn, lp.eofs, lp.why, lp.deps = w, self, w.test, n, ["", b""], set(), set()
        lp.rets = set()
        out, _ = lp.flow(n.body, {(False, False, None)})
        self.memo[n] = all(h for h, x, p in out | lp.rets)
        return self.memo[n]


# ---- helpers put back into the loop: a loop is the same loop when part of its body was moved to a function
def cp(n):
    if isinstance(n, list):
        return [cp(x) for x in n]
    if not isinstance(n, ast.AST):
        return n
    m = type(n)(**{f: cp(getattr(n, f, None)) for f in n._fields})
    for a in n._attributes:
        if hasattr(n, a):
            setattr(m, a, getattr(n, a))
    m._orig = getattr(n, "_orig", n)
    return m


def ends(stmts):
    """Control never runs off the end of these statements."""
    if not stmts:
        return False
    s = stmts[-1]
    return isinstance(s, LEAVE + (ast.Continue,)) or isinstance(s, ast.If) and ends(s.body) and ends(s.orelse) or isinstance(s, ast.With) and ends(s.body)


def has_return(n):
    return any(isinstance(x, ast.Return) for x in ast.walk(n))


def tail_returns(stmts):
    """The statements with every return in tail position, or None."""
    out = []
    for i, s in enumerate(stmts):
        if isinstance(s, ast.Return):
            return out + [s]
        if not has_return(s):
            out.append(s)
            continue
        rest = stmts[i + 1:]
        if isinstance(s, ast.If):
            a = tail_returns(s.body if ends(s.body) else s.body + cp(rest))
            b = tail_returns(s.orelse if ends(s.orelse) else s.orelse + cp(rest))
            if a is None or b is None:
                return None
            n = cp(s)
            n.body, n.orelse = a or [ast.Pass()], b
            return out + [n]
        if isinstance(s, ast.With) and not rest:
            a = tail_returns(s.body)
            if a is None:
                return None
            n = cp(s)
            n.body = a
            return out + [n]
        return None
    return out


class Subst(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        v = self.m.get(n.id)
        if v is None:
            return n
        if isinstance(v, str):
            return ast.Name(v, n.ctx)
        return cp(v)

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_FunctionDef


def simple_arg(a):
    return isinstance(a, (ast.Name, ast.Constant)) or isinstance(a, ast.Attribute) and simple_arg(a.value)


class Inliner:
    def __init__(self, sums, module, stack=()):
        self.sums, self.module, self.stack, self.n, self.done = sums, module, stack, 0, 0

    def expand(self, call, give):
        """Statements equal to the call; give(value or None) makes the statements that use the result."""
        anchor = ast.Pass()
        anchor._module = self.module
        fns = self.sums.resolve(call, anchor)
        if not fns or len(fns) != 1:
            return None
        fn = fns[0]
        a = fn.args
        if fn in self.stack or len(self.stack) > 3 or fn.decorator_list or a.vararg or a.kwarg or a.posonlyargs or any(
                isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda)) for b in fn.body for x in ast.walk(b)):
            return None
        params = [x.arg for x in a.args]
        m, pre = {}, []
        args = list(call.args)
        if params and params[0] in ("self", "cls") and isinstance(call.func, ast.Attribute):
            if params[0] != "self" or call.func.value.id != "self":
                return None
            params = params[1:]
        if len(args) > len(params) or any(isinstance(x, ast.Starred) for x in args) or any(k.arg is None for k in call.keywords):
            return None
        vals = dict(zip(params, args))
        vals.update({k.arg: k.value for k in call.keywords})
        dflt = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.n += 1
        tag = f"_i{len(self.stack)}_{self.n}_{fn.name}"
        body = tail_returns(cp(fn.body))
        if body is None:
            return None
        stored = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for p in params + [x.arg for x in a.kwonlyargs]:
            v = vals.get(p, dflt.get(p))
            if v is None:
                return None
            if p not in stored and simple_arg(v):
                m[p] = v
            elif p in stored and isinstance(v, ast.Name) and give is not None and v.id in give.targets:
                m[p] = v.id          # x = helper(x): the same variable throughout
            else:
                m[p] = tag + p
                pre.append(ast.Assign([ast.Name(tag + p, ast.Store())], v))
        for x in stored - set(m):
            m[x] = tag + x
        # y = helper(...), where the helper ends with return y: the same variable
        rets = [x for b in body for x in ast.walk(b) if isinstance(x, ast.Return)]
        if len(rets) == 1 and rets[0].value is not None:
            rv = rets[0].value
            rn = [rv] if isinstance(rv, ast.Name) else list(rv.elts) if isinstance(rv, ast.Tuple) else []
            if len(rn) == len(give.targets) and all(isinstance(x, ast.Name) for x in rn):
                for x, t in zip(rn, give.targets):
                    if m.get(x.id) == tag + x.id and t is not None and x.id in stored and t not in m.values():
                        m[x.id] = t
        sub = Subst(m)
        body = [sub.visit(b) for b in body]
        inner = Inliner(self.sums, fn._module, self.stack + (fn,))
        inner.n = self.n * 100
        body = inner.block(body)
        self.done += 1
        return pre + self.finish(body, give)

    def finish(self, body, give):
        """return e in tail position: what the caller does with the result."""
        out = []
        for s in body:
            if isinstance(s, ast.Return):
                return out + give(s.value)
            if has_return(s):
                if isinstance(s, ast.If):
                    s.body = self.finish(s.body, give) or [ast.Pass()]
                    s.orelse = self.finish(s.orelse, give)
                else:
                    s.body = self.finish(s.body, give)
                return out + [s]
            out.append(s)
        return out + give(None)

    def block(self, stmts):
        out = []
        for s in stmts:
            call = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(getattr(s, "value", None), ast.Call) else None
            new = None
            if call is not None:
                new = self.expand(call, Give(s))
            if new is not None:
                out += new
                continue
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(b))
            for h in getattr(s, "handlers", []):
                h.body = self.block(h.body)
            out.append(s)
        return out


class Give:
    def __init__(self, st):
        self.st = st
        self.targets = []
        if isinstance(st, ast.Assign) and len(st.targets) == 1:
            t = st.targets[0]
            self.targets = [key(x) if isinstance(x, ast.Name) else None for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]

    def __call__(self, v):
        st = self.st
        if isinstance(st, ast.Return):
            return [ast.Return(v)]
        if isinstance(st, ast.Expr):
            return [ast.Expr(v)] if isinstance(v, ast.Call) else []
        v = v if v is not None else ast.Constant(None)
        t = st.targets
        if len(t) == 1 and isinstance(t[0], (ast.Tuple, ast.List)) and isinstance(v, ast.Tuple) and len(v.elts) == len(t[0].elts):
            return [ast.Assign([cp(a)], b) for a, b in zip(t[0].elts, v.elts) if ast.unparse(a) != ast.unparse(b)]
        if len(t) == 1 and ast.unparse(t[0]) == ast.unparse(v):
            return []
        return [ast.Assign(cp(t), v)]


def inlined(node, sums):
    """The same loop, with the helper functions called as statements of it put in place; None when there are none."""
    fn = enclosing(node, ast.FunctionDef)
    if fn is None:
        return None
    new = cp(fn)
    inl = Inliner(sums, node._module, (fn,))
    for w in [w for w in ast.walk(new) if isinstance(w, ast.While) and w._orig is node]:
        w.body = inl.block(w.body)
    if not inl.done:
        return None
    ast.fix_missing_locations(new)
    for x in ast.walk(new):
        for c in ast.iter_child_nodes(x):
            c._parent = x
        x._module = node._module
    new._parent = fn._parent
    for w in ast.walk(new):
        if getattr(w, "_orig", None) is node:
            return w
    return None


ENDLESS = ("itertools.count", "count", "itertools.cycle", "cycle", "itertools.repeat")


class LoopsTerminate(FlowCheck):
    """Every while loop of every function reached from a reader: each path back to the head advances a counter, empties a container, or reads
    from the file with an exit at its end."""
    id = "C11"
    kinds = ("reader", "extra")
    technique = "termination analysis: ranking arguments (counters, consumed containers, file position) on every path through every loop reached"
    floors = {"entries": 60, "functions reached": 500, "loops decided": 20}

    def wants(self, e):
        return e.mod != "rsciio.utils.path"      # overwrite() asks the user until there is an answer

    def prepare(self, I):
        self.sums = Summaries(I.p)

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        r.count("functions reached", len(I.reached))
        seen = set()
        for info in I.reached:
            for n in ast.walk(info.node):
                if n in seen:
                    continue
                if isinstance(n, ast.For):
                    if isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == "iter" and len(n.iter.args) == 2:
                        seen.add(n)
                        r.count("loops decided")
                        s = n.iter.args[1]
                        lp = Loop(n, self.sums)
                        if isinstance(s, ast.Constant) and s.value in ("", b"") and s.value not in lp.eofs:
                            r.add("endless-loop", f"{e.ident}: {qualname(n)}: {ast.unparse(n.iter)[:50]}", "the end marker never equals what reading at the end of the file gives", site(n))
                        continue
                    if not (isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) in ENDLESS and not (ast.unparse(n.iter.func).endswith("repeat") and len(n.iter.args) > 1)):
                        continue
                elif not isinstance(n, ast.While):
                    continue
                seen.add(n)
                r.count("loops decided")
                v = Loop(n, self.sums).verdict()
                if v is None and isinstance(n, ast.While):
                    w = inlined(n, self.sums)
                    v = Loop(w, self.sums).verdict() if w is not None else None
                what = ast.unparse(n.test if isinstance(n, ast.While) else n.iter)[:60]
                if v is None:
                    r.add("endless-loop", f"{e.ident}: {qualname(n)}: {what}",
                          "on some path the loop comes back to its head without having advanced, read or removed anything: it can run forever", site(n))
                else:
                    r.sample(f"{site(n)} while {what}: {v}")
        r.findings = dedup(r.findings)
        return r


FLOW = [LoopsTerminate]
AST = []
