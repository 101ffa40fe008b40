"""Source model of the analysed package: every non-test module of /repo/rsciio, parsed."""
import ast
import collections
import copy
import os
import re
import hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "rsciio"


class AnalysisError(Exception):
    """The checker lost an anchor; never reported as a pass or as a violation."""


class Desugar(ast.NodeTransformer):
    """match statements as if chains (the rules know one conditional statement)."""

    def __init__(self):
        self.n = 0

    def pattern(self, p, subj):
        """Test expression that binds what the pattern binds."""
        def subject():
            return copy.deepcopy(subj)

        def both(tests):
            tests = [t for t in tests if t is not None]
            return None if not tests else tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)

        def bound(name, value):
            return ast.BoolOp(ast.Or(), [ast.Compare(ast.NamedExpr(ast.Name(name, ast.Store()), value), [ast.Is()], [ast.Constant(None)]), ast.Constant(True)])
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subject(), [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subject(), [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchAs):
            return both([self.pattern(p.pattern, subj) if p.pattern is not None else None, bound(p.name, subject()) if p.name else None])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [self.pattern(x, subj) or ast.Constant(True) for x in p.patterns])
        if isinstance(p, ast.MatchSequence):
            tests = [ast.Call(ast.Name("isinstance", ast.Load()), [subject(), ast.Tuple([ast.Name("list", ast.Load()), ast.Name("tuple", ast.Load())], ast.Load())], [])]
            if not any(isinstance(x, ast.MatchStar) for x in p.patterns):
                tests.append(ast.Compare(ast.Call(ast.Name("len", ast.Load()), [subject()], []), [ast.Eq()], [ast.Constant(len(p.patterns))]))
            for i, x in enumerate(p.patterns):
                if isinstance(x, ast.MatchStar):
                    if x.name:
                        tests.append(bound(x.name, ast.Subscript(subject(), ast.Slice(ast.Constant(i), None, None), ast.Load())))
                else:
                    tests.append(self.pattern(x, ast.Subscript(subject(), ast.Constant(i), ast.Load())))
            return both(tests)
        if isinstance(p, ast.MatchMapping):
            tests = [ast.Call(ast.Name("isinstance", ast.Load()), [subject(), ast.Name("dict", ast.Load())], [])]
            for k, x in zip(p.keys, p.patterns):
                tests.append(ast.Compare(k, [ast.In()], [subject()]))
                tests.append(self.pattern(x, ast.Subscript(subject(), copy.deepcopy(k), ast.Load())))
            if p.rest:
                tests.append(bound(p.rest, ast.Call(ast.Name("dict", ast.Load()), [subject()], [])))
            return both(tests)
        if isinstance(p, ast.MatchClass):
            tests = [ast.Call(ast.Name("isinstance", ast.Load()), [subject(), p.cls], [])]
            for x in p.patterns:
                tests.append(self.pattern(x, subj))
            for a, x in zip(p.kwd_attrs, p.kwd_patterns):
                tests.append(self.pattern(x, ast.Attribute(subject(), a, ast.Load())))
            return both(tests)
        return ast.Constant(True)

    @staticmethod
    def conditional(st):
        """x = A if c else B, where A or B calls something, as the statement it abbreviates."""
        v = st.value
        if not isinstance(v, ast.IfExp) or not any(isinstance(n, ast.Call) for b in (v.body, v.orelse) for n in ast.walk(b)):
            return st

        def branch(value):
            c = copy.copy(st)
            c.value = value
            if isinstance(c, ast.Assign):
                c.targets = copy.deepcopy(st.targets)
            elif hasattr(c, "target"):
                c.target = copy.deepcopy(st.target)
            return Desugar.conditional(c)
        return ast.copy_location(ast.If(v.test, [branch(v.body)], [branch(v.orelse)]), st)

    def visit_Assign(self, st):
        self.generic_visit(st)
        return self.conditional(st)

    visit_AugAssign = visit_Expr = visit_Assign

    def visit_AnnAssign(self, st):
        self.generic_visit(st)
        return self.conditional(st) if st.value is not None else st

    visit_Return = visit_AnnAssign

    def visit_Match(self, node):
        self.generic_visit(node)
        out = []
        subj = node.subject
        if not isinstance(subj, ast.Name):
            self.n += 1
            nm = f"_match_subject_{self.n}"
            out.append(ast.copy_location(ast.Assign([ast.Name(nm, ast.Store())], subj), node))
            subj = ast.Name(nm, ast.Load())
        orelse = []
        for c in reversed(node.cases):
            t = self.pattern(c.pattern, subj)
            if c.guard is not None:
                t = c.guard if t is None else ast.BoolOp(ast.And(), [t, c.guard])
            if t is None:
                orelse = c.body
            else:
                orelse = [ast.copy_location(ast.If(t, c.body, orelse), c.body[0])]
        out += orelse
        for s in out:
            for n in ast.walk(s):
                if not hasattr(n, "lineno") and "lineno" in n._attributes:
                    ast.copy_location(n, node)
        return out


def chain(e):
    """Root name of a plain attribute chain a.b.c, or None."""
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def blocks_of(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def saved_methods(fn):
    """m = a.b; ... m(x): put the attribute back where it is called, when nothing in between can change what it means."""
    stores, loads = {}, {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            (loads if isinstance(n.ctx, ast.Load) else stores).setdefault(n.id, []).append(n)
        elif isinstance(n, ast.arg):
            stores.setdefault(n.arg, []).append(n)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and n is not fn:
            stores.setdefault(n.name, []).append(n)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                stores.setdefault(x, []).extend((n, n))
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                stores.setdefault((a.asname or a.name).split(".")[0], []).append(n)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            stores.setdefault(n.name, []).append(n)
    done = []
    for b in blocks_of(fn):
        for i, st in enumerate(b):
            if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Attribute)):
                continue
            m, root = st.targets[0].id, chain(st.value)
            if root is None or len(stores.get(m, ())) != 1 or not loads.get(m):
                continue
            rest = b[i + 1:]
            inside = [n for s in rest for n in ast.walk(s)]
            calls = [n for n in inside if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == m]
            if len(calls) != len(loads[m]):
                continue
            last = max(j for j, s in enumerate(rest) if any(c in ast.walk(s) for c in calls))
            between = [n for s in rest[:last + 1] for n in ast.walk(s)]
            if any(isinstance(n, ast.Name) and n.id == root and not isinstance(n.ctx, ast.Load)
                   or isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and chain(n) == root
                   or isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for n in between[:]):
                # the last statement may store to the root through its own assignment (x = m(...)): that happens after the call
                tgt = rest[last]
                ok = isinstance(tgt, ast.Assign) and not any(
                    isinstance(n, ast.Name) and n.id == root and not isinstance(n.ctx, ast.Load)
                    or isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and chain(n) == root
                    or isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef))
                    for n in [x for s in rest[:last] for x in ast.walk(s)] + list(ast.walk(tgt.value)))
                if not ok:
                    continue
            for c in calls:
                c.func = ast.copy_location(copy.deepcopy(st.value), c.func)
            done.append((b, st))
    for b, st in done:
        del b[next(i for i, x in enumerate(b) if x is st)]


HEADER = {ast.If: "test", ast.For: "iter", ast.Assign: "value", ast.AugAssign: "value", ast.Return: "value", ast.Expr: "value", ast.AnnAssign: "value",
          ast.Raise: "exc", ast.Assert: "test"}


class Put(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, n):
        return self.value if n.id == self.name and isinstance(n.ctx, ast.Load) else n


def evaluated_first(e, name, plain):
    """Whether the only use of name in e is evaluated whenever e is (or its value has no effect and the place does not matter)."""
    stack = [(e, True)]
    while stack:
        n, sure = stack.pop()
        if isinstance(n, ast.Name) and n.id == name:
            return sure
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            sure = False
        elif isinstance(n, (ast.IfExp, ast.BoolOp)) and not plain:
            sure = False
        stack.extend((c, sure) for c in ast.iter_child_nodes(n))
    return False


def temporaries(fn):
    """t = e; use(t), where t appears nowhere else: the expression put where it is used."""
    stores, loads = {}, {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            d = loads if isinstance(n.ctx, ast.Load) else stores
            d[n.id] = d.get(n.id, 0) + (1 if not isinstance(n.ctx, ast.Del) else 9)
        elif isinstance(n, ast.arg):
            stores[n.arg] = 9
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                stores[x] = 9
    for b in blocks_of(fn):
        i = len(b) - 2
        while i >= 0:
            st, nx = b[i], b[i + 1]
            f = HEADER.get(type(nx))
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and f and getattr(nx, f) is not None:
                t = st.targets[0].id
                h = getattr(nx, f)
                if stores.get(t) == 1 and loads.get(t) == 1 and any(isinstance(n, ast.Name) and n.id == t for n in ast.walk(h)) \
                        and not any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(st.value)) \
                        and evaluated_first(h, t, not any(isinstance(n, ast.Call) for n in ast.walk(st.value))):
                    setattr(nx, f, Put(t, st.value).visit(h))
                    del b[i]
                    i = min(i, len(b) - 2)
                    if i == len(b) - 1:
                        i -= 1
                    i -= 1
                    continue
            i -= 1


def nested_tests(tree):
    """if a: if b: ... (nothing else) as if a and b: ..."""
    for n in ast.walk(tree):
        while isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            i = n.body[0]
            n.test = ast.copy_location(ast.BoolOp(ast.And(), [x for t in (n.test, i.test)
                                                              for x in (t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t])]), n.test)
            n.body = i.body


LEAVES = (ast.Return, ast.Raise, ast.Continue, ast.Break)


def leaves(stmts):
    st = stmts[-1] if stmts else None
    return isinstance(st, LEAVES) or isinstance(st, ast.If) and bool(st.orelse) and leaves(st.body) and leaves(st.orelse)


def early_exits(tree):
    """if c: ...; return  else: rest -- the rest follows the conditional."""
    work = [b for b in blocks_of(tree)]
    for b in work:
        i = 0
        while i < len(b):
            st = b[i]
            if isinstance(st, ast.If) and st.orelse:
                if leaves(st.body):
                    b[i + 1:i + 1] = st.orelse
                    st.orelse = []
                elif leaves(st.orelse) and not any(isinstance(n, ast.NamedExpr) for n in ast.walk(st.test)):
                    body, st.body = st.body, st.orelse
                    st.orelse = []
                    t = st.test
                    st.test = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t)
                    b[i + 1:i + 1] = body
                    work.append(st.body)
            i += 1


def loop_tests(tree):
    """while True: if not c: break; ... as while c: ..."""
    for n in ast.walk(tree):
        if isinstance(n, ast.While) and not n.orelse and isinstance(n.test, ast.Constant) and n.test.value and len(n.body) > 1:
            s = n.body[0]
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Break) \
                    and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                t = s.test
                n.test = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t)
                del n.body[0]


def next_loops(fn):
    """it = iter(xs); while True: try: x = next(it) except StopIteration: break; ... as for x in xs: ..."""
    def is_call(e, name):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == name and len(e.args) == 1 and not e.keywords
    uses = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name):
            uses[x.id] = uses.get(x.id, 0) + 1
    for b in blocks_of(fn):
        for i, st in enumerate(b[:-1]):
            lp = b[i + 1]
            if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and is_call(st.value, "iter")
                    and isinstance(lp, ast.While) and not lp.orelse and isinstance(lp.test, ast.Constant) and lp.test.value and lp.body):
                continue
            t = lp.body[0]
            if not (isinstance(t, ast.Try) and len(t.body) == 1 and isinstance(t.body[0], ast.Assign) and len(t.body[0].targets) == 1 and not t.orelse
                    and not t.finalbody and len(t.handlers) == 1 and isinstance(t.handlers[0].type, ast.Name) and t.handlers[0].type.id == "StopIteration"
                    and len(t.handlers[0].body) == 1 and isinstance(t.handlers[0].body[0], ast.Break)):
                continue
            nx, name = t.body[0].value, st.targets[0].id
            if not (is_call(nx, "next") and isinstance(nx.args[0], ast.Name) and nx.args[0].id == name and uses.get(name) == 2):
                continue
            lp.body[0] = ast.copy_location(ast.Pass(), t)
            loop = ast.For(target=t.body[0].targets[0], iter=st.value.args[0], body=lp.body, orelse=[], type_comment=None)
            b[i] = ast.copy_location(ast.Pass(), st)
            b[i + 1] = ast.copy_location(loop, lp)


def desugar(tree):
    if any(isinstance(n, (ast.Match, ast.IfExp)) for n in ast.walk(tree)):
        tree = ast.fix_missing_locations(Desugar().visit(tree))
    for n in list(ast.walk(tree)):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            next_loops(n)
            saved_methods(n)
            temporaries(n)
    early_exits(tree)
    loop_tests(tree)
    nested_tests(tree)
    return tree


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        v = self.names.get(n.id)
        if v is None:
            return n
        if isinstance(v, str):
            return ast.copy_location(ast.Name(id=v, ctx=n.ctx), n)
        return ast.copy_location(copy.deepcopy(v), n)

    def visit_ExceptHandler(self, n):
        if isinstance(self.names.get(n.name), str):
            n.name = self.names[n.name]
        return self.generic_visit(n)


def local_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


def inlinable(fn):
    a = fn.args
    if fn.decorator_list or a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
        return False
    body = fn.body
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda,
                              ast.Import, ast.ImportFrom)) or isinstance(x, ast.Return) and x is not body[-1]:
                return False
    return True


def helpers_of_loops(tree, once):
    """A function called from one place only, in a function with a while loop, is read as if its statements stood there."""
    tops = {f.name: f for f in tree.body if isinstance(f, ast.FunctionDef) and once(f.name) and inlinable(f)}
    scopes = [(f, tops, None) for f in tree.body if isinstance(f, ast.FunctionDef)]
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            meths = {f.name: f for f in c.body if isinstance(f, ast.FunctionDef) and once(f.name) and inlinable(f) and f.args.args}
            scopes += [(f, tops, meths) for f in c.body if isinstance(f, ast.FunctionDef)]
    for host, tops, meths in scopes:
        if not any(isinstance(x, ast.While) for x in ast.walk(host)):
            continue
        for _ in range(3):
            if not inline_into(host, tops, meths):
                break


def inline_into(host, tops, meths):
    inner = set()
    for x in ast.walk(host):
        if x is not host and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            inner.update(id(y) for y in ast.walk(x))
    mine = local_names(host)
    self_name = host.args.args[0].arg if host.args.args else None
    done = False
    for b in list(blocks_of(host)):
        i = 0
        while i < len(b):
            st = b[i]
            i += 1
            if id(st) in inner or not isinstance(st, (ast.Assign, ast.Expr, ast.Return)) or not isinstance(getattr(st, "value", None), ast.Call):
                continue
            call = st.value
            fn, args = None, list(call.args)
            if isinstance(call.func, ast.Name) and call.func.id not in mine:
                fn = tops.get(call.func.id)
            elif meths and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == self_name:
                fn = meths.get(call.func.attr)
                args = [call.func.value] + args
            if fn is None or fn is host or any(isinstance(a, ast.Starred) for a in args) or any(k.arg is None for k in call.keywords):
                continue
            params = [a.arg for a in fn.args.args]
            given = dict(zip(params, args))
            given.update({k.arg: k.value for k in call.keywords})
            for p, d in zip(params[len(params) - len(fn.args.defaults):], fn.args.defaults):
                given.setdefault(p, d)
            if len(args) > len(params) or set(given) != set(params):
                continue
            theirs = local_names(fn)
            if any(isinstance(x, ast.Name) and x.id not in theirs and x.id in mine for s in fn.body for x in ast.walk(s)):
                continue
            ret = fn.body[-1] if isinstance(fn.body[-1], ast.Return) else None
            target = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else None
            stored = {x.id for s in fn.body for x in ast.walk(s) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
            names, pre = {}, []
            argnames = {x.id for a in given.values() for x in ast.walk(a) if isinstance(x, ast.Name)}
            # a result bound to the name of the caller it is assigned to
            pairs = []
            if ret is not None and ret.value is not None and target is not None:
                if isinstance(target, ast.Tuple) and isinstance(ret.value, ast.Tuple) and len(target.elts) == len(ret.value.elts):
                    pairs = list(zip(target.elts, ret.value.elts))
                else:
                    pairs = [(target, ret.value)]
            for t, v in pairs:
                if isinstance(t, ast.Name) and isinstance(v, ast.Name) and v.id in theirs and v.id not in names and t.id not in argnames and t.id not in names.values():
                    if v.id not in params:
                        names[v.id] = t.id
                    elif isinstance(given[v.id], ast.Name) and given[v.id].id == t.id:
                        names[v.id] = t.id
            for p in params:
                a = given[p]
                if p in names:
                    pass
                elif p not in stored and isinstance(a, (ast.Name, ast.Constant)):
                    names[p] = a.id if isinstance(a, ast.Name) else a
                elif isinstance(a, ast.Name) and any(isinstance(t, ast.Name) and t.id == a.id and isinstance(v, ast.Name) and v.id == p for t, v in pairs):
                    names[p] = a.id     # x = f(x), and f gives its changed x back
                else:
                    names[p] = p if p not in mine else f"{p}__{fn.name}"
                    pre.append(ast.Assign(targets=[ast.Name(id=names[p], ctx=ast.Store())], value=a))
            for v in theirs - set(params) - set(names):
                names[v] = v if v not in mine else f"{v}__{fn.name}"
            body = copy.deepcopy(fn.body[:-1] if ret is not None else fn.body)
            ren = Rename(names)
            body = [ren.visit(s) for s in body]
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            val = ren.visit(copy.deepcopy(ret.value)) if ret is not None and ret.value is not None else ast.Constant(value=None)
            post = []
            if isinstance(st, ast.Return):
                post = [ast.Return(value=val)]
            elif isinstance(st, ast.Expr):
                post = [ast.Expr(value=val)] if not isinstance(val, (ast.Constant, ast.Name, ast.Tuple)) else []
            elif pairs and isinstance(target, ast.Tuple) and isinstance(val, ast.Tuple):
                left = [(t, v) for t, v in zip(target.elts, val.elts) if not (isinstance(t, ast.Name) and isinstance(v, ast.Name) and t.id == v.id)]
                tn = [x.id for t, _ in left for x in ast.walk(t) if isinstance(x, ast.Name)]
                if any(isinstance(x, ast.Name) and x.id in tn for _, v in left for x in ast.walk(v)):
                    post = [ast.Assign(targets=st.targets, value=val)]
                else:
                    post = [ast.Assign(targets=[t], value=v) for t, v in left]
            elif not (isinstance(target, ast.Name) and isinstance(val, ast.Name) and target.id == val.id):
                post = [ast.Assign(targets=st.targets, value=val)]
            for s in pre + post:
                ast.fix_missing_locations(ast.copy_location(s, st))
            new = pre + body + post or [ast.copy_location(ast.Pass(), st)]
            b[i - 1:i] = new
            mine |= {n for n in names.values() if isinstance(n, str)}
            done = True
            i += len(new) - 1
    return done


class Module:
    def __init__(self, name, path, is_pkg, once=None):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        with open(path, "rb") as f:
            self.src = f.read()
        self.tree = desugar(ast.parse(self.src, filename=path))
        if once is not None:
            helpers_of_loops(self.tree, once)
            ast.fix_missing_locations(self.tree)
        self.rel = os.path.relpath(path, REPO)
        for node in ast.walk(self.tree):
            for child in ast.iter_child_nodes(node):
                child._parent = node
        self.tree._parent = None
        for node in ast.walk(self.tree):
            node._module = self
        self.globals = {}      # name -> set of abstract values
        self.state = 0         # 0 not run, 1 running, 2 done

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]

    def __repr__(self):
        return f"<Module {self.name}>"


class Project:
    def __init__(self, repo=REPO, extra=None):
        """extra: {module name: path} of additional modules (positive/negative examples of the rules)."""
        self.repo = repo
        self.modules = {}
        self.extra_names = set(extra or ())
        root = os.path.join(repo, PKG)
        found = []
        if not os.path.isdir(root):
            raise AnalysisError(f"package directory {root} is missing")
        for d, subs, files in os.walk(root):
            subs[:] = sorted(s for s in subs if s not in ("tests", "__pycache__"))
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(d, fn)
                rel = os.path.relpath(path, repo)[:-3].replace(os.sep, ".")
                is_pkg = fn == "__init__.py"
                name = rel[: -len(".__init__")] if is_pkg else rel
                found.append((name, path, is_pkg))
        found += [(name, path, False) for name, path in (extra or {}).items()]
        words = collections.Counter()
        for _, path, _ in found:
            with open(path, "rb") as f:
                words.update(re.findall(rb"\b[A-Za-z_]\w*", f.read()))
        for name, path, is_pkg in found:
            self.modules[name] = Module(name, path, is_pkg, lambda n: words[n.encode()] == 2)
        if len(self.modules) < 60:
            raise AnalysisError(f"only {len(self.modules)} modules found")
        self.specs = self._load_specs(root)

    def _load_specs(self, root):
        """Minimal reader for the flat key: value specification files."""
        specs = {}
        for d in sorted(os.listdir(root)):
            p = os.path.join(root, d, "specifications.yaml")
            if os.path.isfile(p):
                cur = {}
                with open(p, encoding="utf-8") as f:
                    for line in f:
                        if line.strip() and not line.lstrip().startswith("#") and ":" in line and not line[0].isspace():
                            k, _, v = line.partition(":")
                            cur[k.strip()] = v.split("#")[0].strip()
                specs[d] = cur
        if len(specs) < 30:
            raise AnalysisError(f"only {len(specs)} plugin specifications found")
        return specs

    def writes(self, plugin):
        return self.specs[plugin].get("writes", "False") not in ("False", "false", "no", "[]", "")

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src)
        return h.hexdigest()[:16]


def enclosing(node, *types):
    p = getattr(node, "_parent", None)
    while p is not None and not isinstance(p, types):
        p = p._parent
    return p


def qualname(node):
    """Dotted name of the function/class containing *node* (module-relative)."""
    parts = []
    p = node
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            parts.append(p.name)
        elif isinstance(p, ast.Lambda):
            parts.append("<lambda>")
        p = p._parent
    return ".".join(reversed(parts)) or "<module>"


def where(node):
    return f"{node._module.rel}:{getattr(node, 'lineno', 0)} ({qualname(node)})"
