"""Entry points, parallel driver, findings, evidence."""
import ast
import json
import os
import pickle
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from project import Project, AnalysisError, REPO, qualname          # noqa: E402
from values import *                                                # noqa: E402,F403
import engine as E_                                                 # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = 8
ENTRY_TIMEOUT = 420

# every function exported through __all__ by a plugin package or by rsciio.utils.* is an entry point of its own
NOT_ENTRIES = {"file_reader", "file_writer"}


def public_functions(project):
    """(defining module, function) of the public functions other than the readers and writers."""
    out = {}
    for name, m in sorted(project.modules.items()):
        parts = name.split(".")
        # utils.tools only holds deprecated aliases of functions that are no longer public
        if parts[0] != "rsciio" or name == "rsciio.utils.tools" or name in project.extra_names or not (m.is_pkg and len(parts) == 2 or parts[1:2] == ["utils"]):
            continue
        moved = {}
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict) and getattr(n.targets[0], "id", "") == "_import_mapping":
                moved = {k.value: v.value for k, v in zip(n.value.keys, n.value.values) if isinstance(k, ast.Constant) and isinstance(v, ast.Constant)}
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets) \
                    and isinstance(n.value, (ast.List, ast.Tuple)):
                for x in n.value.elts:
                    if not isinstance(x, ast.Constant) or x.value in NOT_ENTRIES:
                        continue
                    src = project.modules.get("rsciio.utils." + moved[x.value]) if x.value in moved else m
                    for v in src.globals.get(x.value, ()) if src else ():
                        if isinstance(v, FuncV) and v.info.name == x.value:
                            out[(v.info.node._module.name, x.value)] = name
    return sorted(out)


class Entry:
    def __init__(self, kind, plugin, mod, fn, lazy=None):
        self.kind, self.plugin, self.mod, self.fn, self.lazy = kind, plugin, mod, fn, lazy
        self.fixed = {}

    @property
    def name(self):
        s = f"{self.mod[len('rsciio.'):]}:{self.fn}" if self.mod.startswith("rsciio.") else f"{self.mod}:{self.fn}"
        if self.lazy is not None:
            s += f"[lazy={self.lazy}]"
        return s

    @property
    def ident(self):
        """Stable name used to identify findings: plugin and direction, not function or line."""
        if self.kind == "extra":
            return f"{self.mod[len('rsciio.'):]}.{self.fn}"
        return f"{self.plugin} {self.kind}"

    def spec(self):
        s = dict(self.fixed)
        if self.lazy is not None:
            s["lazy"] = frozenset((Const(self.lazy),))
        return s


def api_module(plugin):
    return f"rsciio.{plugin}._api"


def entries(project):
    out = []
    for plug in sorted(project.specs):
        m = project.modules.get(api_module(plug))
        if m is None:
            raise AnalysisError(f"plugin module {api_module(plug)} vanished")
        for lz in (False, True):
            out.append(Entry("reader", plug, m.name, "file_reader", lz))
        if project.writes(plug):
            out.append(Entry("writer", plug, m.name, "file_writer"))
    for mod, fn in public_functions(project):
        out.append(Entry("extra", mod.split(".")[1], mod, fn))
    return out


class Finding:
    def __init__(self, rule, construct, message, where, detail=""):
        self.rule, self.construct, self.message, self.where, self.detail = rule, construct, message, where, detail
        self.entries = set()

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"

    def as_dict(self):
        return {"rule": self.rule, "construct": self.construct, "key": self.key, "message": self.message,
                "where": self.where, "entries": sorted(self.entries)}


class Result:
    """What one rule produced on one unit (picklable)."""

    def __init__(self):
        self.findings = []
        self.counts = {}
        self.samples = []
        self.facts = []

    def add(self, rule, construct, message, where):
        self.findings.append(Finding(rule, construct, message, where))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 6:
            self.samples.append(text)


_cur = None


def load(extra=None):
    return E_.Engine(Project(extra=extra))


def source_modules(project):
    """Modules of the analysed package itself (without rule examples)."""
    return [m for n, m in sorted(project.modules.items()) if n not in project.extra_names]


def functions(project, extra=False):
    for n, m in sorted(project.modules.items()):
        if not extra and n in project.extra_names:
            continue
        for node in ast.walk(m.tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield m, node


def run_entries(I, ents, per_entry, timeout=ENTRY_TIMEOUT):
    """Fork per entry; per_entry(I, entry, res) -> Result (picklable). Returns [(entry, Result, stats)]."""
    import select
    pend = list(enumerate(ents))
    running = {}
    results = {}
    bufs = {}
    while pend or running:
        while pend and len(running) < NPROC:
            i, e = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    import signal
                    signal.alarm(timeout)
                    t = time.time()
                    res = I.run_entry(e.mod, e.fn, e.spec())
                    out = per_entry(I, e, res)
                    payload = ("ok", out, {"wall": time.time() - t, "reached": [f.qual for f in I.reached],
                                           "rounds": I.stats["rounds"], "calls": I.stats["calls"],
                                           "depth": sum(ev.etype == "depth" for ev in I.events.values()),
                                           "unsupported": [repr(ev) for ev in I.events.values() if ev.etype == "unsupported"]})
                except BaseException:
                    payload = ("err", traceback.format_exc(limit=-8), {})
                with os.fdopen(w, "wb") as f:
                    pickle.dump(payload, f)
                os._exit(0)
            os.close(w)
            running[r] = (pid, i)
            bufs[r] = b""
        rs, _, _ = select.select(list(running), [], [], 5)
        for r in rs:
            d = os.read(r, 1 << 20)
            if d:
                bufs[r] += d
                continue
            os.close(r)
            pid, i = running.pop(r)
            os.waitpid(pid, 0)
            try:
                results[i] = pickle.loads(bufs.pop(r))
            except Exception:
                results[i] = ("err", "analysis of this entry died or timed out", {})
    out = []
    for i, e in enumerate(ents):
        tag, payload, st = results[i]
        if tag != "ok":
            raise AnalysisError(f"entry {e.name}: {payload}")
        out.append((e, payload, st))
    return out


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)
