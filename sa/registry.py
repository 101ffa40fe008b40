import importlib
import sys

ASSUMPTIONS = [
    "external libraries follow their documented contracts as modelled in sa/models.py",
    "entry points are called with the documented argument types",
]


def all_checks():
    out = {}
    for name in ("checks_flow", "checks_ast", "checks_term", "checks_lazy"):
        try:
            m = importlib.import_module(name)
        except ModuleNotFoundError as ex:
            if ex.name != name:
                raise
            continue
        for c in getattr(m, "FLOW", []) + getattr(m, "AST", []):
            out[c.id] = c
    return out


def get(cid):
    return all_checks()[cid]()
