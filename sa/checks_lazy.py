"""C10: what a lazy read returns can be used after the call."""
from common import *
from checks_flow import FlowCheck, dedup, site, datasets, returned, opener


class LazyUsable(FlowCheck):
    """Each lazy entry is interpreted with the set of open handles of each path; the lazy arrays of a return name the handles they read from."""
    id = "C10"
    kinds = ("reader",)
    technique = "typestate of backing files against the handle provenance of returned lazy arrays, on every return path"
    floors = {"entries": 30, "lazy datasets": 30, "arrays backed by an open file": 2}

    def wants(self, e):
        return bool(e.lazy)

    def prepare(self, I):
        I.track_handles = I.track_closed = True

    def per_entry(self, I, e, res):
        r = Result()
        r.count("entries")
        r.count("return states", len(res[0]))
        ds = datasets(I, res)
        r.count("lazy datasets", len(ds))
        handles = {}
        for os_ in I.allocs.values():
            for o in os_ if isinstance(os_, (list, set, tuple)) else [os_]:
                if getattr(o, "kind", None) == "handle":
                    handles[o.id] = o
        backed = {}
        for o in ds:
            for x in I.load_key(o, "data"):
                if isinstance(x, Unk) and x.kind in ("dask", ""):
                    for t in x.tags:
                        if isinstance(t, str) and t.startswith("backed:"):
                            backed.setdefault(int(t[7:]), o)
        r.count("arrays backed by an open file", len(backed))
        for hid, o in backed.items():
            h = handles.get(hid)
            for g, vals in res[0].items():
                if not any(isinstance(d, Ref) and d.obj is o for d in I.iter_elems(vals)):
                    continue
                if h is not None and "user-handle" in h.tags:
                    continue
                if any(x[0] == "closed" and x[1].id == hid for x in g):
                    r.add("backing-file-closed", f"{e.ident}: {opener(h) if h is not None else 'file'}",
                          f"a path returns lazy data that reads from the {opener(h) if h is not None else 'file'} handle opened here, after closing it", site(h.node) if h is not None else e.name)
        r.findings = dedup(r.findings)
        r.sample(f"{e.name}: {len(ds)} datasets, {len(backed)} backing handles")
        return r


FLOW = [LazyUsable]
AST = []
