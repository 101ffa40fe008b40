"""Run one check: python3 sa/run.py C01 [--quick|--thorough]"""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from common import *                     # noqa: E402,F403
import registry                          # noqa: E402


def fixture(check):
    p = os.path.join(VERIF, "sa", "fixtures", check.id + ".py")
    return p if os.path.isfile(p) else None


def fixture_entries(I, check=None):
    out = []
    m = I.p.modules.get("rsciio_example")
    if m is None:
        return out
    for n in m.tree.body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith(("bad_", "good_")):
            kind = n.name.split("_")[1]
            lazy = None
            if kind == "lazyreader":
                kind, lazy = "reader", True
            elif kind == "reader":
                lazy = False
            if kind not in ("reader", "writer", "extra"):
                kind = "extra"
            out.append(Entry(kind, "example", "rsciio_example", n.name, lazy))
            if hasattr(check, "setup"):
                check.setup(out[-1])
    return out


def run_check(check, tier):
    t0 = time.time()
    fx = fixture(check)
    I = load({"rsciio_example": fx} if fx else None)
    check.prepare(I)
    findings, counts, samples = {}, {}, []
    fx_seen = {"bad": 0, "good": 0}

    def absorb(res, entry=None):
        for f in res.findings:
            k = f.key
            if k not in findings:
                findings[k] = f
            if entry is not None:
                findings[k].entries.add(entry.name)
        for k, v in res.counts.items():
            counts[k] = counts.get(k, 0) + v
        for s in res.samples:
            if len(samples) < 12:
                samples.append(s)

    def judge(name, fs):
        if name.startswith("bad_"):
            fx_seen["bad"] += 1
            if not fs:
                raise AnalysisError(f"rule example {name} is no longer detected: the rule is dead")
        else:
            fx_seen["good"] += 1
            if fs:
                raise AnalysisError(f"rule example {name} raises {fs[0].key}: the rule misfires")

    nfun = set()
    if hasattr(check, "per_entry"):
        ents = check.entries(I)
        fxe = fixture_entries(I, check)
        out = run_entries(I, ents + fxe, check.per_entry)
        for e, res, st in out:
            if e in fxe:
                judge(e.fn, res.findings)
                continue
            absorb(res, e)
            nfun |= set(st["reached"])
            if st["unsupported"]:
                counts["unsupported constructs"] = counts.get("unsupported constructs", 0) + len(st["unsupported"])
        counts["distinct functions analysed"] = len(nfun)
    st = check.static(I)
    if st is not None:
        real = Result()
        real.counts, real.samples = st.counts, st.samples
        fxf = {}
        for f in st.findings:
            if "sa/fixtures" in f.where or f.construct.startswith("rsciio_example"):
                fxf.setdefault(getattr(f, "fx", None) or fxname(f), []).append(f)
            else:
                real.findings.append(f)
        absorb(real)
        if not hasattr(check, "per_entry") and fx:
            for n in I.p.modules["rsciio_example"].tree.body:
                nm = getattr(n, "name", "")
                if nm.startswith(("bad_", "good_")):
                    judge(nm, fxf.get(nm, []))
    for k, v in check.floors.items():
        if counts.get(k, 0) < v:
            raise AnalysisError(f"only {counts.get(k, 0)} {k} (at least {v} expected): the analysis lost its subject")
    if fx and not fx_seen["bad"]:
        raise AnalysisError("no positive example was judged")
    return findings, counts, samples, fx_seen, time.time() - t0, I


def fxname(f):
    import re
    m = re.search(r"\b((?:bad|good)_\w+)", f.construct + " " + f.where)
    return m.group(1) if m else "?"


def main():
    cid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check = registry.get(cid)
    try:
        findings, counts, samples, fx, wall, I = run_check(check, tier)
        known = {k["key"]: k for k in load_known()["findings"] if k["property"] == cid}
    except AnalysisError as ex:
        print(f"ANALYSIS-ERROR {cid}: {ex}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-ERROR {cid}: internal error")
        return 2
    new = []
    listed = 0
    for k in sorted(findings):
        f = findings[k]
        if k in known:
            listed += 1
            print(f"KNOWN-FINDING: property={cid} {f.rule}: {f.construct} at {f.where}: {known[k].get('what', f.message)}")
        else:
            new.append(f)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    obligations = sum(counts.get(k, 0) for k in (getattr(check, "obligation_keys", None) or list(check.floors)[-1:]))
    ev = {
        "property": cid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": check.level,
        "coverage": {
            "explanation": f"{check.technique}. {(check.__doc__ or '').strip()}",
            "counts": dict(sorted(counts.items())),
            "obligations": obligations, "discharged": max(0, obligations - len(findings)),
            "modules_parsed": len(source_modules(I.p)),
            "source_digest": I.p.digest(),
            "samples": samples or ["-"],
            "rule_examples": fx,
            "findings": [f.as_dict() for f in (findings[k] for k in sorted(findings))],
        },
        "assumptions": registry.ASSUMPTIONS + list(getattr(check, "assumptions", [])),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{cid}: " + ", ".join(f"{v} {k}" for k, v in sorted(counts.items())) + f"; {len(new)} new, {listed} known; {wall:.1f}s")
    if new:
        rp = os.path.join(VERIF, "evidence", cid + ".violations.txt")
        with open(rp, "w") as fh:
            for f in new:
                fh.write(f"{f.rule}: {f.construct}\n  {f.message}\n  at {f.where}\n  reached from {', '.join(sorted(f.entries)) or '-'}\n  key: {f.key}\n")
        for f in new:
            print(f"  {f.rule}: {f.construct}: {f.message} at {f.where}")
            print(f"VIOLATION property={cid} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    seed = os.environ.get("VERIF_HASHSEED", "0")
    if os.environ.get("PYTHONHASHSEED") != seed:      # the same order of work, hence the same result, in every run
        os.execve(sys.executable, [sys.executable] + sys.argv, {**os.environ, "PYTHONHASHSEED": seed})
    sys.exit(main())
