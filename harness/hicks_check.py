"""H01: Hicks interpolation."""

import build
from common import Machinery, run_driver


def check(chk):
    thorough = chk.tier == "thorough"
    chk.tlc_raw("HicksLaws.tla", "HicksLaws.cfg", "laws", heap="2g")
    overlay, _, _ = build.build(chk.scratch, kernels=(), dtypes=(), ndims=(), accs=())
    reqs = [dict(id=f"H01-{i}", seed=chk.seed * 1000003 + i) for i in range(5000 if thorough else 300)]
    logs = run_driver(chk, "hicks_driver.py", reqs, overlay, name="hicks")
    traces = [c.pop("trace", "") for c in logs]
    v = chk.tlc("HicksTrace.tla", "HicksTrace.cfg", logs, "hicks")
    for r, c, t in zip(reqs, logs, traces):
        d = v.get(c["id"])
        if d is None:
            raise Machinery(f"no verdict for {c['id']}")
        chk.traces += 1
        if d["verdict"] != ["ok"]:
            chk.violation(c["id"], f"{c['id']}: {d['verdict']}", dict(request=r, record=c, trace=t))
    chk.samples = [dict(id=c["id"], hw=c["hw"], den=c["den"], fs=c["fs"]) for c in logs[:5]]
    pts = [p for c in logs for s in c["shots"] for p in s]
    return chk.finish("model_checking", dict(
        objects=len(logs), points=len(pts), dipoles=sum(not p["mono"] for p in pts),
        objects_with_free_surface=sum(any(c["fs"]) for c in logs),
        weights=sum(len(o["nodes"]) * len(o["w"][0]) for c in logs for o in c["obs"] if o["w"])))
