"""C01: internal time step and resampling."""

import build
from common import Machinery, run_driver

KINDS = ("scalar", "born", "acoustic", "elastic")


def check(chk):
    thorough = chk.tier == "thorough"
    chk.tlc_raw("ResampleLaws.tla", "ResampleLawsBig.cfg" if thorough else "ResampleLaws.cfg", "laws", heap="2g")
    overlay, nc, no = build.build(chk.scratch, accs=(2, 4, 6))
    chk.extra["objects_recompiled"], chk.extra["objects_linked"] = nc, no
    k = 60 if thorough else 3
    reqs = []

    def add(what, reps, **o):
        for i in range(reps):
            reqs.append(dict(id=f"C01-{what}-{'-'.join(str(x) for x in o.values())}{i}", what=what,
                             seed=chk.seed * 1000003 + len(reqs), **o))
    add("cfl", 300 * k)
    add("series", 60 * k)
    for kind in KINDS:
        for nd in (1, 2, 3):
            add("limit", (6 if nd < 3 else 4) * k, kind=kind, nd=nd)
            add("pair", (4 if nd < 3 else 2) * k, kind=kind, nd=nd)
    logs = run_driver(chk, "resample_driver.py", reqs, overlay, name="resample")
    traces = [c.pop("trace", "") for c in logs]
    v = chk.tlc("ResampleTrace.tla", "ResampleTrace.cfg", logs, "resample")
    worst = 0
    for r, c, t in zip(reqs, logs, traces):
        d = v.get(c["id"])
        if d is None:
            raise Machinery(f"no verdict for {c['id']}")
        chk.traces += 1
        worst = max(worst, d["worst"])
        if d["verdict"] != ["ok"]:
            chk.violation(c["id"], f"{c['id']}: {d['verdict']}", dict(request=r, record=c, trace=t))
    chk.samples = [dict(id=c["id"], r=c["r"], series=len(c["series"])) for c in logs[::max(1, len(logs) // 5)]]
    return chk.finish("model_checking", dict(
        cases_by_kind={w: sum(r["what"] == w for r in reqs) for w in ("cfl", "series", "limit", "pair")},
        step_ratios={str(x): sum(c["r"] == x for c in logs) for x in sorted({c["r"] for c in logs})},
        series=sum(len(c["series"]) for c in logs), largest_resampling_error_in_2_14=worst,
        note="largest_resampling_error is against a tolerance of 24 (0.15% of the largest input)"))
