"""D01: a disk that fails."""

import json
import random

import build
from common import Machinery, run_driver

OFF = [dict(CheckRead="FALSE"), dict(CheckRead="FALSE", Appending="FALSE"), dict(CheckWrite="FALSE", Appending="FALSE"),
       dict(CheckClose="FALSE", Appending="FALSE")]


def check(chk):
    thorough = chk.tier == "thorough"
    chk.tlc_raw("DiskFault.tla", "DiskFault.cfg", "diskfault-mc", workers=4, heap="2g")
    chk.tlc_variant("DiskFault.tla", "DiskFault.cfg", dict(Appending="FALSE"), "diskfault-mc-seek")
    for i, c in enumerate(OFF if thorough else OFF[chk.seed % len(OFF):][:1]):
        chk.tlc_variant("DiskFault.tla", "DiskFault.cfg", c, f"diskfault-control-{i}", refuted="NeverWrong")
    if thorough:
        chk.tlc_variant("DiskFault.tla", "DiskFault.cfg", dict(Nt=6, MaxFaults=3, Cap=6), "diskfault-mc-big")
    overlay, nc, no = build.build(chk.scratch, dtypes=("double", "float"))
    chk.extra["objects_recompiled"], chk.extra["objects_linked"] = nc, no
    n = 1500 if thorough else 150
    groups = {}  # the simulator prints several ends of one behaviour
    for h in chk.histories("DiskFaultHist.tla", "DiskFaultHist.cfg", n + n // 3, 15, "diskfault-hist"):
        groups.setdefault((h["kind"], h["mode"], h["variant"], h["cf"], json.dumps(h["events"][:1])), []).append(h)
    rng = random.Random(chk.seed)
    hists = [rng.choice(g) for g in groups.values()]
    hists = rng.sample(hists, min(n, len(hists)))
    full = [h for h in chk.histories("DiskFaultHist.tla", "DiskFaultFull.cfg", 4 * n, 15, "diskfault-full") if h["events"]]
    one = {}  # one file that cannot be written to: as different places as possible
    for h in full:
        one.setdefault((h["kind"], h["variant"] % 4, h["events"][0]["j"], h["events"][0]["file"]), h)
    hists += rng.sample(list(one.values()), min(n, len(one)))
    reqs = [dict(h, id=f"D01-{i}", seed=chk.seed) for i, h in enumerate(hists)]
    logs = run_driver(chk, "fault_driver.py", reqs, overlay, name="faults")
    if None in logs:
        chk.problem(f"{logs.count(None)} of {len(logs)} propagations were not run in time")
    done = [(c, r) for c, r in zip(logs, reqs) if c is not None]
    v = chk.tlc("DiskFaultTrace.tla", "DiskFaultTrace.cfg", [c for c, _ in done], "diskfault-trace")
    eff = raised = 0
    for c, r in done:
        d = v.get(c["id"])
        if d is None:
            raise Machinery(f"no verdict for {c['id']}")
        chk.traces += 1
        eff += d["effective"]
        raised += c["raised"] != ""
        if d["verdict"] != ["ok"]:
            chk.violation(c["id"], f"{c['id']} {c['kind']} {c['mode']}: {d['verdict']}", dict(request=r, log=c))
    chk.samples = [c for c, _ in done[:2]]
    return chk.finish("model_checking", dict(evaluations=len(done), distinct_inputs=len(done), effective_faults=eff, exceptions=raised,
                                             by_mode={m: sum(c["mode"] == m for c, _ in done) for m in sorted({c["mode"] for c, _ in done})}))
