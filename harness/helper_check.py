"""K01: the documented helpers accept consistent calls and reject all others."""

import random

import build
from common import run_driver


def check(chk):
    thorough = chk.tier == "thorough"
    chk.tlc_variant("Helpers.tla", "Helpers.cfg", dict(Depth="4" if thorough else "3"), "helpers", heap="4g")
    calls = sorted(chk.emitted(), key=lambda c: (c["fn"], len(c["changed"]), str(c)))
    rng = random.Random(chk.seed)
    overlay, nc, no = build.build(chk.scratch, dtypes=("double",), accs=(2,))
    chk.extra["objects_recompiled"], chk.extra["objects_linked"] = nc, no
    by = {}
    for c in calls:
        by.setdefault(c["fn"], []).append(c)
    parts = []
    for fn in sorted(by):
        base, rest = by[fn][0], by[fn][1:]
        rng.shuffle(rest)
        size = 40 if fn == "vmap" else 300
        parts += [[base] + rest[i:i + size] for i in range(0, len(rest), size)]
    parts.sort(key=lambda p: p[0]["fn"] != "vmap")
    res = run_driver(chk, "helper_driver.py", parts, overlay, name="helpers")
    n, counts = 0, {}
    for part, got in zip(parts, res):
        if got is None:
            chk.problem(f"some calls of {part[0]['fn']} were not made: {chk.driver_out[-1500:]}")
            continue
        for c, (ok, err, bad) in zip(part, got):
            n += 1
            k = counts.setdefault(c["fn"], [0, 0])
            k[bool(c["faults"])] += 1
            text = None
            if ok and c["faults"]:
                text = f"accepted in spite of {c['faults']}"
            elif not ok and not c["faults"]:
                text = f"rejected: {err}"
            elif bad:
                text = "; ".join(bad)
            if text:
                given = {a: c["args"][a]["lit"] + (str(c["args"][a]["v"]) if c["args"][a]["v"] else "") for a in c["changed"]}
                chk.violation(f"K01-{c['fn']}-{given}", f"{c['fn']} {given}: {text}", c)
    chk.traces = n
    chk.samples = [c for c in calls if c["changed"]][:3]
    return chk.finish("model_checking", dict(evaluations=n, distinct_inputs=len(calls),
                                             consistent_and_inconsistent_calls_by_function=counts))
