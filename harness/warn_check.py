"""N01: warnings about doubtful parameters."""

import random

import build
from common import run_driver


def check(chk):
    thorough = chk.tier == "thorough"
    chk.tlc_variant("Warn.tla", "Warn.cfg", dict(Thin="1" if thorough else "7"), "warn", heap="4g")
    calls = sorted(chk.emitted(), key=str)
    rng = random.Random(chk.seed)
    rng.shuffle(calls)
    overlay, nc, no = build.build(chk.scratch, dtypes=("double", "float"), accs=(2,))
    chk.extra["objects_recompiled"], chk.extra["objects_linked"] = nc, no
    for c in calls:
        c["single"] = rng.random() < 0.3
    parts = [calls[i:i + 200] for i in range(0, len(calls), 200)]
    res = run_driver(chk, "warn_driver.py", parts, overlay, name="warn")
    n, each = 0, [0] * 7
    for part, got in zip(parts, res):
        if got is None:
            chk.problem("some calls were not made in time")
            continue
        for c, (k, err, texts) in zip(part, got):
            n += 1
            each = [a + w[0] for a, w in zip(each, c["which"])]
            if err or not c["least"] <= k <= c["most"]:
                what = f"raised {err}" if err else f"{k} warnings instead of {c['least']}" + (f" or {c['most']}" if c["most"] > c["least"] else "")
                chk.violation(f"N01-{n}", f"{c['kind']} {c['nd']}D: {what}: {texts}", c)
    chk.traces = n
    chk.samples = calls[:2]
    return chk.finish("model_checking", dict(evaluations=n, distinct_inputs=n, times_each_condition_held=each))
