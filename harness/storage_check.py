"""S01: snapshot storage."""

import random

import build
import wave_check
from common import Machinery, run_driver


def check(chk):
    thorough = chk.tier == "thorough"
    chk.tlc_raw("Storage.tla", "Storage.cfg", "storage-mc", workers=4, heap="2g")
    chk.tlc_variant("Storage.tla", "Storage.cfg", dict(Shared="TRUE"), "storage-control", refuted="CleansUp")
    if thorough:
        chk.tlc_raw("Storage.tla", "StorageBig.cfg", "storage-mc-big")
    overlay, nc, no = build.build(chk.scratch, dtypes=("double", "float"))
    chk.extra["objects_recompiled"], chk.extra["objects_linked"] = nc, no
    hists = chk.histories("StorageHist.tla", "StorageHist.cfg", 200 if thorough else 18, 15, "storage-hist")
    reqs = [dict(id=f"S01-history-{i}", hist=h, seed=chk.seed) for i, h in enumerate(hists)]
    rng = random.Random(chk.seed)
    for i in range(20 if thorough else 3):
        # blocks of eight cells with every remainder
        reqs.append(dict(id=f"S01-compression-{i}", seed=chk.seed + 1000 * i, hist=[], cases=[
            dict(kind=k, variant=j, nt=nt, n=[rng.randint(4, 19) for _ in range(3)]) for k in ("scalar", "born", "acoustic", "elastic") for j in range(5) for nt in (1, 2)]))
    logs = run_driver(chk, "storage_driver.py", reqs, overlay, name="storage")
    traces = {c["id"]: c.pop("trace", "") for c in logs}
    v = chk.tlc("StorageTrace.tla", "StorageTrace.cfg", logs, "storage-trace")
    calls = 0
    for c, r in zip(logs, reqs):
        d = v.get(c["id"])
        if d is None:
            raise Machinery(f"no verdict for {c['id']}")
        if d["verdict"][0] == "generator":
            raise Machinery(f"{c['id']}: {d['verdict']}")
        chk.traces += 1
        calls += len(c["events"])
        if d["verdict"] != ["ok"]:
            chk.violation(c["id"], f"{c['id']} call {d['seen'] + 1}: {d['verdict']}", dict(request=r, log=c, trace=traces[c["id"]]))
    devs = [x["q"] for c in logs for e in c["events"] for x in e["res"] if x["q"] >= 0]
    chk.extra["largest_compression_error_1e-9"] = max(devs or [0])
    chk.extra["largest_difference_1e-9"] = max([x["dev"] for c in logs for e in c["events"] for x in e["res"]] or [0])
    cases = wave_check.run(chk, overlay=overlay)
    return wave_check.report(chk, cases, histories=len(logs), calls=calls,
                             calls_by_kind={op: sum(e["op"] == op for c in logs for e in c["events"])
                                            for op in sorted({e["op"] for c in logs for e in c["events"]})})
