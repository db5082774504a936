"""M01: PML profiles, wavelets, model conversions, absorption."""

import random

import build
from common import Machinery, run_driver

KINDS = ("scalar", "born", "acoustic", "elastic")


def requests(tier, seed):
    m = 120 if tier == "thorough" else 1
    rng = random.Random(seed)
    out = []

    def add(what, **kw):
        out.append(dict(id=f"M01-{what}-{len(out)}", what=what, seed=rng.randrange(2**40), **kw))

    for rep in range(m):
        for kind in KINDS:
            for nd in (1, 2, 3):
                for acc in (2, 4, 6, 8):
                    # (compiled code only in the precision and accuracy that are linked)
                    add("profiles", kind=kind, nd=nd, acc=acc, dtype=rng.choice(["double", "float"]),
                        py=rep > 0 and rng.random() < 0.2 or rng.random() < 0.1)
        for _ in range(120):
            add("wavelet")
            add("conversion")
    k = 0
    for rep in range(max(1, m // 10)):
        for kind in KINDS:
            for nd in (1, 2, 3):
                for py in (0, 1):
                    if nd == 3 and py:
                        continue
                    k += 1
                    add("absorb", kind=kind, nd=nd, acc=rng.choice([2, 4, 6, 8] if nd < 3 else [2, 4]), py=py,
                        nt=240 if nd < 3 else 150, src="py"[(k + rep) % 2])
    return out


def check(chk):
    chk.tlc_raw("PmlLaws.tla", "PmlLawsBig.cfg" if chk.tier == "thorough" else "PmlLaws.cfg", "laws", heap="2g")
    reqs = requests(chk.tier, chk.seed)
    overlay, _, _ = build.build(chk.scratch, kernels=build.KERNELS, dtypes=("double", "float"), ndims=(1, 2, 3), accs=(2, 4, 6, 8))
    # one process per group of requests
    logs, per = [], -(-len(reqs) // 6)
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        parts = list(ex.map(lambda i: run_driver(chk, "pml_driver.py", reqs[i::6], overlay, name=f"pml{i}",
                                                 env={"OMP_NUM_THREADS": "2"}), range(6)))
    for p in parts:
        logs += p
    traces = {c["id"]: c.pop("trace", "") for c in logs}
    v = chk.tlc("PmlTrace.tla", "PmlTrace.cfg", logs, "pml")
    byid = {r["id"]: r for r in reqs}
    for c in logs:
        d = v.get(c["id"])
        if d is None:
            raise Machinery(f"no verdict for {c['id']}")
        chk.traces += 1
        if d["verdict"] != ["ok"]:
            chk.violation(c["id"], f"{c['id']}: {d['verdict']}", dict(request=byid[c["id"]], record=c, trace=traces[c["id"]]))
    prof = [c for c in logs if c["what"] == "profiles" and not c["error"]]
    chk.samples = [dict(id=c["id"], w=c["w"], dx=c["dx"], vdt=c["vdt"], fdt=c["fdt"]) for c in prof[:5]]
    return chk.finish("model_checking", dict(
        profiles=len(prof), profile_values=sum(len(o["vals"]) for c in prof for o in c["obs"]),
        wavelets=sum(c["what"] == "wavelet" for c in logs), conversions=sum(c["what"] == "conversion" for c in logs),
        absorption_runs=sum(c["what"] == "absorb" for c in logs),
        largest_reflection=max((e for c in logs if c["what"] == "absorb" and not c["error"] for e in c["errs"]), default=0)))
