"""Properties decided by WaveTrace.tla: exact conformance of the propagators."""

import itertools

import build
from common import Machinery, run_driver

KERNEL = {"scalar": "scalar", "born": "scalar_born", "acoustic": "acoustic", "elastic": "elastic"}


# Parts of the inputs that a caller may be the only ones to differentiate.
PARTS = {"scalar": ("v", "amp", "init"), "born": ("sc", "v", "scatter", "amp", "init"),
         "acoustic": ("v", "rho", "models", "amp", "init"),
         "elastic": ("lamb", "mu", "buoyancy", "models", "amp", "init")}


# decisions of the time loop that have to matter
LOOP_CONTROLS = [("SWAP", '"always"', "ForwardFields"), ("SWAP", '"never"', "ForwardFields"), ("ROUND", '"down"', "Stored"), ("PERTHREAD", "FALSE", "Gradient"),
                 ("ZEROTMP", "FALSE", "Gradient"), ("LASTSHORT", "FALSE", "ForwardFields"), ("APPEND", "FALSE", "Stored")]


def requests(prop, tier, seed):
    thorough = tier == "thorough"
    out = []

    def add(kind, K, nd, acc, reps, **opt):
        for i in range(reps * (50 if thorough else 2)):
            tag = "-".join(f"{k}{v}" for k, v in sorted(opt.items()))
            out.append(dict(id=f"{prop}-{kind}-K{K}-{nd}d-acc{acc}-{tag}-{i}", seed=seed, kind=kind, K=K, nd=nd,
                            acc=acc, **opt))

    def forward(kind):
        for nd, acc in itertools.product((1, 2, 3), (2, 4, 6, 8)):
            reps = {1: 2, 2: 3, 3: 1}[nd]
            add(kind, 1, nd, acc, reps)
            if acc in (2, 4) and nd < 3:
                add(kind, 1, nd, acc, 1, simple=True)
        for nd in (1, 2, 3):
            add(kind, 1, nd, 2 if nd == 3 else 4, 1, zero_pml_values=True)
            add(kind, 1, nd, 4 if nd == 3 else 2, 1, no_pml=True)
        add(kind, 1, 2, 2, 2, r=2)
        add(kind, 1, 1, 2, 1, r=3)
        add(kind, 1, 2, 2, 2, threads=4, ns=3)
        add(kind, 1, 3, 2, 1, threads=3, ns=2)

    def grads(kind):
        for nd, acc in itertools.product((1, 2, 3), (2, 4, 6, 8)):
            reps = {1: 2, 2: 3, 3: 1}[nd]
            add(kind, 2, nd, acc, reps)
        add(kind, 2, 2, 2, 2, simple=True)
        add(kind, 2, 2, 2, 3, threads=4, ns=3)
        add(kind, 2, 1, 4, 1, no_pml=True)
        add(kind, 2, 3, 2, 1, threads=2, ns=2)
        add(kind, 2, 2, 2, 1, r=2, simple=True)
        for what in PARTS[kind]:
            add(kind, 2, 2, 2, 2, diff=what)
            add(kind, 2, 1, 4, 1, diff=what)
            add(kind, 2, 2, 2, 1, diff=what, ns=3, threads=2, simple=True)
            add(kind, 2, 3, 2, 1, diff=what, simple=True)

    def sampled(kind):
        for nd, acc, q in ((1, 2, 2), (1, 4, 3), (2, 2, 2), (2, 2, 3), (2, 4, 2), (3, 2, 2), (1, 2, 9)):
            add(kind, 2, nd, acc, 1, mgsi=q, simple=True)
        add(kind, 2, 2, 2, 2, mgsi=2, threads=3, ns=3)
        add(kind, 2, 1, 2, 1, mgsi=2, r=2, simple=True)
        add(kind, 2, 3, 2, 2, mgsi=2)
        for what in PARTS[kind]:
            if what not in ("amp", "init"):
                for nd, q in ((1, 2), (2, 3), (3, 2)):
                    add(kind, 2, nd, 2, 1, mgsi=q, diff=what, simple=True)

    if prop in ("A01", "A02", "A03", "A04"):
        forward({"A01": "scalar", "A02": "born", "A03": "acoustic", "A04": "elastic"}[prop])
    elif prop == "G01":
        grads("scalar")
        grads("born")
    elif prop == "G02":
        grads("acoustic")
        grads("elastic")
    elif prop == "G03":
        for nd, acc in itertools.product((1, 2, 3), (2, 4, 6, 8)):
            add("scalar", 4, nd, acc, {1: 2, 2: 3, 3: 1}[nd])
        add("scalar", 4, 2, 2, 3, threads=4, ns=3)
        add("scalar", 4, 1, 2, 1, no_pml=True)
        add("scalar", 4, 2, 2, 1, simple=True)
        for acc in (2, 4, 6, 8):
            add("scalar", 4, 2, acc, 1, zero_pml_values=True)
        add("scalar", 4, 2, 2, 1, storage_mode="disk")
        add("scalar", 4, 2, 2, 1, storage_mode="cpu")
    elif prop == "T01":
        for kind in ("scalar", "born", "acoustic", "elastic"):
            for nd, acc in ((1, 2), (1, 4), (2, 2), (2, 4), (3, 2), (1, 8), (2, 6)):
                add(kind, 2, nd, acc, 1, bcb=True, sched=True, simple=True)
            for what in PARTS[kind]:
                for cf, nd in ((1, 2), (2, 1), (3, 1)):
                    add(kind, 2, nd, 2, 1, bcb=True, sched=True, simple=True, cf=cf, diff=what)
            for cf in (1, 2, 3, 4, 9):
                add(kind, 2, 1, 2, 1, bcb=True, sched=True, simple=True, cf=cf)
                add(kind, 1, 1, 2, 1, sched=True, simple=True, cf=cf)
            for cf, thr in ((1, 2), (2, 3)):
                add(kind, 2, 2, 2, 1, bcb=True, sched=True, simple=True, cf=cf, ns=3, threads=thr)
            add(kind, 2, 1, 2, 1, bcb=True, sched=True, simple=True, storage_mode="disk", cf=2)
            add(kind, 2, 1, 2, 1, sched=True, simple=True, cf=2)
            add(kind, 1, 2, 2, 1, sched=True, r=2, cf=1)
            add(kind, 1, 2, 2, 1, sched=True, python_backend="eager")
        for cf in (1, 2, 3):
            add("scalar", 4, 1, 2, 1, sched=True, cf=cf)
            add("scalar", 4, 2, 2, 1, sched=True, cf=cf, ns=3, threads=2)
    elif prop == "T02":
        for kind in ("scalar", "born", "acoustic", "elastic"):
            for nd, acc in itertools.product((1, 2, 3), (2, 4, 8)):
                add(kind, 1, nd, acc, 1, pieces=2 if acc > 2 else 3)
            add(kind, 1, 1, 2, 2, pieces=5)
            add(kind, 1, 2, 2, 2, pieces=4, r=2)
            add(kind, 1, 2, 2, 1, pieces=3, python_backend="eager")
            for nd, acc in ((1, 2), (1, 4), (2, 2), (2, 4), (3, 2)):
                add(kind, 2, nd, acc, 1, pieces=3, simple=True)
            add(kind, 2, 2, 2, 1, pieces=2, simple=True, ns=3, threads=2)
            add(kind, 2, 2, 2, 1, pieces=2, simple=True, checkpoint=True)
        add("scalar", 4, 1, 2, 2, pieces=2)
        add("scalar", 4, 2, 2, 2, pieces=2, simple=True)
    elif prop == "B01":
        for kind in ("scalar", "born", "acoustic", "elastic"):
            for nd, ns, thr in ((1, 5, 2), (1, 7, 3), (2, 3, 2), (2, 4, 4), (2, 5, 3), (3, 3, 2), (1, 4, 8), (2, 2, 1)):
                add(kind, 1, nd, 2, 1, ns=ns, threads=thr)
                add(kind, 2, nd, 2, 1, ns=ns, threads=thr, simple=True)
            add(kind, 2, 1, 4, 1, ns=6, threads=4, simple=True)
            for what in PARTS[kind]:
                add(kind, 2, 2, 2, 1, ns=4, threads=3, simple=True, diff=what)
            add(kind, 2, 2, 2, 1, ns=3, threads=2, storage_mode="disk", simple=True)
            # the number of threads changes between the forward and the backward propagation
            for nd, ns, thr, back in ((1, 5, 1, 4), (2, 4, 4, 1), (2, 5, 2, 3), (3, 3, 3, 2)):
                add(kind, 2, nd, 2, 1, ns=ns, threads=thr, threads_back=back, simple=True)
            # more shots than any fixed number of threads, files or slots
            add(kind, 1, 1, 2, 1, ns=19, threads=4, simple=True)
            add(kind, 2, 1, 2, 1, ns=18, threads=8, storage_mode="disk", simple=True)
            add(kind, 2, 1, 4, 1, ns=34, threads=3, storage_mode="cpu", simple=True)
        for nd, ns, thr in ((1, 5, 2), (2, 3, 3), (2, 4, 2), (3, 3, 2)):
            add("scalar", 4, nd, 2, 1, ns=ns, threads=thr)
    elif prop == "E01":
        for kind in ("scalar", "born", "acoustic", "elastic"):
            for emb in ("pad", "origin"):
                for nd in (1, 2, 3):
                    add(kind, 1, nd, 2, 2, emb=emb)
                    add(kind, 2, nd, 2, 1, emb=emb, simple=True)
                add(kind, 1, 2, 4, 1, emb=emb, no_pml=True)
                add(kind, 1, 2, 2, 1, emb=emb, ns=4)
    elif prop == "V01":
        for kind in ("scalar", "born", "acoustic", "elastic"):
            for nd, acc in ((1, 2), (1, 6), (2, 2), (2, 4), (3, 2), (3, 4)):
                add(kind, 1, nd, acc, 1, views=True)
            for nd in (1, 2, 3):
                add(kind, 1, nd, 2, 1, views=True, python_backend="eager")
                add(kind, 2, nd, 2, 1, views=True, bcb=True, simple=True)
            add(kind, 2, 2, 4, 1, views=True, bcb=True, simple=True)
    elif prop == "W01":
        for kind in ("scalar", "born", "acoustic", "elastic"):
            for nd in (1, 2, 3):
                for acc in (2, 4):
                    add(kind, 1, nd, acc, 1, wrapper=True, mut=True)
                add(kind, 2, nd, 2, 1, wrapper=True, mut=True, simple=True)
                add(kind, 1, nd, 2, 1, repeat=True, mut=True)
                add(kind, 2, nd, 2, 1, retain=True, mut=True, simple=True)
            add(kind, 2, 2, 2, 1, wrapper=True, storage_mode="disk", simple=True)
            add(kind, 2, 1, 2, 1, wrapper=True, mgsi=2, simple=True)
            add(kind, 1, 2, 2, 1, mut=True, python_backend="eager")
            add(kind, 1, 2, 2, 1, mut=True, no_pml=True)
        add("scalar", 4, 1, 2, 1, mut=True)
        add("scalar", 4, 2, 2, 1, mut=True)
    elif prop == "P01":
        for kind in ("scalar", "born", "acoustic", "elastic"):
            for nd, acc in itertools.product((1, 2, 3), (2, 4, 6, 8)):
                add(kind, 1, nd, acc, 1, python_backend="eager")
            for nd, acc in ((1, 2), (1, 4), (2, 2), (2, 4), (3, 2), (1, 8)):
                add(kind, 2, nd, acc, 1, python_backend="eager", simple=True)
            add(kind, 1, 1, 2, 1, python_backend="eager", r=2)
    elif prop == "F01":
        for kind in ("scalar", "born", "acoustic", "elastic"):
            # Only property models may be transformed (docs/example_torch_func.py).
            func = dict(python_backend="eager", simple=True)
            for nd, acc in ((1, 2), (1, 4), (2, 2), (2, 4), (3, 2), (1, 8), (2, 6)):
                add(kind, 2, nd, acc, 1, jvp=True, diff="models", **func)
            add(kind, 2, 2, 2, 1, python_backend="eager", jvp=True, diff="models")
            add(kind, 2, 2, 2, 1, jvp=True, diff="models", ns=3, **func)
            add(kind, 2, 1, 2, 1, jvp=True, diff="models", r=2, **func)
            for nd in (1, 2, 3):
                add(kind, 2, nd, 2, 1, jvp=True, vmap=True, diff="models", **func)
                add(kind, 2, nd, 2, 1, vjp=True, vmap=True, diff="models", **func)
                add(kind, 2, nd, 4, 1, vjp=True, diff="models", **func)
                add(kind, 1, nd, 2, 1, python_backend="eager", vmap=True)
                if kind != "scalar":
                    add(kind, 4, nd, 2, 1, **func)
            for what in PARTS[kind]:
                if what not in ("amp", "init", "sc"):
                    add(kind, 2, 1, 2, 1, jvp=True, diff=what, **func)
                    add(kind, 2, 2, 2, 1, jvp=True, diff=what, **func)
        add("scalar", 4, 2, 2, 1, **func)
    elif prop == "S01":
        for kind in ("scalar", "born", "acoustic", "elastic"):
            for nd, acc in ((1, 2), (2, 2), (2, 4), (3, 2)):
                for mode in ("disk", "none", "cpu"):
                    add(kind, 2, nd, acc, 1, storage_mode=mode, simple=True)
            add(kind, 2, 2, 2, 1, storage_mode="disk", simple=True, ns=3, threads=2, mgsi=2)
            for what in PARTS[kind]:
                if what not in ("amp", "init"):
                    add(kind, 2, 2, 2, 1, storage_mode="disk", simple=True, diff=what)
            add(kind, 2, 1, 2, 1, storage_mode="disk", simple=True, retain=True, bcb=True, cf=2)
            add(kind, 2, 1, 2, 1, storage_mode="none", simple=True, bcb=True, cf=2)
        for mode in ("disk", "cpu"):
            for nd in (1, 2, 3):
                add("scalar", 4, nd, 2, 1, storage_mode=mode)
    elif prop == "G04":
        for kind in ("scalar", "born", "acoustic", "elastic"):
            sampled(kind)
    return out


def run(chk, prop=None, reqs=None, overlay=None):
    """Drives the code under test and checks every recorded case with TLC."""
    reqs = reqs if reqs is not None else requests(prop or chk.prop, chk.tier, chk.seed)
    if overlay is None:
        kernels = sorted({KERNEL[r["kind"]] for r in reqs} |
                         ({"scalar_born"} if any(r["K"] == 4 for r in reqs) else set()))
        overlay, nc, no = build.build(chk.scratch, kernels, ndims=sorted({r["nd"] for r in reqs}),
                                      accs=sorted({r["acc"] for r in reqs}))
        chk.extra["objects_recompiled"], chk.extra["objects_linked"] = nc, no
    cases = run_driver(chk, "wave_driver.py", reqs, overlay, name="wave")
    bykey = {r["id"]: r for r in reqs}
    req = lambda c: bykey[c["id"].split("@")[0]]
    # A tree without a setup_pml() to instrument: the same cases without PML.
    redo = {c["id"].split("@")[0] for c in cases if "setup_pml not used" in c["error"]}
    if redo:
        cases = [c for c in cases if c["id"].split("@")[0] not in redo]
        cases += run_driver(chk, "wave_driver.py", [dict(bykey[i], no_pml=True) for i in sorted(redo)], overlay,
                            name="nopml")
        chk.extra["cases_without_pml_instrumentation"] = len(redo)
    for c in cases:
        if c.get("machinery"):
            chk.problem(f"driver error in {c['id']}: {c['error']}\n{c.get('trace', '')}")
    cases = [c for c in cases if not c.get("machinery")]
    byid = {c["id"]: c for c in cases}
    for K in (1, 2, 4):
        sub = [{k: v for k, v in c.items() if k not in ("trace", "where", "machinery")}
               for c in cases if req(c)["K"] == K]
        if not sub:
            continue
        verdicts = chk.tlc("WaveTrace.tla", f"WaveTrace{K}.cfg", sub, f"wave{K}")
        missing = [c["id"] for c in sub if c["id"] not in verdicts]
        if missing:
            raise Machinery(f"no verdict for {missing[:5]}")
        for c in sub:
            v = verdicts[c["id"]]
            chk.traces += 1
            chk.seen += v["seen"]
            if v["verdict"][0] == "generator":
                raise Machinery(f"case {c['id']} is not what it should be: {v['verdict']}")
            if v["verdict"] != ["ok"]:
                chk.violation(c["id"], f"case {c['id']}: {v['verdict']}" + (" (beyond precision)" if c.get("big") else ""),
                              dict(request=req(c), verdict=v, error=byid[c["id"]].get("trace")))
            elif len(chk.samples) < 5:
                chk.samples.append(dict(case=c["id"], n=c["n"], pml=c["pml"], shots=c["ns"], steps=c["nt"],
                                        values_compared=v["seen"]))
    return cases


def loops(chk):
    """Model checks the chunked loops; the configurations explored become cases for the code under test."""
    thorough = chk.tier == "thorough"
    for i, (k, x, inv) in enumerate(LOOP_CONTROLS if thorough else LOOP_CONTROLS[chk.seed % len(LOOP_CONTROLS):][:1]):
        chk.tlc_variant("TimeLoopMC.tla", "TimeLoopMC.cfg", {k: x}, f"loops-control-{i}", refuted=inv, workers=4, heap="3g")
    chk.tlc_raw("TimeLoopMC.tla", "TimeLoopMCBig.cfg" if thorough else "TimeLoopMC.cfg", "loops", workers=4, heap="3g")
    confs = sorted((c for c in chk.emitted() if c["nt"] > 0 and (c["ns"] > 1) == (chk.prop == "B01")),
                   key=lambda c: sorted(map(str, c.items())))
    if not confs:
        raise Machinery("no configurations emitted")
    out = []
    for k, kind in enumerate(("scalar", "born", "acoustic", "elastic")):
        for i, c in enumerate(confs):
            if thorough or (i + k + chk.seed) % 4 == 0:
                out.append(dict(id=f"{chk.prop}-loop-{kind}-" + "-".join(f"{n}{c[n]}" for n in ("nt", "q", "cf", "ns", "th")),
                                seed=chk.seed, kind=kind, K=2, nd=1, acc=2, bcb=True, sched=True, simple=True, nt=c["nt"],
                                mgsi=c["q"], cf=c["cf"], ns=c["ns"], threads=c["th"], schedule=[c["f"], c["b"]]))
    return out


def check(chk):
    if chk.prop in ("T01", "B01"):
        more = loops(chk)
        chk.extra["loop_configurations"] = len(more)
        return report(chk, run(chk, reqs=requests(chk.prop, chk.tier, chk.seed) + more))
    return report(chk, run(chk))


def report(chk, cases, **more):
    chk.assumptions += [
        "double precision; the CPML coefficients are replaced by small integers where the code makes them nonzero",
        "numbers are compared as residues modulo 46337 after an exact denominator-tracked projection",
    ]
    return chk.finish("model_checking", dict(
        cases=len(cases), values_compared=chk.seen,
        values_projected=sum(c.get("values", 0) for c in cases),
        steps=sum(c.get("nt", 0) for c in cases),
        kinds=sorted({c["kind"] for c in cases}), dims=sorted({c.get("nd", 0) for c in cases}),
        orders=sorted({c.get("acc", 0) for c in cases}),
        beyond_precision=sum(1 for c in cases if c.get("big")),
        not_representable=sum(c.get("unrep", 0) for c in cases), **more))
