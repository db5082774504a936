"""R01, P01 and W01: many ways to ask for the same experiment."""

import json

import build
import wave_check
from common import Machinery, run_driver

WALK = {"V01": [("EquivWrites.cfg", 4, 250, 1500)],
        "R01": [("EquivForm.cfg", 8, 700, 4500)], "P01": [("EquivBack.cfg", 4, 130, 800)],
        "W01": [("EquivCall.cfg", 6, 260, 1300), ("EquivAfter.cfg", 8, 130, 650)]}


def walks(chk, cfg, depth, num, name="equiv-gen"):
    chk.tlc_raw("Equiv.tla", cfg, name, workers=1, heap="2g", finished=False,
                extra=["-simulate", f"num={num}", "-depth", str(depth + 6), "-seed", str(chk.seed)])
    out = []
    for line in chk.tlc_out.splitlines():
        if line.startswith('"CALL '):
            x = json.loads(json.loads(line)[5:])
            if x["k"] == 0:
                out.append(dict(id=f"{chk.prop}-{name}-{len(out)}", b=x["b"], calls=[]))
            out[-1]["calls"].append(x["c"])
    if len(out) < num * 0.6:
        raise Machinery(f"{len(out)} of {num} walks generated:\n" + chk.tlc_out[-1500:])
    return out


def what(prev, c):
    return {k: v for k, v in c.items() if prev and prev[k] != v}


def run(chk, overlay, ws, env=None, name="equiv"):
    """Makes the calls and checks the records with TLC; returns how much was compared."""
    logs = run_driver(chk, "equiv_driver.py", ws, overlay, name=name, env=env, timeout=850)
    cases, tot = [], dict(walks=len(ws), calls=0, compared=0, moves={}, backends={}, largest={})
    byid = {w["id"]: w for w in ws}
    for o in logs:
        w = byid[o["id"]]
        if o["machinery"] or o.get("unfinished"):
            chk.problem(f"driver {'failed' if o['machinery'] else 'ran out of time'} in {o['id']}:\n{chk.driver_out[-2000:]}")
            continue
        done = [r for r in o["records"] if "done" in r]
        calls = []
        for r in done:
            c = w["calls"][r["done"]]
            if r["error"] and r.get("own"):
                chk.problem(f"{o['id']} call {r['done']}: {r['trace']}")
                break
            outs = [dict(key=k, part=k.split("/")[1 if k.startswith("grad/") else 0], d=d) for k, d in r["d"].items()]
            calls.append(dict(c=c, error=r["error"], outs=outs))
            tot["calls"] += 1
            tot["compared"] += len(outs)
            cls = f"{c['back']}/{c['prec']}"
            tot["backends"][cls] = tot["backends"].get(cls, 0) + 1
            if r["done"]:
                for m in what(w["calls"][r["done"] - 1], c):
                    tot["moves"][m] = tot["moves"].get(m, 0) + 1
            for x in outs:
                whole = len(c["pieces"]) == c["parts"] == 1 and not c["delay"]
                if not (x["part"] in ("cb", "bcb") and not whole or x["part"] in ("model", "bcb") and c["compress"]):
                    tot["largest"][cls] = max(tot["largest"].get(cls, 0), x["d"])
        if not (o["records"] and o["records"][-1].get("end")) and not (done and done[-1]["error"]):
            k = o["records"][-1].get("stage")
            if not isinstance(k, int):
                chk.problem(f"driver died in {o['id']} (status {o['status']}): {chk.driver_out[-1500:]}")
                continue
            calls.append(dict(c=w["calls"][k], error=f"the process died (status {o['status']})", outs=[]))
        cases.append(dict(id=o["id"], b=w["b"], calls=calls))
    v = {}
    for i in range(0, len(cases), 400):  # bounded memory
        v.update(chk.tlc("EquivTrace.tla", "EquivTrace.cfg", cases[i:i + 400], f"{name}-trace-{i}"))
    for c in cases:
        d = v.get(c["id"])
        if d is None:
            raise Machinery(f"no verdict for {c['id']}")
        if d["verdict"][0] == "generator":
            raise Machinery(f"{c['id']}: {d['verdict']}")
        chk.traces += 1
        if d["verdict"] != ["ok"]:
            k = d["seen"] - 1
            w = byid[c["id"]]
            b = w["b"]
            chk.violation(c["id"], f"{c['id']} ({b['kind']} {b['nd']}d acc{b['acc']}) call {k}: {d['verdict']} after "
                          f"{what(w['calls'][k - 1] if k else None, w['calls'][k])}", dict(experiment=b, calls=w["calls"][:k + 1], verdict=d))
        elif len(chk.samples) < 5:
            chk.samples.append(dict(walk=c["id"], kind=b_of(byid[c["id"]]), moves=[what(p, q) for p, q in zip(byid[c["id"]]["calls"], byid[c["id"]]["calls"][1:])][:4]))
    return tot


def b_of(w):
    return {k: w["b"][k] for k in ("kind", "nd", "acc", "ns", "nt", "n", "pml")}


def check(chk):
    """R01: forms of the call; P01: backends and precisions, W01: modules and functions, both with the exact cases of wave_check."""
    overlay, nc, no = build.build(chk.scratch, dtypes=("double", "float"))
    chk.extra["objects_recompiled"], chk.extra["objects_linked"] = nc, no
    cases = wave_check.run(chk, overlay=overlay) if chk.prop != "R01" else []
    ws = []
    for cfg, depth, quick, thorough in WALK[chk.prop]:
        ws += walks(chk, cfg, depth, thorough if chk.tier == "thorough" else quick, cfg[:-4])
    tot = run(chk, overlay, ws)
    chk.assumptions += ["distances are relative to the largest magnitude of an output: 1e-8 in double, 1e-3 in single precision"]
    if cases:
        return wave_check.report(chk, cases, **tot)
    return chk.finish("model_checking", tot)
