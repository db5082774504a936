"""I01: consistent calls are accepted, all others rejected before anything is propagated."""

import json
import os
import random

import build
from common import Machinery, run_driver


def calls_of(chk):
    out = []
    for line in chk.tlc_out.splitlines():
        if line.startswith('"CALL '):
            out.append(json.loads(json.loads(line)[5:]))
    return out


def complete(c):
    """What the driver needs besides the call itself."""
    nd, m = c["nd"], c["models"][0]["size"]
    c["n"] = m[len(m) - nd:]
    c["ns"] = 2
    c["nt"] = 3
    return c


def group(c):
    return f"{c['kind']}{c['nd']}{'py' if c['py'] else ''}"


def check(chk):
    thorough = chk.tier == "thorough"
    chk.tlc_raw("ContractGen.tla", "ContractGen.cfg", "contract-gen", heap="4g")
    singles = calls_of(chk)
    chk.tlc_raw("ContractGen.tla", "ContractWalk.cfg", "contract-walk", workers=1, heap="2g", finished=False,
                extra=["-simulate", f"num={4000 if thorough else 300}", "-depth", "5", "-seed", str(chk.seed)])
    walks, seen = [], set()
    for x in calls_of(chk):
        k = json.dumps(x, sort_keys=True)
        if len(x["what"]) > 1 and k not in seen:
            seen.add(k)
            walks.append(x)
    overlay, nc, no = build.build(chk.scratch, dtypes=("double",))
    chk.extra["objects_recompiled"], chk.extra["objects_linked"] = nc, no
    bases = {}
    for x in singles:
        if not x["what"]:
            bases.setdefault(group(x["c"]), []).append(complete(x["c"]))
    rng = random.Random(chk.seed)
    groups = {}
    for x in singles + walks:
        if x["what"]:
            groups.setdefault(group(x["c"]), []).append(x)
    # quick: all calls of the compiled propagators, a fifth of those of the Python backend that change one tensor among many
    many = ('<<"source"', '<<"receiver"', '<<"wavefield"', '<<"amplitude"')
    if not thorough:
        for g in groups:
            if g.endswith("py"):
                groups[g] = [x for x in groups[g] if len(x["what"]) > 1 or not x["what"][0].startswith(many) or rng.random() < 0.2]
    reqs, meta = [], {}
    for g, xs in sorted(groups.items()):
        xs.sort(key=lambda x: (x["what"], json.dumps(x["c"], sort_keys=True)))
        rng.shuffle(xs)
        for k in range(0, len(xs), 100):
            part = xs[k:k + 100]
            name = f"I01-{g}-{k // 100}"
            base = rng.choice(bases.get(g) or bases[g.replace("py", "")])
            reqs.append(dict(chunk=name, base=base, calls=[complete(x["c"]) for x in part]))
            meta[name] = (base, part)
    res = run_driver(chk, "contract_driver.py", reqs, overlay, name="contract")
    n = rejected = again = 0
    by_fault = {}
    for o in res:
        name = o["chunk"]
        base, part = meta[name]
        if o["machinery"]:
            chk.problem(f"driver failed on {name}:\n{chk.driver_out[-2000:]}")
            continue
        ended = bool(o["records"] and o["records"][-1].get("end"))
        for r in o["records"]:
            d = r.get("done")
            if d is None:
                continue
            if d == "base":
                if not r["accepted"] or r["error"] or r["files"]:
                    chk.violation(f"{name}-base", f"{name}: consistent call rejected: {r['error']} {r['files']}", dict(call=base, outcome=r))
                continue
            if d == "again":
                again += 1
                if not r.get("same"):
                    chk.violation(f"{name}-again-{r['after']}", f"{name}: a later call is affected: {r['error']}",
                                  dict(call=base, outcome=r, before=[x["what"] for x in part[:o["first"] + r["after"] + 1]]))
                continue
            x = part[o["first"] + d]
            n += 1
            text = None
            if x["faults"]:
                rejected += 1
                for f in x["faults"]:
                    by_fault[str(f[0])] = by_fault.get(str(f[0]), 0) + 1
            if x["faults"] and r["accepted"]:
                text = f"accepted in spite of {x['faults']}" + (f" ({r['error']})" if r["error"] else "")
            elif not x["faults"] and (not r["accepted"] or r["error"]):
                text = f"rejected: {r['error']}"
            elif r["steps"] and not r["accepted"]:
                text = f"rejected after {r['steps']} steps: {r['error']}"
            elif r["files"] and not r["accepted"]:
                text = f"files left behind: {r['files']}"
            if text:
                chk.violation(f"{group(x['c'])}-{'/'.join(x['what'])}", f"{group(x['c'])} {x['what']}: {text}", dict(call=x, outcome=r))
        if not ended:
            k = o["records"][-1].get("start") if o["records"] else None
            what = part[o["first"] + k]["what"] if isinstance(k, int) else k
            chk.violation(f"{name}-died", f"{name}: the process died (status {o['status']}) in call {what}",
                          dict(call=part[o["first"] + k] if isinstance(k, int) else base))
    chk.traces = n
    if not chk.violations and not chk.problems and n != sum(len(r["calls"]) for r in reqs):
        raise Machinery(f"{n} of {sum(len(r['calls']) for r in reqs)} calls made")
    if os.environ.get("I01_LIST"):
        with open(os.environ["I01_LIST"], "w") as f:
            json.dump([v[:2] + (v[2].get("outcome"),) for v in chk.violations], f)
    for x in rng.sample(singles, 3) + walks[:2]:
        chk.samples.append(dict(call=group(x["c"]), what=x["what"], faults=x["faults"]))
    return chk.finish("model_checking", dict(calls=n, calls_with_faults=rejected, consistent_calls=n - rejected, calls_by_fault=by_fault,
                                  calls_repeated_after_rejections=again, walks=len(walks)))
