"""Replays histories of interleaved propagations (StorageHist.tla) on the code under test.

storage_driver.py REQ OUT: REQ is a list of dict(id, hist=[...], seed).
Each history runs in a process of its own with its own storage directory.
The reference results (device storage, nothing else alive) come from another process.
"""

import gc
import json
import os
import pickle
import random
import sys
import threading
import traceback
import warnings

CAP = 2_000_000_000


def problem(kind, variant, seed, n=None):
    """One propagation: everything but how snapshots are stored."""
    import torch

    g = torch.Generator().manual_seed(1000 * seed + 10 * variant + len(kind))
    nd = (2, 1, 2, 3)[variant % 4]
    n = n[:nd] if n else {1: [23], 2: [11, 9], 3: [5, 9, 4]}[nd]
    ns = 20 if variant % 5 == 4 else 1 + variant % 3
    nt = (13, 10, 7)[variant % 3] if nd > 1 else (135, 72, 260)[variant % 3]
    f = dict(dtype=torch.float64, generator=g)
    p = dict(kind=kind, nd=nd, n=n, ns=ns, nt=nt, acc=(2, 4, 2, 6)[variant % 4], mgsi=(1, 1, 2, 3)[(variant // 2) % 4],
             batched=variant % 5 == 0, cf=(4, 3, 100, 1)[variant % 4], callbacks=variant % 2 == 0)
    rnd = lambda *s: torch.rand(*s, **f)
    mshape = ([ns] if p["batched"] else []) + n
    if kind in ("scalar", "born"):
        p["models"] = dict(v=1500 + 200 * rnd(*mshape))
        if kind == "born":
            p["models"]["scatter"] = 100 * rnd(*mshape) - 50
    elif kind == "acoustic":
        p["models"] = dict(v=1500 + 200 * rnd(*mshape), rho=1000 + 500 * rnd(*mshape))
    else:
        p["models"] = dict(lamb=1e9 * (1 + rnd(*mshape)), mu=1e9 * (1 + rnd(*mshape)), buoyancy=(1 + 0.2 * rnd(*mshape)) / 1500)
    amp = 2 * rnd(ns, 2, nt) - 1
    loc = lambda: torch.stack([torch.stack([torch.randperm(x - 1, generator=g)[:2] for x in n], -1) for _ in range(ns)])
    ty = "" if kind in ("scalar", "born") else ("_p" if kind == "acoustic" else "_x")
    kw = {f"source_locations{ty}": loc()}
    rty = {"": "", "_p": "_p", "_x": "_x"}[ty]
    kw[f"receiver_locations{rty}"] = loc()
    p["amp"] = {f"source_amplitudes{ty}": amp}
    full = [ns] + [x + 4 for x in n]
    w0 = {"scalar": "wavefield_0", "born": "wavefield_sc_0", "acoustic": "pressure_0", "elastic": "vx_0"}[kind]
    p["wave"] = {w0: 2 * rnd(*full) - 1}
    kw.update(pml_width=2, accuracy=p["acc"], model_gradient_sampling_interval=p["mgsi"], pml_freq=40.0)
    kw["max_vel"] = {"elastic": 2500.0}.get(kind, 1800.0)
    p["kw"], p["dx"], p["dt"] = kw, [5.0 + i for i in range(nd)], 0.0012 if nd < 3 else 0.0009
    p["h"] = {k: rnd(*x.shape) for k, x in [*p["models"].items(), *p["amp"].items(), *p["wave"].items()]}
    leaves = [("model", k) for k in p["models"]] + [("amp", k) for k in p["amp"]] + [("init", k) for k in p["wave"]]
    r = random.Random(seed * 7919 + variant * 31 + len(kind))
    p["need"] = leaves
    if variant < 50 and r.random() < 0.5:  # only some inputs are differentiated, one model at least
        p["need"] = [k for k in leaves if r.random() < 0.4] + [r.choice(leaves[:len(p["models"])])]
    if (seed + variant + len(kind)) % 3 == 0:
        for k in ("models", "amp", "wave", "h"):
            p[k] = {i: x.float() for i, x in p[k].items()}
    return p


class Boom(Exception):
    pass


def forward(p, store, fcb=None, bcb=None):
    """Returns (leaves, outputs)."""
    import deepwave

    fun = {"scalar": deepwave.scalar, "born": deepwave.scalar_born, "acoustic": deepwave.acoustic,
           "elastic": deepwave.elastic}[p["kind"]]
    leaf = {(i, k): x.clone() for i, j in (("model", "models"), ("amp", "amp"), ("init", "wave")) for k, x in p[j].items()}
    [leaf[k].requires_grad_() for k in p["need"]]
    kw = dict(p["kw"])
    kw.update({k[1]: x for k, x in leaf.items() if k[0] != "model"})
    if fcb or bcb:
        kw["callback_frequency"] = p["cf"]
    out = fun(*[leaf["model", k] for k in p["models"]], p["dx"], p["dt"], forward_callback=fcb, backward_callback=bcb,
              origin=[0] * p["nd"], **kw, **store)
    return leaf, out


def functional(p, out):
    return sum((o * o).sum() * (1 + i) for i, o in enumerate(out) if o.numel())


def grads(p, leaf, out, double=False, retain=True):
    import torch

    loss = functional(p, out)
    keys = [k for k in leaf if leaf[k].requires_grad]
    if not double:
        gs = torch.autograd.grad(loss, [leaf[k] for k in keys], retain_graph=retain, allow_unused=True)
    else:
        g1 = torch.autograd.grad(loss, [leaf[k] for k in keys], create_graph=True, allow_unused=True)
        s = sum((g * p["h"][k[1]]).sum() for k, g in zip(keys, g1) if g is not None)
        gs = torch.autograd.grad(s, [leaf[k] for k in keys], retain_graph=retain, allow_unused=True)
    return {"/".join(k): (None if g is None else g.detach().clone()) for k, g in zip(keys, gs)}


def dev(a, b):
    """Largest difference relative to the largest reference value, in 1e-9 (capped)."""
    if (a is None) != (b is None):
        return CAP
    if a is None:
        return 0
    if a.shape != b.shape:
        return CAP
    if not a.numel():
        return 0
    d, m = (a - b).abs().max().item(), b.abs().max().item()
    if not (d == d) or d == float("inf"):
        return CAP
    return 0 if d == 0 else CAP if m == 0 else min(CAP, int(d / m * 1e9))


def single(a, b):
    """Whether the results are single precision, as they should be."""
    import torch

    return a is not None and b is not None and a.dtype == b.dtype == torch.float32


def compressed(mode):
    return mode in ("devicec", "cpuc", "diskc")


MODE = {"device": "device", "devicec": "device", "cpu": "cpu", "cpuc": "cpu", "disk": "disk", "diskc": "disk", "none": "none"}


def storage(mode, path):
    return dict(storage_mode=MODE[mode], storage_path=path, storage_compression=compressed(mode))


def reference(kind, variant, seed):
    p = problem(kind, variant, seed)
    res = {}
    for comp in (False, True):
        leaf, out = forward(p, storage("devicec" if comp else "device", "/nonexistent"))
        res[comp] = dict(out=[o.detach().clone() for o in out], g=grads(p, leaf, out))
        if kind == "scalar" and not comp:
            res["double"] = grads(p, leaf, out, double=True)
    return res


def spawn(fn):
    """Runs fn in a forked process and returns its pickled result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(fn(), f)
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(1)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def listing(d):
    return sorted(os.listdir(d))


def replay(req, home):
    import torch

    torch.set_num_threads(3)
    seed = req["seed"]
    hist = req["hist"]
    starts = [(i, e["kind"]) for i, e in enumerate(hist) if e["op"] in ("forward", "nested", "forward_raises")]
    refs = spawn(lambda: {i: reference(k, i, seed) for i, k in starts} | {"inner": reference("scalar", 77, seed)})
    if refs is None:
        return dict(id=req["id"], error="the reference run failed", events=[])
    path = os.path.join(home, "store")
    os.makedirs(os.path.join(path, "deepwave_tmp_keep"))
    with open(os.path.join(path, "deepwave_tmp_keep", "shot_0.bin"), "w") as f:
        f.write("keep")
    keep = listing(path)
    away = os.path.join(home, "away")
    os.makedirs(os.path.join(away))
    os.chdir(home)
    live, owner, log = {}, {}, []
    flag = {"raise": None}

    def mk_bcb(slot):
        def bcb(state):
            if flag["raise"] == slot:
                raise Boom()
        return bcb

    def compare(what, got, ref, refc, mode, skip_models=False, long=False):
        out = []
        for k in ref:
            if skip_models and k.startswith("model/"):
                continue
            model = k.startswith("model/")
            e = dict(what=f"{what} {k}", single=single(got.get(k), ref[k]), dev=dev(got.get(k), refc[k] if model and compressed(mode) else ref[k]), q=-1)
            if model and compressed(mode) and not long:  # hundreds of rounded terms may cancel
                e["q"] = dev(got.get(k), ref[k])
            out.append(e)
        return out

    def outs(out, ref):
        if len(out) != len(ref):
            return [dict(what="outputs", single=False, dev=CAP, q=-1)]
        return [dict(what=f"output {i}", single=single(o, r), dev=dev(o.detach(), r), q=-1) for i, (o, r) in enumerate(zip(out, ref))]

    def back(slot, double=False):
        i, p, mode, leaf, out = live[slot]
        r = refs[i]
        g = grads(p, leaf, out, double=double)
        if double:
            return compare("second derivative", g, r["double"], r["double"], mode)
        return compare("gradient", g, r[False]["g"], r[True]["g"], mode, skip_models=mode == "none", long=p["nt"] > 60)

    def new_dirs(slot):
        for d in listing(path):
            if d not in keep and d not in owner:
                owner[d] = slot

    try:
        for i, e in enumerate(hist):
            s, res, raised = e["s"], [], ""
            try:
                if e["op"] in ("forward", "nested", "forward_raises"):
                    p = problem(e["kind"], i, seed)
                    # given relative to the working directory of the time of the call
                    given = os.path.relpath(path) if i % 2 else path
                    st = storage(e["mode"], given)
                    inner = []

                    def fcb(state, op=e["op"], mode=e["mode"], i=i, p=p):
                        if op == "forward_raises" and state.step >= p["cf"] * (i % 2 if p["cf"] < p["nt"] else 0):
                            raise Boom()
                        if op == "nested" and len(inner) < 2:
                            q = problem("scalar", 77, seed)
                            r2 = refs["inner"]
                            with torch.enable_grad():
                                leaf2, out2 = forward(q, storage(mode, given))
                                inner.append(outs(out2, r2[False]["out"]) + compare(
                                    "nested gradient", grads(q, leaf2, out2, retain=False), r2[False]["g"],
                                    r2[True]["g"], mode, skip_models=mode == "none", long=q["nt"] > 60))
                    cb = fcb if e["op"] != "forward" or p["callbacks"] else None
                    leaf, out = forward(p, st, cb, mk_bcb(s) if p["callbacks"] else None)
                    new_dirs(s)
                    res += outs(out, refs[i][False]["out"])
                    for x in inner:
                        res += x
                    if e["op"] != "forward_raises":
                        live[s] = (i, p, e["mode"], leaf, out)
                    del leaf, out
                elif e["op"] == "backward":
                    res += back(s)
                elif e["op"] == "double":
                    res += back(s, double=True)
                elif e["op"] == "backward_raises":
                    flag["raise"] = s
                    try:
                        res += back(s)
                    except Boom:
                        raised = "Boom"
                    finally:
                        flag["raise"] = None
                elif e["op"] == "both":
                    got = {}

                    def work(x):
                        try:
                            got[x] = back(x)
                        except BaseException as ex:
                            got[x] = [dict(what=f"{type(ex).__name__}: {ex}"[:200], single=False, dev=CAP, q=-1)]
                    th = [threading.Thread(target=work, args=(x,)) for x in (s, e["s2"])]
                    [t.start() for t in th]
                    [t.join() for t in th]
                    res += got[s] + got[e["s2"]]
                elif e["op"] == "release":
                    live.pop(s)
                elif e["op"] == "chdir":
                    os.chdir(away if os.getcwd() == home else home)
                elif e["op"] == "fork":
                    pid = os.fork()
                    if pid == 0:
                        live.clear()
                        gc.collect()
                        os._exit(0)
                    os.waitpid(pid, 0)
            except Boom:
                raised = "Boom"
            except Exception as ex:
                raised = f"{type(ex).__name__}: {ex}"[:200]
            gc.collect()
            new_dirs(0)  # directories nobody alive can own
            now = [d for d in listing(path) if d not in keep]
            log.append(dict(e, res=res, raised=raised, dirs=sorted({owner[d] for d in now}), ndirs=len(now),
                            nfiles=max([len(listing(os.path.join(path, d))) for d in now] or [0])))
        live.clear()
        gc.collect()
        left = [d for d in listing(path) if d not in keep]
        with open(os.path.join(path, "deepwave_tmp_keep", "shot_0.bin")) as f:
            kept = f.read() == "keep"
        stray = [x for x in listing(home) if x not in ("store", "away")] + listing(away)
        return dict(id=req["id"], error="", events=log, left=left, kept=kept and all(k in listing(path) for k in keep), stray=stray)
    except Exception as ex:
        return dict(id=req["id"], error=f"{type(ex).__name__}: {ex}"[:300], trace=traceback.format_exc()[-2000:], events=log,
                    left=[], kept=True, stray=[])


def compression(req):
    """A step or two, so that each gradient sample shows one stored value: the effect of compressing it."""
    import torch

    torch.set_num_threads(1)
    log = []
    base = os.environ["WAVE_TMP"]
    for i, c in enumerate(req["cases"]):
        p = problem(c["kind"], c["variant"], req["seed"], c["n"])
        g = torch.Generator().manual_seed(req["seed"] * 100 + i)
        p["nt"] = c["nt"]
        p["amp"] = {k: x[..., :c["nt"]] for k, x in p["amp"].items()}
        path = os.path.join(base, f"{req['id']}-{i}")
        w = None
        got = {}
        err = ""
        try:
            for mode in ("device", "devicec", "diskc"):
                leaf, out = forward(p, storage(mode, path))
                if w is None:
                    w = [2.0 * torch.randint(0, 2, o.shape, generator=g).to(o.dtype) - 1 for o in out]
                keys = [k for k in leaf if k[0] == "model" and leaf[k].requires_grad]
                gs = torch.autograd.grad(sum((a * o).sum() for a, o in zip(w, out)), [leaf[k] for k in keys], allow_unused=True)
                got[mode] = dict(zip(keys, gs))
                del leaf, out
            res = []
            for k in got["device"]:
                res.append(dict(what=f"{k[1]}", single=single(got["diskc"][k], got["device"][k]), dev=dev(got["diskc"][k], got["devicec"][k]), q=dev(got["devicec"][k], got["device"][k])))
        except Exception as ex:
            res, err = [], f"{type(ex).__name__}: {ex}"[:200]
        log.append(dict(op="compress", s=1, s2=1, kind=c["kind"], mode="devicec", res=res, raised=err, dirs=[], ndirs=0, nfiles=0))
    return dict(id=req["id"], error="", events=log, left=[], kept=True, stray=[])


def main():
    import torch  # noqa: F401

    import deepwave  # noqa: F401

    warnings.simplefilter("ignore")
    reqs = json.load(open(sys.argv[1]))
    base = os.path.dirname(os.path.abspath(sys.argv[2]))
    jobs, out = {}, [None] * len(reqs)
    todo = list(enumerate(reqs))
    while todo or jobs:
        while todo and len(jobs) < 6:
            i, r = todo.pop(0)
            home = os.path.join(base, f"home{i}")
            os.makedirs(home)
            pid = os.fork()
            if pid == 0:
                try:
                    res = compression(r) if "cases" in r else replay(r, home)
                    with open(os.path.join(base, f"r{i}.json"), "w") as f:
                        json.dump(res, f)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(1)
            jobs[pid] = i
        pid, st = os.waitpid(-1, 0)
        if pid in jobs:
            i = jobs.pop(pid)
            try:
                out[i] = json.load(open(os.path.join(base, f"r{i}.json")))
            except (OSError, ValueError):
                out[i] = dict(id=reqs[i]["id"], error=f"process died (status {st})", events=[], left=[], kept=True, stray=[])
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
