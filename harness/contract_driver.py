"""Makes the calls that ContractGen.tla describes and records what became of them.

usage: contract_driver.py REQUESTS.json OUT.json     (PYTHONPATH = code under test)

A request is a list of calls made one after the other in one process.  Between
them the consistent call they derive from is repeated: its result must not change.
"""

import ast
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

import wave_driver as w

Ign, NONE = -777, -99
BAD_NAMES = {"scalar": dict(wavefield="psi{d}_m1"), "born": dict(wavefield="psi{d}_sc_m1"),
             "acoustic": dict(wavefield="v{d}_0"), "elastic": dict(wavefield="v{d}_0")}


class Shared:
    """Parts of calls that do not depend on what is changed."""

    def __init__(self, torch):
        self.g = torch.Generator().manual_seed(int(os.environ.get("DRIVER_SEED", "1")))
        self.torch = torch

    def dense(self, t, mean, dev=0.1):
        torch = self.torch
        size = t["size"]
        if any(z < 0 for z in size):
            raise AssertionError("negative size")
        dt = {"double": torch.float64, "float": torch.float32}[t["dt"]]
        n = w.prod(size)
        x = (mean + dev * mean * torch.cos(torch.arange(n, dtype=torch.float64) * 1.7)).reshape(size).to(dt)
        if t["cls"] == "list":
            return x.tolist()
        return x.to("meta") if t["dev"] == "meta" else x

    def loc(self, x, nd, ign):
        torch = self.torch
        pts = [[[ign if z == Ign else z for z in p] for p in s] for s in x["pts"]]
        last = x["last"]
        pts = [[(p + [0])[:last] for p in s] for s in pts]
        t = torch.tensor(pts, dtype=torch.int64).reshape(len(pts), x["count"], last)
        if x["ndim"] == 2:
            t = t[0]
        if x["frac"]:
            t = t.to(torch.float32)
            t.view(-1)[-1:] += 0.5 if x["frac"] == "half" else float("nan")
        if x["cls"] == "list":
            return t.tolist()
        return t.to("meta") if x["dev"] == "meta" else t


def arguments(torch, deepwave, c, sh, cb, path):
    kind, nd = c["kind"], c["nd"]
    ign = deepwave.IGNORE_LOCATION
    kw = {}
    means = {"v": 1500.0, "scatter": 100.0, "rho": 2000.0, "lamb": 4e6, "mu": 2e6, "buoyancy": 1.0}
    for name, t in zip(w.MODELS[kind], c["models"]):
        x = sh.dense(t, means[name])
        if isinstance(x, torch.Tensor) and name == w.MODELS[kind][0] and x.device.type == "cpu":
            x.requires_grad_()
        kw[name] = x
    single = kind in ("scalar", "born")
    for ty, s in zip(w.src_types(kind, nd), c["src"]):
        sfx = "" if single else "_" + ty
        if s["amp"]["have"]:
            kw["source_amplitudes" + sfx] = sh.dense(s["amp"], 1.0)
        if s["loc"]["have"]:
            kw["source_locations" + sfx] = sh.loc(s["loc"], nd, ign)
    for ty, s in zip(w.rec_types(kind, nd), c["rec"]):
        name = {"scalar": "receiver_locations",
                "born": "receiver_locations" if ty == "sc" else "bg_receiver_locations"}.get(kind, "receiver_locations_" + ty)
        if s["have"]:
            kw[name] = sh.loc(s, nd, ign)
    for name, t in zip(w.names_in_order(kind, nd), c["wf"]):
        if t["have"]:
            kw[name] = sh.dense(t, 0.01)
    for name, x in c["s"].items():
        if x["lit"] == "":
            v = [None if z == NONE else z for z in x["v"]]
            kw[name] = v[0] if name == "nt" else [float(z) for z in v] if name == "grid_spacing" else v
        elif x["lit"] == "cb":
            kw[name] = cb if name == "forward_callback" else (lambda state: None)
        else:
            kw[name] = ast.literal_eval(x["lit"])
    ns = c["ns"]
    for what, d in c["extra"]:
        if what == "wavefield":
            kw[BAD_NAMES[kind]["wavefield"].format(d=d)] = torch.ones([ns] + c["n"], dtype=torch.float64)
        elif what == "amplitude":
            kw["source_amplitudes_" + d] = torch.ones(ns, 1, c["nt"], dtype=torch.float64)
        else:
            kw[what + "_locations_" + d] = torch.ones(ns, 1, nd, dtype=torch.int64)
    kw["storage_path"] = path
    return kw


def one(torch, deepwave, c, sh, path, keep=False):
    """Outcome of a call."""
    steps = [0]

    def cb(state):
        steps[0] += 1

    kw = arguments(torch, deepwave, c, sh, cb, path)
    f = {"scalar": deepwave.scalar, "born": deepwave.scalar_born,
         "acoustic": deepwave.acoustic, "elastic": deepwave.elastic}[c["kind"]]
    models = [kw.pop(n) for n in w.MODELS[c["kind"]]]
    r = dict(accepted=True, error="", steps=0, files=[], where="")
    out = None
    stage = "forward"
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = f(*models, kw.pop("grid_spacing"), kw.pop("dt"), **kw)
            stage = "backward"
            tot = sum((o.sum() for o in out), torch.zeros((), dtype=torch.float64))
            grad = None
            if tot.requires_grad and kw["storage_mode"] != "none":
                tot.backward()
                grad = models[0].grad
    except Exception as e:
        r.update(accepted=stage != "forward", error=f"{stage}: {type(e).__name__}: {e}"[:200], steps=steps[0],
                 trace=traceback.format_exc()[-1500:])
        return (r, None)
    finally:
        r["files"] = sorted(os.listdir(path))
        for x in r["files"]:
            shutil.rmtree(os.path.join(path, x), ignore_errors=True)
    return (r, [o.detach().clone() for o in out] + ([grad.clone()] if grad is not None else [])) if keep else (r, None)


def same(torch, a, b):
    return len(a) == len(b) and all(x.shape == y.shape and torch.equal(x, y) for x, y in zip(a, b))


def run_chunk(req, path):
    import torch

    import deepwave

    torch.set_num_threads(1)
    tmp = tempfile.mkdtemp(dir=os.environ["WAVE_TMP"])
    sh = Shared(torch)
    out = open(path, "a")

    def put(**k):
        out.write(json.dumps(k) + "\n")
        out.flush()

    put(start="base")
    r0, first = one(torch, deepwave, req["base"], sh, tmp, True)
    put(done="base", **r0)
    for i, c in enumerate(req["calls"]):
        put(start=i)
        r, _ = one(torch, deepwave, c, sh, tmp)
        put(done=i, **r)
        if first is not None and (i % 10 == 9 or i + 1 == len(req["calls"])):
            put(start="again")
            r, again = one(torch, deepwave, req["base"], sh, tmp, True)
            put(done="again", same=again is not None and same(torch, first, again), after=i, **r)
    put(end=True)
    shutil.rmtree(tmp, ignore_errors=True)


def main():
    reqs = json.load(open(sys.argv[1]))
    tmp = os.path.dirname(os.path.abspath(sys.argv[2]))
    os.environ.setdefault("WAVE_TMP", tmp)
    import torch  # noqa: F401

    import deepwave  # noqa: F401

    todo, running, out = list(enumerate(reqs)), {}, [None] * len(reqs)
    until = float(os.environ.get("DRIVER_UNTIL", "inf"))
    while todo or running:
        late = time.time() > until
        while late and todo:
            out[todo.pop()[0]] = dict(records=[], status=0, machinery=True)
        while todo and len(running) < 8:
            i, req = todo.pop(0)
            path = os.path.join(tmp, f"chunk{i}.json")
            pid = os.fork()
            if pid == 0:
                try:
                    run_chunk(req, path)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            running[pid] = (i, path, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for q, (i, path, t0) in running.items():
                if late or time.time() - t0 > 300:
                    os.kill(q, 9)
            time.sleep(0.005)
            continue
        i, path, _ = running.pop(pid)
        rec = []
        try:
            with open(path) as f:
                rec = [json.loads(x) for x in f if x.endswith("\n")]
            os.unlink(path)
        except OSError:
            pass
        out[i] = dict(records=rec, status=st, machinery=late or os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3)
        # a call that killed the process: the rest of the chunk is made by a new one
        if not (rec and rec[-1].get("end")) and not out[i]["machinery"]:
            k = rec[-1].get("start") if rec else None
            if isinstance(k, int) and k + 1 < len(reqs[i]["calls"]):
                req = dict(reqs[i], calls=reqs[i]["calls"][k + 1:], first=reqs[i].get("first", 0) + k + 1)
                reqs.append(req)
                out.append(None)
                todo.append((len(reqs) - 1, req))
    with open(sys.argv[2], "w") as f:
        json.dump([dict(o, chunk=r["chunk"], first=r.get("first", 0)) for o, r in zip(out, reqs)], f)


if __name__ == "__main__":
    main()
