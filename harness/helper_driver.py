"""Makes the calls of Helpers.tla and records what became of them.

helper_driver.py REQ OUT: REQ is a list of lists of calls (the first one is the base call of the function, made again after every
ten calls); the output has one list of [accepted, error, what is wrong otherwise] per list.
"""

import json
import math  # noqa: F401  (literals)
import multiprocessing
import os
import sys
import time
import traceback
import warnings

SMALL = [3.0, 4.25, 7.5, 10.0, 12.75, 2.5, 8.5, 6.0]


def value(torch, a, x, n_hicks):
    lit, v = x["lit"], x["v"]
    if lit == "tensor":
        size = [n_hicks if a == "receiver" and z == 0 else z for z in v]
        n = 1
        for z in size:
            n *= z
        base = torch.tensor([SMALL[i % 8] + 0.1 * (i // 8) for i in range(n)], dtype=torch.float64).reshape(size)
        return base
    if lit == "index":
        return torch.tensor(v, dtype=torch.int64)
    return eval(lit, {"torch": torch, "float": float})


def target(torch, deepwave, c):
    """A function of no arguments that makes the call, the tensors given to it, and how to look at the result."""
    fn = c["fn"]
    h = None
    if fn in ("source", "receiver"):
        loc = torch.tensor([[[5.5, 6.25], [9.0, 9.0], [12.3, 4.5]], [[3.5, 6.0], [9.5, 9.0], [7.0, 14.5]]], dtype=torch.float64)
        h = deepwave.location_interpolation.Hicks(loc, dtype=torch.float64)
    n_hicks = 0 if h is None else h.get_locations().shape[1]
    kw = {a: value(torch, fn if a == "amplitudes" else a, x, n_hicks) for a, x in c["args"].items()}
    if fn == "Hicks":
        for a in ("monopole", "dipole_dim"):
            if isinstance(kw[a], torch.Tensor):
                kw[a] = (kw[a].round().long() % 2) if a == "dipole_dim" else kw[a] > 6
    if fn in ("Scalar", "ScalarBorn", "Acoustic", "Elastic"):
        return lambda: getattr(deepwave, fn)(**kw, grid_spacing=5.0), kw
    if fn in ("upsample", "downsample", "cosine_taper_end", "cfl_condition_n"):
        return lambda: getattr(deepwave.common, fn)(**kw), kw
    if fn == "ricker":
        return lambda: deepwave.wavelets.ricker(**kw), kw
    if fn == "Hicks":
        return lambda: deepwave.location_interpolation.Hicks(**kw), kw
    if fn in ("source", "receiver"):
        return lambda: getattr(h, fn)(**kw), kw
    return lambda: vmapped(torch, deepwave, **kw), kw


def vmapped(torch, deepwave, kind, over, max_vel, python_backend):
    v = torch.full((6, 5), 1500.0, dtype=torch.float64)
    models = {"scalar": [v], "born": [v, v * 0.01], "acoustic": [v, v], "elastic": [v * 1000, v * 500, v / 3e6]}[kind]
    ty = {"acoustic": "_p", "elastic": "_y"}.get(kind, "")
    f = {"scalar": deepwave.scalar, "born": deepwave.scalar_born, "acoustic": deepwave.acoustic, "elastic": deepwave.elastic}[kind]
    w0 = {"scalar": "wavefield_0", "born": "wavefield_0", "acoustic": "pressure_0", "elastic": "vy_0"}[kind]
    amp = torch.ones(1, 1, 4, dtype=torch.float64)
    wf = torch.ones(1, 10, 9, dtype=torch.float64)
    loc = torch.tensor([[[2, 2]]])

    def one(x):
        m, a, w = list(models), amp, None
        if over == "model":
            m[0] = x
        elif over == "model1":
            m[1] = x
        elif over == "amplitudes":
            a = x
        else:
            w = x
        kw = {"source_amplitudes" + ty: a, "source_locations" + ty: loc, "receiver_locations" + ty: loc}
        if w is not None:
            kw[w0] = w
        return f(*m, 5.0, 0.001, pml_width=2, accuracy=2, pml_freq=25.0, max_vel=max_vel, python_backend=python_backend, **kw)[-1]

    x0 = {"model": models[0], "model1": models[-1], "amplitudes": amp, "wavefield": wf}[over]
    return torch.func.vmap(one)(torch.stack([x0, x0 * 1.1]))


def flat(torch, r):
    if isinstance(r, torch.Tensor):
        return [r.detach()]
    if isinstance(r, torch.nn.Module):
        return [p.detach() for p in r.parameters()]
    if isinstance(r, (tuple, list)):
        return [y for x in r for y in flat(torch, x)]
    if isinstance(r, (int, float)):
        return [torch.tensor(float(r))]
    return [r.get_locations(), r.source(torch.ones(*r.locations.shape[:2], 1, dtype=torch.float64))]  # Hicks


def same(torch, a, b):
    return len(a) == len(b) and all(x.shape == y.shape and torch.equal(x, y) for x, y in zip(a, b))


def one(torch, deepwave, c):
    bad = []
    call, kw = target(torch, deepwave, c)
    before = {a: x.clone() for a, x in kw.items() if isinstance(x, torch.Tensor)}
    res = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = call()
            res = flat(torch, r)
        ok, err = True, ""
    except Exception as e:
        ok, err = False, f"{type(e).__name__}: {e}"[:200]
    if c["fn"] != "cosine_taper_end":  # tapers its argument in place
        bad += [f"{a} was changed" for a, x in before.items() if not torch.equal(kw[a], x)]
    if ok and c["fn"] in ("Scalar", "ScalarBorn", "Acoustic", "Elastic"):
        for a, x in kw.items():
            if a + "_requires_grad" in kw:
                p = getattr(r, a)
                if not isinstance(p, torch.nn.Parameter) or p.requires_grad is not kw[a + "_requires_grad"]:
                    bad.append(f"{a} differentiated: {p.requires_grad}")
                if not torch.equal(p.detach(), x):
                    bad.append(f"{a} is not what was given")
    return ok, err, bad, res


def work(calls):
    import torch

    import deepwave

    torch.set_num_threads(1)
    out = []
    try:
        _, _, _, first = one(torch, deepwave, calls[0])
        for i, c in enumerate(calls):
            if time.time() > float(os.environ.get("DRIVER_UNTIL", "inf")):
                return None
            ok, err, bad, _ = one(torch, deepwave, c)
            if first is not None and (i % 10 == 9 or i + 1 == len(calls)):
                ok2, err2, _, again = one(torch, deepwave, calls[0])
                if not ok2 or not same(torch, first, again):
                    bad.append(f"the first call no longer gives its first result {err2}")
            out.append([ok, err, bad])
    except Exception:
        traceback.print_exc()
        return None
    return out


def main():
    reqs = json.load(open(sys.argv[1]))
    with multiprocessing.get_context("fork").Pool(8) as p:
        out = p.map(work, reqs, chunksize=1)
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
