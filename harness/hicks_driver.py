"""Records Hicks objects of the code under test (nothing is judged here).

hicks_driver.py REQ OUT: REQ is a list of dict(id, seed).  All objects live in one process.
"""

import json
import random
import sys
import traceback

import torch

from deepwave.location_interpolation import Hicks
from deepwave.common import IGNORE_LOCATION

CAP = 2_000_000_000
F64 = torch.float64


def dev(a, b):
    if a.shape != b.shape:
        return CAP
    if not a.numel():
        return 0
    d, m = (a - b).abs().max().item(), b.abs().max().item()
    if not (d == d) or d == float("inf"):
        return CAP
    return 0 if d == 0 else CAP if m == 0 else min(CAP, int(d / m * 1e9))


def q(x):
    x = float(x)
    return int(round(x * 16384)) if x == x and abs(x) < 1e4 else CAP


def one(req):
    rng = random.Random(req["seed"])
    g = torch.Generator().manual_seed(req["seed"] % 2**31)
    den = rng.choice([2, 3, 4, 5, 8, 10])
    hw = rng.randint(1, 10)
    c = dict(id=req["id"], error="", den=den, hw=hw, devs=[], obs=[], fs=[rng.random() < 0.4 for _ in range(4)])
    size = [rng.randint(hw + 3, 2 * hw + 6) for _ in range(2)]
    kw = {}
    fs2 = [-1, 2 * size[0] - 1, -1, 2 * size[1] - 1]
    if rng.random() < 0.4:
        for i in range(4):
            fs2[i] += rng.choice([0, 1, 2, 3]) * (1 if i % 2 == 0 else -1)
        kw["free_surface_locs"] = [x / 2 for x in fs2]
    for d in range(2):
        # the surfaces leave room for the window
        if fs2[2 * d + 1] - fs2[2 * d] < 2 * hw + 2:
            fs2[2 * d], fs2[2 * d + 1] = -1, 2 * size[d] - 1
    if "free_surface_locs" in kw:
        kw["free_surface_locs"] = [x / 2 for x in fs2]
    if any(c["fs"]) or rng.random() < 0.3:
        kw["model_shape"] = size
    if any(c["fs"]) or rng.random() < 0.5:
        kw["free_surfaces"] = list(c["fs"])
    c["fs2"] = fs2
    ns, npt = rng.randint(1, 3), rng.randint(1, 4)

    def coord(d):
        lo, hi = -(-fs2[2 * d] * den // 2), fs2[2 * d + 1] * den // 2
        if not any(c["fs"]) and rng.random() < 0.2:
            lo, hi = -3 * den, 40 * den
        r = rng.random()
        if r < 0.3:                     # near the first surface
            hi = min(hi, lo + hw * den)
        elif r < 0.5:                   # near the second
            lo = max(lo, hi - hw * den)
        x = rng.randint(lo, hi)
        return -(-x // den) * den if rng.random() < 0.2 and -(-x // den) * den <= hi else x

    shots = [[dict(num=[coord(0), coord(1)], mono=True, dim=0) for _ in range(npt)] for _ in range(ns)]
    for s in shots:
        for i in range(1, npt):
            if rng.random() < 0.3:      # equal fractions, shared nodes
                s[i]["num"] = [s[0]["num"][0], s[i]["num"][1]]
    r = rng.random()
    if r < 0.3:
        mono = torch.tensor([[rng.random() < 0.5 for _ in s] for s in shots])
        kw["monopole"] = mono
        for s, m in zip(shots, mono.tolist()):
            for p, v in zip(s, m):
                p["mono"] = v
    elif r < 0.5:
        kw["monopole"] = False
        for s in shots:
            for p in s:
                p["mono"] = False
    if rng.random() < 0.6:
        dim = torch.tensor([[rng.randint(0, 1) for _ in s] for s in shots])
        if rng.random() < 0.5:
            dim[:] = dim[0, 0]
            kw["dipole_dim"] = int(dim[0, 0])
        else:
            kw["dipole_dim"] = dim
        for s, m in zip(shots, dim.tolist()):
            for p, v in zip(s, m):
                p["dim"] = v
    kw["dtype"] = rng.choice([torch.float32, F64])
    c["shots"] = shots
    ldt = rng.choice([torch.float32, F64])
    loc = torch.tensor([[[x / den for x in p["num"]] for p in s] for s in shots], dtype=ldt)
    keep = loc.clone()
    h = Hicks(loc, halfwidth=hw, **kw)
    for sel in (None, torch.tensor([rng.randrange(ns) for _ in range(rng.randint(1, 3))])):
        idx = list(range(ns)) if sel is None else sel.tolist()
        nodes = h.get_locations() if sel is None else h.get_locations(sel)
        adt = F64
        unit = torch.eye(npt, dtype=adt).repeat(len(idx), 1, 1)
        a = torch.rand(len(idx), npt, 5, generator=g, dtype=adt) - 0.5
        args = [] if sel is None else [sel]
        w = h.source(unit, *args)
        sa = h.source(a, *args)
        b = torch.rand(len(idx), nodes.shape[1], 5, generator=g, dtype=adt) - 0.5
        rb = h.receiver(b, *args)
        c["devs"].append(dict(what="source is not linear", dev=dev(sa, torch.einsum("snp,spt->snt", w, a))))
        c["devs"].append(dict(what="receiver is not the adjoint of source", dev=dev(rb, torch.einsum("snp,snt->spt", w, b))))
        for k, s in enumerate(idx):
            real = (nodes[k] != IGNORE_LOCATION).any(-1)
            pad = w[k][~real]
            if pad.numel() and pad.abs().max() > 0:
                c["devs"].append(dict(what="amplitude on an ignored location", dev=CAP))
            c["obs"].append(dict(shot=s + 1, nodes=[[int(x) for x in n] for n in nodes[k][real].tolist()],
                                 w=[[q(x) for x in row] for row in w[k][real].tolist()]))
    if nodes.dtype != torch.long:
        c["devs"].append(dict(what="locations are not integers", dev=CAP))
    if not torch.equal(loc, keep):
        c["devs"].append(dict(what="the locations were modified", dev=CAP))
    return c


def main():
    torch.set_num_threads(2)
    out = []
    for req in json.load(open(sys.argv[1])):
        try:
            c = one(req)
        except Exception as e:
            c = dict(id=req["id"], error=f"{type(e).__name__}: {e}"[:300], trace=traceback.format_exc(),
                     den=1, hw=1, devs=[], obs=[], fs=[False] * 4, fs2=[0] * 4, shots=[])
        out.append(c)
    json.dump(out, open(sys.argv[2], "w"))


main()
