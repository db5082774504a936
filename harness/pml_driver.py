"""Records PML profiles, wavelets, conversions and absorption (nothing is judged here).

pml_driver.py REQ OUT: REQ is a list of dict(id, seed, what, ...).

The profiles are seen through the public functions only: one time step in which
a single memory variable is one everywhere leaves the decay a in it, and one in
which a single wavefield is non-zero leaves b times its derivative.
"""

import json
import math
import random
import sys
import traceback
import warnings

import torch

import deepwave
from deepwave.common import vpvsrho_to_lambmubuoyancy, lambmubuoyancy_to_vpvsrho
from wave_driver import names_in_order, half_dims, mem_dim, prod

CAP = 2_000_000_000
F64 = torch.float64
PROP = {"scalar": deepwave.scalar, "born": deepwave.scalar_born,
        "acoustic": deepwave.acoustic, "elastic": deepwave.elastic}


def q15(x):
    x = float(x)
    return int(round(x * 32768)) if x == x and abs(x) < 6e4 else CAP


def source_of(kind, nd, name):
    """The wavefield whose derivative drives a memory variable ("": none alone)."""
    if kind in ("scalar", "born"):
        return f"wavefield{'_sc' if '_sc' in name else ''}_0" if name.startswith("psi") else ""
    if kind == "acoustic":
        return "pressure_0" if name.startswith("psi") else f"v{name[4]}_0"
    return f"sigma{name[7:9]}_0" if name.startswith("m_sigma") else f"v{name[3]}_0"


def models_for(kind, shape, v, rng, dtype, ratio):
    """Models whose largest p speed is exactly v; ratio: vs/vp."""
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    vp = v * (0.3 + 0.6 * torch.rand(shape, generator=g, dtype=F64))
    at = tuple(rng.randrange(s) for s in shape)
    vp[at] = v
    if rng.random() < 0.2:
        vp[at] = -v                         # the speed is its magnitude
    rho = 1.0 + torch.rand(shape, generator=g, dtype=F64)
    if kind in ("scalar", "born"):
        return [vp.to(dtype)] + ([torch.zeros(shape, dtype=dtype)] if kind == "born" else [])
    if kind == "acoustic":
        return [vp.to(dtype), rho.to(dtype)]
    vs = ratio * vp
    return [((vp**2 - 2 * vs**2) * rho).to(dtype), (vs**2 * rho).to(dtype), (1 / rho).to(dtype)]


def profiles(req):
    rng = random.Random(req["seed"])
    kind, nd, acc = req["kind"], req["nd"], req["acc"]
    while True:
        top = {1: 10, 2: 8, 3: 4}[nd]
        w = [rng.choice([0, rng.randint(1, top)]) for _ in range(2 * nd)]
        if rng.random() < 0.2:
            w = [rng.randint(1, top)] * (2 * nd)
        n = [rng.randint(1, top) for _ in range(nd)]
        if max(w) > 0 and max(n) > 1:
            break
    dx = [rng.randint(4, 10) for _ in range(nd)]
    if rng.random() < 0.3:
        dx = dx[:1] * nd
    v, vmax = rng.randint(20, 100), None
    vmodel = v
    if rng.random() < 0.4:                  # max_vel differs from the model's
        vmax = rng.randint(20, 100)
        v = vmax
    fastest = max(v, vmodel)
    inv = math.sqrt(sum(1 / x**2 for x in dx))
    dtmax = 0.55 / (fastest * inv) * 1000
    dtn = rng.randint(1, max(1, min(40, int(dtmax))))
    if rng.random() < 0.6:
        dtn = max(1, min(40, int(dtmax)))
    fn = rng.choice([0, 250, rng.randint(1, 250), rng.randint(1, min(2000, 10000 // dtn))])
    sgn = -1 if rng.random() < 0.3 else 1
    dtype = F64 if req["dtype"] == "double" else torch.float32
    tr = [n[d] + w[2 * d] + w[2 * d + 1] for d in range(nd)]
    names = names_in_order(kind, nd)
    mems = [x for x in names if mem_dim(kind, nd, x) is not None]
    plan = [(m, "a", m) for m in mems] + [(m, "b", source_of(kind, nd, m)) for m in mems if source_of(kind, nd, m)]
    srcs = sorted({s for _, k, s in plan if k == "b"})
    F = [rng.randint(-3, 3) for _ in range(prod(tr))]
    Ft = torch.tensor(F, dtype=dtype).reshape(tr)
    shots = [("a", m) for m in mems] + [("b", s) for s in srcs]
    init = {x: torch.zeros([len(shots), *tr], dtype=dtype) for x in names}
    for i, (k, x) in enumerate(shots):
        init[x][i] = 1 if k == "a" else Ft
    shape = n
    kw = {}
    if rng.random() < 0.5:
        kw["pml_freq"] = fn / 10
    else:
        fn = 250
    if vmax is not None:
        kw["max_vel"] = vmax * rng.choice([1, -1])
    # max_vel may be below the model's speed: only a warning
    out = PROP[kind](
        *models_for(kind, shape, vmodel, rng, dtype, rng.choice([0.0, 0.5, 0.7])),
        [float(x) for x in dx] if rng.random() < 0.7 or len(set(dx)) > 1 else float(dx[0]), sgn * dtn / 1000,
        nt=1, accuracy=acc, pml_width=w if len(set(w)) > 1 or rng.random() < 0.5 else w[0],
        python_backend="eager" if req["py"] else False, **init, **kw)
    res = dict(zip(names, out))
    obs = []
    for m, k, s in plan:
        i = shots.index((k, s))
        d = mem_dim(kind, nd, m)
        pts = []
        line = [rng.randrange(t) for t in tr]
        for h in half_dims(kind, nd, m):
            line[h] = min(line[h], max(0, tr[h] - 2))
        for x in range(tr[d]):
            pts.append(line[:d] + [x] + line[d + 1:])
        pts += [[rng.randrange(t) for t in tr] for _ in range(8)]
        scale = 1 if k == "a" else dx[d]
        vals = [q15(res[m][(i, *x)].item() * scale) for x in pts]
        obs.append(dict(name=m, k=k, src=s, pts=pts, vals=vals))
        if list(res[m].shape) != [len(shots), *tr]:
            raise RuntimeError(f"{m} has shape {list(res[m].shape)}")
    return dict(kind=kind, nd=nd, acc=acc, w=w, tr=tr, dx=dx, vdt=v * dtn, fdt=fn * dtn, F=F, obs=obs)


def wavelet(req):
    rng = random.Random(req["seed"])
    m = rng.randint(4, 60)                  # samples per period
    freq = rng.choice([1.0, 25.0, 0.5, 8.0, 40.0])
    dt = 1 / (freq * m) * (1 if rng.random() < 0.8 else -1)
    length = rng.randint(1, 3 * m)
    half = rng.randint(-2, 2 * length + 2)  # the peak, in half samples
    dtype = rng.choice([None, torch.float32, F64])
    y = deepwave.wavelets.ricker(freq, length, dt, half / 2 * dt, *([] if dtype is None and rng.random() < 0.5 else [dtype]))
    return dict(m=m, half=half, length=length, y=[q15(v) for v in y.tolist()],
                dims=list(y.shape), dtype=(y.dtype == (dtype or torch.get_default_dtype())))


def conversion(req):
    """lamb, mu and buoyancy of small whole numbers, and back."""
    rng = random.Random(req["seed"])
    shape = [rng.randint(1, 4) for _ in range(rng.randint(0, 3))]
    k = prod(shape)
    vp = [rng.randint(0, 40) for _ in range(k)]
    vs = [rng.randint(0, max(1, x * 2 // 3)) if rng.random() < 0.8 else 0 for x in vp]
    vs = [min(a, b * 2 // 3) for a, b in zip(vs, vp)]      # (vp = 0 < vs is no material)
    rho = [rng.randint(0, 60) if rng.random() < 0.7 else rng.choice([0, 1, 1000, 3000]) for _ in range(k)]
    T = lambda x: torch.tensor(x, dtype=F64).reshape(shape)
    lamb, mu, b = vpvsrho_to_lambmubuoyancy(T(vp), T(vs), T(rho))
    p2, s2, r2 = lambmubuoyancy_to_vpvsrho(lamb, mu, b)

    def ints(t):
        return [int(round(x)) if x == x and abs(x) < 2e9 and abs(x - round(x)) < 1e-4 * max(1, abs(x)) else CAP
                for x in t.reshape(-1).tolist()]
    return dict(vp=vp, vs=vs, rho=rho, lamb=ints(lamb), mu=ints(mu), brho=ints(b * T(rho)), bz=ints(b * 1e6 * (T(rho) == 0)),
                vp2=ints(p2), vs2=ints(s2), rho2=ints(r2))


def absorb(req):
    """The largest difference from a domain whose edges are out of reach, in 1e-6 of the largest value."""
    rng = random.Random(req["seed"])
    kind, nd, acc = req["kind"], req["nd"], req["acc"]
    py = "eager" if req["py"] else False
    dtype = F64
    dx = [5.0] * nd
    if rng.random() < 0.5:
        dx[rng.randrange(nd)] = 4.0
    v, dt = 1500.0, 0.0005
    f = 25.0
    w = [rng.randint(10, 20) for _ in range(2 * nd)]
    nt = req["nt"]
    pad = int(v * nt * dt / 2 / min(dx)) + 12 + acc
    n = [rng.randint(16, 22) if nd < 3 else rng.randint(8, 10) for _ in range(nd)]
    loc = lambda: [rng.randrange(1, x - 2) for x in n]
    sl, rl, rl2 = loc(), loc(), loc()
    while rl2 == rl:
        rl2 = loc()
    amp = deepwave.wavelets.ricker(f, nt, dt, 1.2 / f, dtype=dtype).reshape(1, 1, -1)
    rho = 1000.0

    def run(grow):
        shape = [x + 2 * grow for x in n]
        L = lambda *xs: torch.tensor([[[a + grow for a in x] for x in xs]])
        full = lambda x: torch.full(shape, x, dtype=dtype)
        common = dict(accuracy=acc, pml_width=w if not grow else 4, pml_freq=f, python_backend=py, max_vel=v)
        if kind in ("scalar", "born"):
            sc = full(0.0)
            if kind == "born":
                sc[tuple(slice(grow + 3, grow + x - 3) for x in n)] = 100.0
            m = [full(v)] + ([sc] if kind == "born" else [])
            kw = dict(bg_receiver_locations=L(rl, rl2)) if kind == "born" else {}
            o = PROP[kind](*m, dx, dt, source_amplitudes=amp, source_locations=L(sl), receiver_locations=L(rl, rl2), **common, **kw)
            return list(o[-2:] if kind == "born" else o[-1:])
        if kind == "acoustic":
            m = [full(v), full(rho)]
        else:
            vs = v * 0.55
            m = list(vpvsrho_to_lambmubuoyancy(full(v), full(vs), full(rho)))
        t = "p" if req["src"] == "p" else "zyx"[3 - nd:][0]
        o = PROP[kind](*m, dx, dt, **{f"source_amplitudes_{t}": amp, f"source_locations_{t}": L(sl)},
                       **{f"receiver_locations_{x}": L(rl, rl2) for x in ["p"] + list("zyx"[3 - nd:])}, **common)
        return list(o[-1 - nd:])

    a, b = run(0), run(pad)
    errs = []
    vel = max([y.abs().max().item() for y in b[1:]], default=0)
    for i, (x, y) in enumerate(zip(a, b)):
        # (one component of the velocity may be next to nothing)
        m = vel if i > 0 and kind in ("acoustic", "elastic") else y.abs().max().item()
        e = (x - y).abs().max().item()
        errs.append(CAP if not (e == e and m == m) or m == 0 and e > 0 else 0 if m == 0 else min(CAP, int(1e6 * e / m)))
    return dict(kind=kind, nd=nd, minw=min(w), errs=errs)


WHAT = dict(profiles=profiles, wavelet=wavelet, conversion=conversion, absorb=absorb)


def main():
    torch.set_num_threads(2)
    warnings.simplefilter("ignore")
    out = []
    for req in json.load(open(sys.argv[1])):
        try:
            c = WHAT[req["what"]](req)
            c.update(id=req["id"], what=req["what"], error="")
        except Exception as e:
            c = dict(id=req["id"], what=req["what"], error=f"{type(e).__name__}: {e}"[:300], trace=traceback.format_exc())
        out.append(c)
    json.dump(out, open(sys.argv[2], "w"))


main()
