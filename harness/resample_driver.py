"""Time step choices and resampling of the code under test.

resample_driver.py REQ OUT: REQ is a list of dict(id, what, seed, ...); the output one record per request
for ResampleTrace.tla.  Nothing is judged here.
"""

import json
import random
import sys
import traceback
import warnings

import torch

import deepwave
from deepwave import common

CAP = 2_000_000_000
F64 = torch.float64
FUN = {"scalar": deepwave.scalar, "born": deepwave.scalar_born, "acoustic": deepwave.acoustic, "elastic": deepwave.elastic}
warnings.simplefilter("ignore")


def ints(x, scale):
    out = []
    for a in x.tolist():
        out.append(int(round(a * scale)) if a == a and abs(a) < 2**14 else CAP)
    return out


def dev(a, b):
    if a.shape != b.shape:
        return CAP
    if not a.numel():
        return 0
    d, m = (a - b).abs().max().item(), b.abs().max().item()
    if not (d == d) or d == float("inf"):
        return CAP
    return 0 if d == 0 else CAP if m == 0 else min(CAP, int(d / m * 1e9))


def blank(req):
    return dict(id=req["id"], error="", cfl=False, counted=False, devs=[], series=[], r=1, a=1, den=1, dx=[1], maxvel=0, speeds=[1],
                quotient=0, counts=[], nt=0, calls=0, ftn=0, ftd=8, sh=0, tpn=0, tpd=8, hann=False)


def draw_cfl(rng, nd):
    c = dict(den=rng.choice([1, 10, 100, 100]), dx=[rng.choice([1, 2, 3, 4, 6, 12]) for _ in range(nd)])
    for _ in range(1000):
        v, a = rng.randint(1, 60), rng.randint(1, 60)
        need = 25 * (a * v) ** 2 * sum((12 // x) ** 2 for x in c["dx"])
        if need < 2**31 - 1 and need <= 9 * 144 * c["den"] ** 2 * 1000**2 and a * v <= 300:
            break
    # hitting the limit exactly: one dimension, a v / (den dx) = 3/5 r
    if nd == 1 and rng.random() < 0.4:
        c["den"] = rng.choice([5, 10])
        a, v = rng.choice([(3, 1), (6, 1), (3, 2), (3, 4), (6, 6)])
    c.update(a=a, v=v)
    return c


# --------------------------------------------------------------- functions
def do_cfl(req, rng, c):
    nd = rng.randint(1, 3)
    d = draw_cfl(rng, nd)
    k, s = rng.choice([0, 1, 2, 3]), rng.choice([1, 5, 10])
    dt = rng.choice([1, -1]) * d["a"] / d["den"] * 10.0**-k * s
    dx = [float(x * s) for x in d["dx"]]
    vel = d["v"] * 10.0**k
    if nd == 2 and rng.random() < 0.5:
        inner, r = common.cfl_condition(*dx, dt, vel)
    else:
        inner, r = common.cfl_condition_n(dx, dt, vel)
    c.update(cfl=True, a=d["a"], den=d["den"], dx=d["dx"], speeds=[d["v"]], r=r,
             quotient=int(round(dt / inner * 1e6)) if abs(dt / inner) < 2000 else -1)


def options(rng, c):
    o = {}
    if rng.random() < 0.5:
        c.update(ftn=rng.randint(1, 8), ftd=8)
        o["freq_taper_frac"] = c["ftn"] / 8
    if rng.random() < 0.5:
        c.update(tpn=rng.randint(1, 8), tpd=8)
        o["time_pad_frac"] = c["tpn"] / 8
    if rng.random() < 0.3:
        c["hann"] = True
        o["time_taper"] = True
    return o


def signal(rng, n):
    kind = rng.randint(0, 3)
    if kind == 0:
        x = [0] * n
        x[rng.randrange(n)] = 2048
    elif kind == 1:
        x = [rng.randint(1, 2048)] * n
    else:
        x = [rng.randint(-2048, 2048) for _ in range(n)]
    return x


def do_series(req, rng, c):
    c["r"] = r = rng.choice([1, 2, 2, 3, 4, 5, 7])
    o = options(rng, c)
    shape = rng.choice([(), (2,), (2, 2)])
    n = rng.randint(1, max(1, min(24, 72 // r)))
    rows = 1
    for s in shape:
        rows *= s
    sh = rng.choice([0, 0, 0, 1, 2, -1])
    for op, f, m in (("up", common.upsample, n), ("down", common.downsample, n * r)):
        xs = [signal(rng, m) for _ in range(rows)]
        x = (torch.tensor(xs, dtype=F64) / 2048).reshape(*shape, m)
        keep = x.clone()
        if op == "down" and sh:
            o["shift"] = float(sh)
            c["sh"] = sh
        y = f(x, r, **o)
        if not torch.equal(x, keep):
            c["devs"].append(dict(what=op + " changed its input", dev=CAP))
        # linear: the gradient of <u, y> reproduces <u, y>
        xl = x.clone().requires_grad_()
        yl = f(xl, r, **o)
        u = torch.linspace(-1, 2, yl.numel(), dtype=F64).reshape(yl.shape)
        gx, = torch.autograd.grad((u * yl).sum(), [xl])
        c["devs"].append(dict(what=op + " gradient", dev=dev((gx * x).sum() + 1000, (u * y).sum() + 1000)))
        exact = tuple(y.shape) == tuple(x.shape) and torch.equal(y, keep)
        y = y.reshape(rows, -1)
        for i in range(rows):
            c["series"].append(dict(op=op, what=f"row {i}", x=xs[i], y=ints(y[i], 16384), exact=exact))


# -------------------------------------------------------------- propagators
def names(kind, nd):
    comp = ["z", "y", "x"][3 - nd:]
    if kind == "scalar":
        return [""], [""]
    if kind == "born":
        return [""], ["", "bg_"]
    return ["_p"] + ["_" + q for q in comp], ["_p"] + ["_" + q for q in comp]


def build(rng, g, kind, nd, ns, nt, n):
    kw = {}
    src, rec = names(kind, nd)

    def loc(k):
        return torch.stack([torch.stack([torch.randperm(x - 1, generator=g)[:k] for x in n], -1) for _ in range(ns)])
    for q in src:
        if q == src[0] or rng.random() < 0.6:
            kw[f"source_locations{q}"] = loc(2)
            kw[f"source_amplitudes{q}"] = None
    for q in rec:
        kw[f"bg_receiver_locations" if q == "bg_" else f"receiver_locations{q}"] = loc(2)
    return kw


def velocity_models(rng, g, kind, n, ns, speeds, scale):
    """Models whose cells have the given wavespeeds (each occurring at least once)."""
    size = 1
    for x in n:
        size *= x
    batched = ns > 1 and rng.random() < 0.5
    total = size * (ns if batched else 1)
    pick = [i % len(speeds) for i in range(total)]
    rng.shuffle(pick)
    shape = ([ns] if batched else []) + n
    t = lambda f: torch.tensor([f(i) for i in pick], dtype=F64).reshape(shape)
    if kind == "elastic":
        rho = [rng.choice([1, 2, 4]) for _ in speeds]
        mu = t(lambda i: float(rho[i] * (speeds[i][1] * scale) ** 2))
        lamb = t(lambda i: rho[i] * ((speeds[i][0] * scale) ** 2 - 2.0 * (speeds[i][1] * scale) ** 2))
        return [lamb, mu, t(lambda i: 1.0 / rho[i])]
    v = t(lambda i: float(speeds[i] * scale))
    if kind == "scalar":
        return [v]
    other = torch.rand(shape, generator=g, dtype=F64)
    return [v, other if kind == "born" else 1 + other]


def receivers(kind, nd, out):
    k = len(names(kind, nd)[1])
    return list(out[len(out) - k:])


def do_limit(req, rng, c):
    """Which internal time step a propagator uses, and how many samples it returns."""
    kind, nd, ns = req["kind"], req["nd"], rng.randint(1, 3)
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    for _ in range(1000):
        d = draw_cfl(rng, nd)
        if 25 * (d["a"] * d["v"]) ** 2 * sum((12 // x) ** 2 for x in d["dx"]) <= 9 * 144 * d["den"] ** 2 * 8**2:
            break
    k, s = rng.choice([0, 1, 2, 3]), rng.choice([1, 5])
    dt = rng.choice([1, -1]) * d["a"] / d["den"] * 10.0**-k * s
    dx = [float(x * s) for x in d["dx"]]
    if len(set(dx)) == 1 and rng.random() < 0.5:
        dx = dx[0]
    top = d["v"]
    n = [rng.randint(4, 6) for _ in range(nd)]
    others = [rng.randint(1, top) for _ in range(rng.randint(0, 2))]
    sign = [rng.choice([1, -1]) if kind != "elastic" and rng.random() < 0.3 else 1 for _ in range(3)]
    if kind == "elastic":
        sp = [(top, rng.randint(0, top)) if rng.random() < 0.7 else (rng.randint(1, top), top)]
        sp += [(o, rng.randint(0, o)) for o in others]
        c["speeds"] = [x for q in sp for x in q]
    else:
        sp = [x * y for x, y in zip([top, *others], sign)]
        c["speeds"] = [abs(x) for x in sp]
    models = velocity_models(rng, g, kind, n, ns, sp, 10.0**k)
    kw = build(rng, g, kind, nd, ns, 0, n)
    nt = rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < 0.9 else 1
    nt = max(nt, 1)
    nosrc = rng.random() < 0.3
    for q in [q for q in kw if q.startswith("source_amplitudes")]:
        if nosrc:
            del kw[q], kw[q.replace("amplitudes", "locations")]
        else:
            kw[q] = torch.rand(ns, 2, nt, generator=g, dtype=F64)
    if nosrc:
        w0 = {"scalar": "wavefield_0", "born": "wavefield_0", "acoustic": "pressure_0", "elastic": "vx_0"}[kind]
        kw[w0] = torch.rand(ns, *[x + 2 for x in n], generator=g, dtype=F64)
        kw.update(origin=[0] * nd)
    if nosrc or rng.random() < 0.3:
        kw["nt"] = nt
    if rng.random() < 0.4:
        m = rng.choice([top, max(1, top // 2), top])
        kw["max_vel"] = rng.choice([1, -1]) * m * 10.0**k
        c["maxvel"] = m
    seen = []
    out = FUN[kind](*models, dx, dt, pml_width=1, pml_freq=20.0, accuracy=rng.choice([2, 4]), survey_pad=None,
                    forward_callback=lambda st: seen.append(st.dt), **kw)
    inner = seen[0] if seen else float("nan")
    q = dt / inner
    c.update(cfl=True, counted=True, a=d["a"], den=d["den"], dx=d["dx"], nt=nt, calls=len(seen),
             r=int(round(q)) if 0 < q < 2000 else -1, quotient=int(round(q * 1e6)) if abs(q) < 2000 else -1)
    if any(x != inner for x in seen):
        c["quotient"] = -2
    c["counts"] = [o.shape[-1] for o in receivers(kind, nd, out)]


def do_pair(req, rng, c):
    """A propagation with internal steps and the same one written out at the internal interval."""
    kind, nd, ns = req["kind"], req["nd"], rng.randint(1, 3)
    g = torch.Generator().manual_seed(rng.randrange(2**31))
    n = {1: [rng.randint(12, 20)], 2: [rng.randint(6, 9), rng.randint(6, 9)], 3: [5, 6, 5]}[nd]
    nt = rng.choice([4, 6, 8, 10])
    dx = [5.0 + rng.random() for _ in range(nd)]
    rho = 1 + torch.rand(n, generator=g, dtype=F64)
    v = 1500 + 200 * torch.rand(n, generator=g, dtype=F64)
    models = {"scalar": [v], "born": [v, 50 * rho], "acoustic": [v, rho],
              "elastic": [rho * v**2 * 0.4, rho * v**2 * 0.3, 1 / rho]}[kind]
    dt = rng.choice([1, -1]) * rng.choice([0.003, 0.004, 0.005]) / (1 if nd < 3 else 1.3)
    o = options(rng, c)
    kw = build(rng, g, kind, nd, ns, nt, n)
    amps = [q for q in kw if q.startswith("source_amplitudes")]
    for q in amps:
        kw[q] = 2 * torch.rand(ns, 2, nt, generator=g, dtype=F64) - 1
    same = dict(pml_width=rng.choice([0, 2]), pml_freq=25.0, max_vel=1800.0, accuracy=rng.choice([2, 4, 6]))
    if rng.random() < 0.2 and kind != "born":
        same["python_backend"] = "eager"
    if rng.random() < 0.5:
        kw["nt"] = nt
    seen = []
    coarse = FUN[kind](*models, dx, dt, forward_callback=lambda st: seen.append(st.dt), **kw, **o, **same)
    r = int(round(dt / seen[0]))
    c["r"] = r
    kf = dict(kw)
    kf.pop("nt", None)
    for q in amps:
        kf[q] = common.upsample(kw[q], r, **o)
        x, y = kw[q].reshape(-1, nt), kf[q].reshape(-1, nt * r)
        i = rng.randrange(len(x))
        big = [int(round(a * 2048)) for a in x[i].tolist()]
        # the spec's input is rounded to 2^-11: so is the one compared here
        y2 = common.upsample(torch.tensor(big, dtype=F64) / 2048, r, **o)
        c["series"].append(dict(op="up", what=q, x=big, y=ints(y2, 16384), exact=torch.equal(x, y)))
    fine = FUN[kind](*models, dx, dt / r, **kf, **same)
    k = len(names(kind, nd)[1])
    for i, (a, b) in enumerate(zip(coarse[:-k], fine[:-k])):
        c["devs"].append(dict(what=f"wavefield {i} after the last step", dev=dev(a, b)))
    # gradients with respect to the amplitudes go through the resampling too
    la = [kw[q].clone().requires_grad_() for q in amps]
    def loss(out, f):
        z = [f(x) for x in out[-k:]]
        return sum((x * torch.linspace(-1, 2, x.numel(), dtype=F64).reshape(x.shape)).sum() for x in z)
    ga = torch.autograd.grad(loss(FUN[kind](*models, dx, dt, **{**kw, **dict(zip(amps, la))}, **o, **same), lambda x: x), la)
    lb = [kw[q].clone().requires_grad_() for q in amps]
    up = {q: common.upsample(x, r, **o) for q, x in zip(amps, lb)}
    gb = torch.autograd.grad(loss(FUN[kind](*models, dx, dt / r, **{**kf, **up}, **same),
                                  lambda x: common.downsample(x, r, **o)), lb)
    for q, a, b in zip(amps, ga, gb):
        c["devs"].append(dict(what=f"gradient of {q}", dev=dev(a, b)))
    for nm, a, b in zip(names(kind, nd)[1], coarse[-k:], fine[-k:]):
        if tuple(a.shape) != (ns, 2, nt) or tuple(b.shape) != (ns, 2, nt * r):
            c["devs"].append(dict(what=f"shape of receivers{nm}", dev=CAP))
            continue
        a, b = a.reshape(-1, nt), b.reshape(-1, nt * r)
        for i in range(len(a)) if nd < 3 else [rng.randrange(len(a))]:
            m = b[i].abs().max().item()
            if m > 0:
                c["series"].append(dict(op="down", what=f"receiver{nm} {i}", x=ints(b[i] / m, 2048), y=ints(a[i] / m, 16384),
                                        exact=torch.equal(a[i], b[i]) if r == 1 else False))


DO = {"cfl": do_cfl, "series": do_series, "limit": do_limit, "pair": do_pair}


def main():
    torch.set_num_threads(4)
    out = []
    for req in json.load(open(sys.argv[1])):
        rng = random.Random(req["seed"])
        c = blank(req)
        try:
            DO[req["what"]](req, rng, c)
        except Exception as e:
            c["error"] = f"{type(e).__name__}: {e}"[:300]
            c["trace"] = traceback.format_exc()
        out.append(c)
    json.dump(out, open(sys.argv[2], "w"))


main()
