"""Runs the code under test on generated cases and records what it does.

usage: wave_driver.py REQUESTS.json OUT.json      (PYTHONPATH = code under test)

Every case runs in its own forked process.  Parameters are small rationals, so
that every number the propagators compute is a rational with a known
denominator; it is recorded as its residue modulo P (see spec/Ring.tla).
"""

import inspect
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

P = 46337
PRIMES = (2, 3, 5, 7)
BITS = 45
DIMS = "zyx"


# ---------------------------------------------------------------- projection
class Den:
    """Exponents of the primes of a denominator (max-plus)."""

    __slots__ = ("e",)

    def __init__(self, *e):
        self.e = tuple(e) + (0,) * (4 - len(e))

    def __mul__(self, o):  # product of numbers
        return Den(*[a + b for a, b in zip(self.e, o.e)])

    def __or__(self, o):  # sum of numbers
        return Den(*[max(a, b) for a, b in zip(self.e, o.e)])

    def int(self):
        r = 1
        for p, k in zip(PRIMES, self.e):
            r *= p**k
        return r


ONE = Den()


def den_of(x):
    d = Fraction(x).denominator
    e = []
    for p in PRIMES:
        k = 0
        while d % p == 0:
            d //= p
            k += 1
        e.append(k)
    assert d == 1, x
    return Den(*e)


def rat(x):
    """Residue of an exact rational."""
    x = Fraction(x)
    return x.numerator * pow(x.denominator, -1, P) % P


class Projector:
    def __init__(self):
        self.big = 0
        self.unrep = 0
        self.n = 0

    def __call__(self, values, den):
        """Residues of an iterable of floats with the given denominator."""
        d = den.int()
        dinv = pow(d, -1, P)
        lim = 1 << BITS
        out = []
        for x in values:
            self.n += 1
            if x == 0.0:
                out.append(0)
                continue
            if x != x or x in (float("inf"), float("-inf")):
                self.unrep += 1
                out.append(-1)
                continue
            n, q = x.as_integer_ratio()
            n *= d
            r = (2 * n + q) // (2 * q)
            if abs(r) > lim:
                self.big += 1
            if 5 * abs(n - r * q) > q:
                self.unrep += 1
                out.append(-1)
            else:
                out.append(r * dinv % P)
        return out


C1D = {2: Den(1), 4: den_of(Fraction(1, 12)), 6: den_of(Fraction(1, 60)), 8: den_of(Fraction(1, 840))}
C2D = {2: ONE, 4: den_of(Fraction(1, 12)), 6: den_of(Fraction(1, 180)), 8: den_of(Fraction(1, 5040))}
CSD = {2: ONE, 4: den_of(Fraction(1, 24)), 6: den_of(Fraction(1, 1920)), 8: den_of(Fraction(1, 107520))}


def track(p, nt):
    """Denominators of every field at the start of steps 0..nt: list of dicts by class."""
    k, acc = p["kind"], p["acc"]
    rdx = ONE
    for r in p["rdx"]:
        rdx = rdx | den_of(r)
    dt = den_of(p["dt"])
    pml = p["has_pml"]
    out = []
    if k in ("scalar", "born"):
        v2 = p["dens"]["v"] * p["dens"]["v"] * dt * dt
        s2 = p["dens"]["v"] * p["dens"].get("scatter", ONE) * dt * dt
        sfxs = ("", "_sc") if k == "born" else ("",)
        s = {c + x: ONE for c in ("w", "m", "psi", "zeta") for x in sfxs}
        c1, c2 = C1D[acc] * rdx, C2D[acc] * rdx * rdx
        for _ in range(nt + 1):
            out.append(dict(s))
            n = {}
            lap = {}
            for x in sfxs:
                tmp = s["w" + x] * c2
                if pml:
                    tmp = tmp | (s["w" + x] * c1 * c1) | (s["psi" + x] * c1)
                lap[x] = tmp | s["zeta" + x]
                n["w" + x] = (v2 * lap[x]) | s["w" + x] | s["m" + x] | v2
                n["m" + x] = s["w" + x]
                n["psi" + x] = (s["w" + x] * c1) | s["psi" + x] if pml else s["psi" + x]
                n["zeta" + x] = tmp | s["zeta" + x] if pml else s["zeta" + x]
            if k == "born":
                n["w_sc"] = n["w_sc"] | (s2 * lap[""]) | s2
            s = n
        return out
    cs = CSD[acc] * rdx
    dens = p["dens"]
    if k == "acoustic":
        B, K = dens["B"], dens["rho"] * dens["v"] * dens["v"]
        s = {"p": ONE, "v": ONE, "psi": ONE, "phi": ONE}
        for _ in range(nt + 1):
            out.append(dict(s))
            gp = s["p"] * cs
            psi = s["psi"] | gp if pml else s["psi"]
            v = s["v"] | (dt * B * (gp | psi)) | (dt * B)
            dv = v * cs
            phi = s["phi"] | dv if pml else s["phi"]
            pr = s["p"] | (dt * K * (dv | phi)) | (dt * K)
            s = {"p": pr, "v": v, "psi": psi, "phi": phi}
        return out
    B, M = dens["B"], dens["lamb"] | dens["mu"] | dens["S"]
    s = {"v": ONE, "s": ONE, "ms": ONE, "mv": ONE}
    for _ in range(nt + 1):
        out.append(dict(s))
        ds = s["s"] * cs
        ms = s["ms"] | ds if pml else s["ms"]
        v = s["v"] | (dt * B * (ds | ms)) | (dt * B)
        dv = v * cs
        mv = s["mv"] | dv if pml else s["mv"]
        st = s["s"] | (dt * M * (dv | mv)) | dt
        s = {"v": v, "s": st, "ms": ms, "mv": mv}
    return out


def field_class(kind, name):
    if kind in ("scalar", "born"):
        sfx = "_sc" if "_sc" in name else ""
        if name.startswith("wavefield"):
            return ("w" if name.endswith("_0") else "m") + sfx
        return name.split("_")[0][:-1] + sfx
    if kind == "acoustic":
        return {"p": "p", "v": "v"}.get(name[0]) if not name.startswith(("phi", "psi")) else name[:3]
    if name.startswith("m_sigma"):
        return "ms"
    if name.startswith("m_v"):
        return "mv"
    return "s" if name.startswith("sigma") else "v"


def model_den(p, name):
    d = p["dens"]
    if name == "v":
        return d["v"]
    if name == "scatter":
        return d["scatter"]
    if name == "K":
        return d["rho"] * d["v"] * d["v"]
    if name.startswith("B") or name.startswith("buoyancy"):
        return d["B"]
    return d["S"] if name.startswith("mu_") else d[name]


# ---------------------------------------------------------------- names
def prepared_names(kind, nd):
    """The models exposed to callbacks."""
    ds = DIMS[3 - nd:]
    if kind in ("scalar", "born"):
        return ["v"] + (["scatter"] if kind == "born" else [])
    if kind == "acoustic":
        return ["K"] + ["B" + d for d in ds]
    return (["lamb", "mu"] + [f"mu_{a}{b}" for i, a in enumerate(ds) for b in ds[i + 1:]]
            + ["buoyancy_" + d for d in ds])


def names_in_order(kind, nd):
    """The documented wavefields in the order they are returned."""
    ds = DIMS[3 - nd:]
    if kind in ("scalar", "born"):
        out = []
        for sfx in ("", "_sc") if kind == "born" else ("",):
            out += [f"wavefield{sfx}_0", f"wavefield{sfx}_m1"]
            out += [f"psi{d}{sfx}_m1" for d in ds] + [f"zeta{d}{sfx}_m1" for d in ds]
        return out
    if kind == "acoustic":
        return (["pressure_0"] + [f"v{d}_0" for d in ds] + [f"phi_{d}_0" for d in ds]
                + [f"psi_{d}_0" for d in ds])
    if nd == 1:
        return ["vx_0", "sigmaxx_0", "m_vxx_0", "m_sigmaxxx_0"]
    if nd == 2:
        return [x + "_0" for x in
                "vy vx sigmayy sigmaxy sigmaxx m_vyy m_vyx m_vxy m_vxx "
                "m_sigmayyy m_sigmaxyy m_sigmaxyx m_sigmaxxx".split()]
    return [x + "_0" for x in
            "vz vy vx sigmazz sigmayz sigmaxz sigmayy sigmaxy sigmaxx "
            "m_vzz m_vzy m_vzx m_vyz m_vxz m_vyy m_vyx m_vxy m_vxx "
            "m_sigmazzz m_sigmayzy m_sigmaxzx m_sigmayzz m_sigmaxzz m_sigmayyy "
            "m_sigmaxyy m_sigmaxyx m_sigmaxxx".split()]


def half_dims(kind, nd, name):
    """Dimensions in which a field lives on half cells (only used to choose inputs)."""
    if kind in ("scalar", "born"):
        return ()
    ds = DIMS[3 - nd:]
    base = name[:-2]
    if kind == "acoustic":
        if base.startswith(("v", "psi_")):
            return (ds.index(base[-1]),)
        return ()
    if base.startswith("m_v"):
        i, j = base[3], base[4]
        return () if i == j else (ds.index(i), ds.index(j))
    if base.startswith("m_sigma"):
        a, b, j = base[7], base[8], base[9]
        return (ds.index(a if b == j else b),)
    if base.startswith("sigma"):
        a, b = base[5], base[6]
        return () if a == b else (ds.index(a), ds.index(b))
    return (ds.index(base[1]),)


def mem_dim(kind, nd, name):
    """Dimension of a memory variable, None for other fields."""
    ds = DIMS[3 - nd:]
    if name.startswith(("psi", "zeta", "phi")):
        return ds.index(name[4] if name.startswith(("psi_", "phi_", "zeta")) else name[3])
    return ds.index(name[-3]) if name.startswith("m_") else None


def strip_mask(p, name):
    """Which cells of an initial wavefield count."""
    hd = half_dims(p["kind"], p["nd"], name)
    md = mem_dim(p["kind"], p["nd"], name)
    tr, pml = p["trim"], p["pml"]
    out = []
    for f in range(prod(tr)):
        y, x = f, []
        for d in reversed(range(p["nd"])):
            x.append(y % tr[d])
            y //= tr[d]
        x = x[::-1]
        ok = all(x[d] < tr[d] - 1 for d in hd)
        if md is not None:
            ok = ok and (x[md] < pml[2 * md] or x[md] > tr[md] - 1 - pml[2 * md + 1] - (md in hd))
        out.append(ok)
    return out


MODELS = {"scalar": ("v",), "born": ("v", "scatter"), "acoustic": ("v", "rho"),
          "elastic": ("lamb", "mu", "buoyancy")}


def src_types(kind, nd):
    return ("p",) if kind in ("scalar", "born") else ("p",) + tuple(DIMS[3 - nd:])


def rec_types(kind, nd):
    return {"scalar": ("p",), "born": ("p", "sc")}.get(kind) or ("p",) + tuple(DIMS[3 - nd:])


# ---------------------------------------------------------------- generation
def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def generate(req):
    """Deterministic case parameters from a request."""
    rng = random.Random(f"{req['seed']}/{req['id']}/{req.get('salt', 0)}")
    kind, nd, acc, K = req["kind"], req["nd"], req["acc"], req["K"]
    p = dict(id=req["id"], kind=kind, nd=nd, acc=acc, K=K)
    stag = kind in ("acoustic", "elastic")
    ns = req.get("ns") or rng.choice([1, 2, 2, 3] if nd < 3 else [1, 2])
    h = acc // 2
    fd = (h, h - 1) if stag else (h, h)
    top = {1: (4, 8), 2: (2, 5), 3: (2, 3)}[nd]
    if req.get("no_pml") and nd == 3:
        top = (2, 4)
    while True:
        n = [rng.randint(*top) for _ in range(nd)]
        if req.get("no_pml"):
            pml = [0] * (2 * nd)
        else:
            pml = [rng.choice([0, 1, 2, 3] if nd < 3 else [0, 1, 1, 2]) for _ in range(2 * nd)]
        size = [n[d] + pml[2 * d] + pml[2 * d + 1] + sum(fd) for d in range(nd)]
        if len(set(size)) == nd and max(n) > 1:
            break
    p.update(ns=ns, n=n, pml=pml, size=size, fd=fd, stag=stag)
    simple = req.get("simple", rng.random() < 0.5 or (K > 1 and stag and acc >= 6))
    p["simple"] = simple
    p["rdx"] = [Fraction(rng.choice([1, 2])) if K > 1 and stag and acc == 8 else rng.choice([Fraction(1), Fraction(2), Fraction(1, 2)]) for _ in range(nd)]
    if rng.random() < 0.3:
        p["rdx"] = [p["rdx"][0]] * nd
    p["dt"] = rng.choice([Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(-1, 2)])
    r = req.get("r", 1)
    p["r"] = r
    if r > 1:
        p["dt"] *= 2 * r
    p["has_pml"] = any(pml)
    if req.get("zero_pml_values"):
        p["has_pml"] = False
    tab = lambda vals: [[rng.choice(vals) for _ in range(s)] for s in size]
    if p["has_pml"]:
        p["A"], p["B"] = tab([1, 1, -1, 2]), tab([1, -1, -2, 2])
        p["AH"], p["BH"] = tab([1, 1, -1, 2]), tab([1, -1, -2, 2])
        if not stag and acc >= 6 and rng.random() < 0.5:
            pass
    else:
        p["A"], p["B"] = tab([0]), tab([0])
        p["AH"], p["BH"] = tab([0]), tab([0])
    nn = prod(n)

    # models: [shot][flat interior]
    def arr(vals, m=nn):
        return [rng.choice(vals) for _ in range(m)]

    batched = rng.random() < 0.4
    p["batched"] = {}
    model, dens = {}, {}
    F = Fraction

    def put(name, vals, const=False):
        b = batched and rng.random() < 0.8
        p["batched"][name] = b
        k = ns if b else 1
        a = [[rng.choice(vals)] * nn if const else arr(vals) for _ in range(k)]
        model[name] = a if b else a * ns
        dens[name] = ONE
        for x in vals:
            dens[name] = dens[name] | den_of(x)

    if kind in ("scalar", "born"):
        put("v", [F(1), F(2), F(3)] if simple else [F(1, 2), F(1), F(3, 2), F(2)])
        if kind == "born":
            put("scatter", [F(-2), F(-1), F(0), F(1), F(2)])
    elif kind == "acoustic":
        put("v", [F(1), F(2)] if simple else [F(1, 2), F(1), F(3, 2)])
        if simple:
            put("rho", [F(1), F(1, 2)], const=True)
            dens["B"] = ONE
        else:
            put("rho", [F(1), F(3)])
            dens["B"] = Den(1, 1)
        if K == 1 and not simple and rng.random() < 0.2:
            model["rho"][0][rng.randrange(nn)] = F(3)
    else:
        put("lamb", [F(-2), F(-1), F(1), F(2), F(3)])
        if simple:
            put("mu", [F(1), F(2), F(1, 2)], const=True)
            put("buoyancy", [F(1), F(2)], const=True)
            dens["S"] = Den(1)
            dens["B"] = ONE
        else:
            put("mu", [F(1), F(1, 3)])
            put("buoyancy", [F(1), F(1, 3)])
            dens["S"] = Den(1, 1, 1)
            dens["B"] = Den(1, 1)
            if K == 1 and rng.random() < 0.4:  # fluid cells
                for a in (model["mu"] if p["batched"]["mu"] else model["mu"][:1]):
                    for _ in range(rng.randint(1, 2)):
                        a[rng.randrange(nn)] = F(0)
    p["model"], p["dens"] = model, dens

    # locations
    def cells(k, hd=None):
        ok = []
        for f in range(nn):
            x, y = [], f
            for d in reversed(range(nd)):
                x.append(y % n[d])
                y //= n[d]
            x = x[::-1]
            if hd is None or x[hd] < n[hd] - 1:
                ok.append(x)
        if not ok:
            return None
        k = min(k, len(ok))
        return rng.sample(ok, k)

    def locs(prob):
        out = {}
        return out

    p["src"], p["rec"] = {}, {}
    force = req.get("src", True) and r == 1
    st = src_types(kind, nd)
    for i, ty in enumerate(st):
        hd = None if ty in ("p", "sc") else DIMS[3 - nd:].index(ty)
        on = force and (req.get("emb") == "pad" and i == 0 or rng.random() < (0.8 if i == 0 else 0.6))
        k = rng.randint(1, 3)
        L = [cells(k, hd) for _ in range(ns)] if on else None
        if L and all(x is not None for x in L):
            L = [[c if rng.random() > 0.15 else [] for c in row] for row in L]
            p["src"][ty] = L
        else:
            p["src"][ty] = []
    for i, ty in enumerate(rec_types(kind, nd)):
        hd = None if ty in ("p", "sc") else DIMS[3 - nd:].index(ty)
        on = r == 1 and rng.random() < 0.8
        k = rng.randint(1, 3)
        L = [cells(k, hd) for _ in range(ns)] if on else None
        if L and all(x is not None for x in L):
            p["rec"][ty] = [[c if rng.random() > 0.1 else [] for c in row] for row in L]
    nt = req.get("nt") or default_nt(p, simple)
    p["nt"] = nt
    if req.get("pieces"):
        cuts = sorted(rng.randint(0, nt) for _ in range(req["pieces"] - 1))
        p["pieces"] = [b - a for a, b in zip([0] + cuts, cuts + [nt])]
    p["amp"] = {ty: [[[rng.choice([-3, -2, -1, 1, 2, 3]) for _ in range(nt)] for _ in row] for row in L]
                for ty, L in p["src"].items()}
    # initial wavefields
    names = names_in_order(kind, nd)
    p["init"] = {}
    tr = [n[d] + pml[2 * d] + pml[2 * d + 1] for d in range(nd)]
    p["trim"] = tr
    have_src = any(p["src"][t] for t in st)
    if req.get("emb") == "pad":
        pass
    elif not have_src or rng.random() < 0.75:
        for nm in names:
            if rng.random() < 0.8 or not have_src:
                p["init"][nm] = [[rng.randint(-3, 3) for _ in range(prod(tr))] for _ in range(ns)]
    if req.get("python_backend") or req.get("strip"):
        for nm, rows in p["init"].items():
            keep = strip_mask(p, nm)
            p["init"][nm] = [[x if k else 0 for x, k in zip(row, keep)] for row in rows]
    p["cf"] = req.get("cf") or rng.choice([1, 1, 2, 3])
    # gradient sampling
    p["mgsi"] = req.get("mgsi", 1)
    # directions and weights
    if K >= 2:
        inputs = [("model", m) for m in MODELS[kind]]
        inputs += [("amp", t) for t in st if p["src"][t]]
        inputs += [("init", m) for m in p["init"]]
        if K == 4:
            inputs = [x for x in inputs]
        diff = [x for x in inputs if rng.random() < 0.75] or [inputs[0]]
        if rng.random() < 0.2:
            diff = [rng.choice(inputs)]
        if req.get("mgsi", 1) > 1 and ("model", MODELS[kind][0]) not in diff:
            diff.append(("model", MODELS[kind][0]))
        want = req.get("diff")  # one kind of input only
        if want:
            sc = {"scatter"} | {m for m in p["init"] if "sc" in m}
            part = {"sc": [x for x in inputs if x[1] in sc and x[0] != "amp"],
                    "models": [x for x in inputs if x[0] == "model"],
                    "amp": [x for x in inputs if x[0] == "amp"],
                    "init": [x for x in inputs if x[0] == "init"]}
            part.update({m: [("model", m)] for m in MODELS[kind]})
            diff = part[want] or diff
        p["diff"] = diff
        pm = lambda: rng.choice([-3, -2, -1, 1, 2, 3])
        p["dir"] = []
        for _ in range(1 if K == 2 else 2):
            dd = {}
            for what, nm in diff:
                if what == "model":
                    b = p["batched"][nm]
                    a = [[pm() for _ in range(nn)] for _ in range(ns if b else 1)]
                    if req.get("storage_mode") == "none":  # no snapshots, no model gradient
                        a = [[0] * nn for _ in a]
                    dd[what, nm] = a if b else a * ns
                elif what == "amp":
                    dd[what, nm] = [[[pm() for _ in range(nt)] for _ in row] for row in p["amp"][nm]]
                else:
                    dd[what, nm] = [[pm() for _ in range(prod(tr))] for _ in range(ns)]
            p["dir"].append(dd)
        which = rng.choice(["rec", "fin", "both"]) if p["rec"] else "fin"
        p["wrec"] = {t: [[[pm() if which != "fin" else 0 for _ in range(nt)] for _ in row] for row in L]
                     for t, L in p["rec"].items()}
        p["urec"] = {t: [[[rng.choice([-1, 0, 1]) if which != "fin" else 0 for _ in range(nt)] for _ in row]
                         for row in L] for t, L in p["rec"].items()}
        p["wfin"] = {m: [pm() if which != "rec" else 0 for _ in range(ns * prod(tr))] for m in names}
        p["ufin"] = {m: [rng.choice([-1, 0, 0, 1]) if which != "rec" else 0 for _ in range(ns * prod(tr))]
                     for m in names}
        if K == 4 and acc >= 6 and p["has_pml"]:  # denominators would exceed double precision
            p["urec"] = {t: [[[0] * nt for _ in row] for row in L] for t, L in p["rec"].items()}
            p["ufin"] = {m: [0] * len(v) for m, v in p["ufin"].items()}
        if rng.random() < 0.5:  # only some of the final wavefields
            keep = {m for m in names if rng.random() < 0.5} or {names[0]}
            p["wfin"] = {m: (v if m in keep else [0] * len(v)) for m, v in p["wfin"].items()}
            p["ufin"] = {m: (v if m in keep else [0] * len(v)) for m, v in p["ufin"].items()}
    if req.get("emb") and (p["init"] if req["emb"] == "origin" else any(p["src"].values()) or any(p["rec"].values())):
        embed(p, req["emb"], rng)
    if req.get("bcb"):  # perturbations of the state a backward callback sees
        p["pdir"] = [{nm: [rng.choice([-3, -2, -1, 1, 2, 3]) for _ in range(ns * prod(size))] for nm in names}
                     for _ in range(nt)]
    p["threads"] = req.get("threads", 1)
    p["python_backend"] = req.get("python_backend", False)
    p["storage_mode"] = req.get("storage_mode", "device")
    return p


def embed(p, how, rng):
    """Makes the case a part of a larger model, selected by survey_pad or origin."""
    nd, n, ns = p["nd"], p["n"], p["ns"]
    pts = [c for T in (p["src"], p["rec"]) for L in T.values() for row in L for c in row if c]
    beg, full, pad = [], [], []
    for d in range(nd):
        lo, hi = (min(c[d] for c in pts), max(c[d] for c in pts)) if pts else (0, n[d] - 1)
        for side, gap in ((0, lo), (1, n[d] - 1 - hi)):
            how_ = rng.choice(["more", "more", "clip", "none"])
            extra = rng.randint(1, 3) if how_ == "more" else 0
            pad.append({"more": gap, "clip": gap + rng.randint(0, 2), "none": None}[how_])
            if side == 0:
                beg.append(extra)
            else:
                full.append(beg[d] + n[d] + extra)
    size = prod(full)
    inside = {}
    for f in range(prod(n)):
        y, x = f, []
        for d in reversed(range(nd)):
            x.append(y % n[d])
            y //= n[d]
        g = 0
        for d, v in enumerate(x[::-1]):
            g = g * full[d] + v + beg[d]
        inside[g] = f

    def spread(rows, other):
        return [[row[inside[g]] if g in inside else other(row) for g in range(size)] for row in rows]

    def shared(m, rows, other):
        return spread(rows, other) if p["batched"][m] else spread(rows[:1], other) * ns

    e = dict(n=full, beg=beg, pad=pad if how == "pad" else None, origin=beg if how == "origin" else None)
    e["model"] = {m: shared(m, rows, rng.choice) for m, rows in p["model"].items()}
    e["dir"] = [{k: shared(k[1], rows, lambda row: rng.choice([-2, -1, 1, 3])) for k, rows in dd.items()
                 if k[0] == "model"} for dd in p.get("dir", [])]
    if how == "pad" and len(set(pad)) == 1:
        e["pad"] = pad[0]
    p["emb"] = e


def default_nt(p, simple):
    nt = 1
    while nt < 7:
        t = track(p, nt + 1)[-1]
        bits = max(sum(k * b for k, b in zip(d.e, (1, 1.585, 2.322, 2.807))) for d in t.values())
        lim = {1: 30, 2: 26, 4: 13}[p["K"]]
        if bits > lim:
            break
        nt += 1
    return nt


# ---------------------------------------------------------------- execution
ORIG = None  # setup_pml() of the code under test
HOLDERS = []  # where it is referenced


def digest(t):
    """A 30-bit number standing for the exact contents of a tensor."""
    import hashlib

    b = t.detach().contiguous().numpy().tobytes() + str((tuple(t.shape), t.dtype)).encode()
    return int.from_bytes(hashlib.sha256(b).digest()[:4], "big") >> 2


def install_pml(p, calls):
    """Makes setup_pml() return small integers where its profiles are not zero."""
    global ORIG
    from deepwave import common

    if ORIG is None:
        ORIG = getattr(common, "setup_pml", None)
        if ORIG is not None:
            HOLDERS.extend((m, key) for m in list(sys.modules.values())
                           if getattr(m, "__name__", "").startswith("deepwave")
                           for key, val in list(vars(m).items()) if val is ORIG)
    orig = ORIG
    import torch

    for m, key in HOLDERS:
        setattr(m, key, orig)
    if orig is None or not any(p["pml"]):
        return
    sig = inspect.signature(orig)
    if "start" not in sig.parameters:
        return

    def patched(*a, **k):
        res = orig(*a, **k)
        b = sig.bind(*a, **k)
        b.apply_defaults()
        start = float(b.arguments["start"])
        if res[0].shape[0] not in p["size"]:
            return res  # not a grid of this case: it will be seen in what is observed
        d = p["size"].index(res[0].shape[0])
        ta, tb = ("AH", "BH") if start else ("A", "B")
        calls[0] += 1
        new = []
        # zero stays zero: where the profiles vanish is the code's decision
        z = (res[0] == 0) & (res[1] == 0)
        for x, tb_ in zip(res, (p[ta][d], p[tb][d])):
            t = torch.tensor(tb_, dtype=x.dtype)
            new.append(torch.where(z, torch.zeros_like(t), t))
        return tuple(new)

    for m, key in HOLDERS:
        setattr(m, key, patched)


def chain(f, p, margs, grid_spacing, user_dt, kw, names):
    """Propagates in pieces, each started from the wavefields of the one before."""
    import torch

    if not p.get("pieces"):
        out = f(*margs, grid_spacing, user_dt, **kw)
        return list(out)
    out, t, recs = None, 0, []
    amps = {k: v for k, v in kw.items() if k.startswith("source_amplitudes")}
    base = {k: v for k, v in kw.items() if k != "nt"}
    nw = len(names)
    for n in p["pieces"]:
        if n == 0 and out is None and not any(nm in kw for nm in names):
            continue  # nothing to start from
        k2 = dict(base)
        if out is not None:
            k2.update(zip(names, out[:nw]))
        if n == 0 or not amps:
            for k in list(k2):
                if k.startswith("source_"):
                    del k2[k]
            k2["nt"] = n
            if n == 0:
                for k in list(k2):
                    if "receiver_locations" in k:
                        del k2[k]
        else:
            for k, v in amps.items():
                k2[k] = v[..., t:t + n]
        out = list(f(*margs, grid_spacing, user_dt, **k2))
        if n:
            recs.append(out[nw:])
        t += n
    rest = [torch.cat([r[i] for r in recs], -1) if recs[0][i].numel() else recs[0][i] for i in range(len(recs[0]))]
    return out[:nw] + rest


def run_case(req, shrink=0):
    """Runs one case: a list of records, the case itself first."""
    import torch

    import deepwave

    IGN = getattr(deepwave, "IGNORE_LOCATION", -(2**31))
    p = generate(req)
    if shrink:
        p = generate(dict(req, nt=p["nt"] - shrink))
    kind, nd, K, ns, n, nt = p["kind"], p["nd"], p["K"], p["ns"], p["n"], p["nt"]
    torch.set_num_threads(p["threads"])
    ft = dict(dtype=torch.float64)
    calls = [0]
    stag = p["stag"]
    install_pml(p, calls)
    emb = p.get("emb")
    leaf = {}

    def tens(x, shape, rg=False, key=None):
        t = torch.tensor([float(y) for y in x], **ft).reshape(shape)
        if rg:
            t.requires_grad_()
            leaf[key] = t
        return t

    diff = set(p.get("diff", ()))
    flat = lambda rows: [y for row in rows for y in row]
    margs = []
    for m in MODELS[kind]:
        b = p["batched"][m]
        rows = emb["model"][m] if emb else p["model"][m]
        key = ("model", m)
        margs.append(tens(flat(rows) if b else rows[0], ([ns] if b else []) + (emb["n"] if emb else n),
                          key in diff, key))
    off = emb["beg"] if emb else [0] * nd

    def loc_tensor(L):
        return torch.tensor([[[x + o for x, o in zip(c, off)] if c else [IGN] * nd for c in row] for row in L],
                            dtype=torch.long).reshape(len(L), -1, nd)

    sp = [float(1 / x) for x in p["rdx"]]
    kw = {}
    grid_spacing = sp[0] if len(set(sp)) == 1 and req["seed"] % 2 == 0 else sp
    for ty, L in p["src"].items():
        if not L:
            continue
        key = ("amp", ty)
        a = tens(flat(flat(p["amp"][ty])), [ns, len(L[0]), nt], key in diff, key)
        sfx = "" if kind in ("scalar", "born") else "_" + ty
        kw["source_amplitudes" + sfx] = a
        kw["source_locations" + sfx] = loc_tensor(L)
    for ty, L in p["rec"].items():
        nm = {"scalar": "receiver_locations", "born": {"p": "bg_receiver_locations", "sc": "receiver_locations"}.get(ty)
              }.get(kind, "receiver_locations_" + ty)
        kw[nm] = loc_tensor(L)
    for nm, rows in p["init"].items():
        key = ("init", nm)
        kw[nm] = tens(flat(rows), [ns] + p["trim"], key in diff, key)
    if not any(p["src"].values()):
        kw["nt"] = nt
    if emb:
        if emb["pad"] is not None:
            kw["survey_pad"] = emb["pad"]
        if emb["origin"] is not None:
            kw["origin"] = emb["origin"]
    r = p["r"]
    rt2 = sum(float(x) ** 2 for x in p["rdx"]) ** 0.5
    # the maximum velocity that makes the internal step dt / r
    kw["max_vel"] = 0.6 / rt2 / abs(float(p["dt"])) * (r - 0.5 if r > 1 else 0.4)
    user_dt = float(p["dt"])
    kw["accuracy"] = p["acc"]
    kw["pml_width"] = p["pml"] if len(set(p["pml"])) > 1 or req["seed"] % 2 else p["pml"][0]
    kw["pml_freq"] = 0.05
    if p["python_backend"]:
        kw["python_backend"] = p["python_backend"]
    store = {}
    if p["storage_mode"] != "device":
        store["storage_mode"] = p["storage_mode"]
        if p["storage_mode"] == "disk":
            store["storage_path"] = os.environ["WAVE_TMP"]
    if p["mgsi"] > 1:
        kw["model_gradient_sampling_interval"] = p["mgsi"]
    nt_int = nt * r
    pint = dict(p, dt=p["dt"] / r)
    tr = track(pint, nt_int)
    proj = Projector()
    obs, bobs = [], []
    names = names_in_order(kind, nd)
    pnames = prepared_names(kind, nd)
    cb_events = dict(f=[], b=[])
    vobs = []
    reject = []

    def look(state, what, names_, t):
        """Everything a callback exposes, in every view."""
        get = {"wavefield": state.get_wavefield, "model": state.get_model, "gradient": state.get_gradient}[what]
        for nm in names_:
            e = dict(what=what, name=nm, t=t)
            for view in ("full", "pml", "inner"):
                try:
                    e[view] = get(nm, view).detach().clone()
                except Exception as x:
                    e["error"] = f"{type(x).__name__}: {x}"
            if "error" not in e and not torch.equal(get(nm), e["inner"]):
                e["error"] = "default view is not inner"
            vobs.append(e)
        for bad in (("no_such_name", "full"), (names_[0] if names_ else "v", "outer")):
            try:
                get(*bad)
                reject.append(f"{what} {bad} accepted")
            except Exception:
                pass

    if r == 1 or req.get("views") or req.get("sched"):
        def cb(state):
            cb_events["f"].append(int(state.step))
            if req.get("views"):
                look(state, "wavefield", names, int(state.step))
                look(state, "model", pnames, int(state.step))
            rec = {}
            for nm in names:
                try:
                    rec[nm] = state.get_wavefield(nm, "full").detach().clone()
                except Exception:
                    pass
            obs.append((int(state.step) * r * p["mgsi"], rec))

        if (K == 1 or req.get("sched")) and not p.get("pieces") and not req.get("vmap"):
            kw["forward_callback"] = cb
            kw["callback_frequency"] = p["cf"]

    rgp = set()
    if K >= 2 and req.get("bcb"):
        def bcb(state):
            s = int(state.step)
            cb_events["b"].append(s)
            rec = dict(t=s, wf={}, g={})
            for nm in names:
                try:
                    rec["wf"][nm] = state.get_wavefield(nm, "full").detach().clone()
                except Exception:
                    pass
            for nm in pnames:
                try:
                    x = state.get_gradient(nm, "full")
                    if x.numel():
                        rec["g"][nm] = x.detach().clone()
                except Exception:
                    pass
            if req.get("views"):
                look(state, "gradient", list(rec["g"]), s)
                look(state, "wavefield", list(rec["wf"]), s)
                look(state, "model", pnames, s)
            bobs.append(rec)

        kw["backward_callback"] = bcb
        kw["callback_frequency"] = p["cf"]
    fun = {"scalar": deepwave.scalar, "born": deepwave.scalar_born, "acoustic": deepwave.acoustic,
           "elastic": deepwave.elastic}[kind]
    warnings.simplefilter("ignore")
    err = None
    if req.get("wrapper"):
        cls = {"scalar": deepwave.Scalar, "born": deepwave.ScalarBorn, "acoustic": deepwave.Acoustic,
               "elastic": deepwave.Elastic}[kind]
        flags = {m + "_requires_grad": ("model", m) in diff for m in MODELS[kind]}
        if not any(flags.values()) and req["seed"] % 2:
            flags = {}
        prop = cls(*[x.detach() for x in margs], grid_spacing, **flags, **store)
        pars = dict(prop.named_parameters())
        for m in MODELS[kind]:
            if pars[m].requires_grad != (("model", m) in diff):
                err = f"requires_grad of {m} is {pars[m].requires_grad}"
            if ("model", m) in diff and pars[m].requires_grad:
                leaf["model", m] = pars[m]
        fun = lambda *a, **k: prop(*a[len(margs) + 1:], **k)
    else:
        kw.update(store)
    if req.get("checkpoint"):
        from torch.utils.checkpoint import checkpoint as ckpt
        inner = fun

        def fun(*a, **k):
            return ckpt(inner, *a, use_reentrant=False, **k)
    args_in = {f"model {m}": x for m, x in zip(MODELS[kind], margs)}
    args_in.update({k: v for k, v in kw.items() if isinstance(v, torch.Tensor)})
    before = {k: digest(v) for k, v in args_in.items()}
    twice = []
    STAGE[0] = "outputs"  # from here on, what goes wrong is what the code does
    if req.get("repeat"):
        twice.append([digest(x) for x in chain(fun, p, margs, grid_spacing, user_dt, kw, names)])
        obs.clear()
        cb_events["f"].clear()
        # something else in between
        other = [torch.rand(9, 8, **ft) + 1.0 for _ in MODELS[kind]]
        f2 = {"scalar": deepwave.scalar, "born": deepwave.scalar_born, "acoustic": deepwave.acoustic,
              "elastic": deepwave.elastic}[kind]
        keep = [getattr(m, key) for m, key in HOLDERS]
        for m, key in HOLDERS:
            setattr(m, key, ORIG)
        f2(*other, 1.0, 0.01, nt=3, pml_width=2, pml_freq=1.0,
           **{"vy_0" if stag else "wavefield_0": torch.rand(1, 13, 12, **ft)})
        for (m, key), x in zip(HOLDERS, keep):
            setattr(m, key, x)
    tout = None
    if req.get("jvp") or req.get("vmap") or req.get("vjp"):
        keys = list(leaf)
        prim = [leaf[k].detach() for k in keys]

        def pure(*xs):
            sub = {id(leaf[k]): x for k, x in zip(keys, xs)}
            return tuple(chain(fun, p, [sub.get(id(x), x.detach()) for x in margs], grid_spacing, user_dt,
                               {k: sub.get(id(x), x) for k, x in kw.items()}, names))
        if req.get("jvp"):
            tan = [dir_tensor(torch, p, k, p["dir"][0][k], leaf[k].shape, 0) for k in keys]
            if req.get("vmap"):
                out = pure(*prim)
                both = torch.func.vmap(lambda *tt: torch.func.jvp(pure, tuple(prim), tt)[1])(
                    *[torch.stack([x, 3 * x]) for x in tan])
                tout = [x[0] for x in both]
                twice += pair([3 * x[0] for x in both], [x[1] for x in both])
            else:
                out, tout = torch.func.jvp(pure, tuple(prim), tuple(tan))
        elif req.get("vjp"):
            out, pullback = torch.func.vjp(pure, *prim)
            out = [x.detach().requires_grad_() for x in out]
        else:
            prim = [x.detach() for x in margs]
            pure = lambda *xs: tuple(chain(fun, p, list(xs), grid_spacing, user_dt, kw, names))
            oth = [2 * x for x in prim]
            both = torch.func.vmap(pure)(*[torch.stack([x, y]) for x, y in zip(prim, oth)])
            out = [x[0] for x in both]
            twice += pair(pure(*oth), [x[1] for x in both])
        out = list(out)
    else:
        out = chain(fun, p, margs, grid_spacing, user_dt, kw, names)
    if req.get("repeat"):
        twice.append([digest(x) for x in out])
    if any(p["pml"]) and ORIG is not None and calls[0] == 0:
        raise LookupError("setup_pml not used")
    nw = len(names)
    wf = dict(zip(names, out[:nw]))
    full = [ns] + [n_ + p["pml"][2 * d] + p["pml"][2 * d + 1] for d, n_ in enumerate(n)]
    bad = {m: list(x.shape) for m, x in wf.items() if list(x.shape) != full}
    if bad:
        raise RuntimeError(f"final wavefields have the wrong shape: {bad}, not {full}")
    rest = list(out[nw:])
    order = {"scalar": ["p"], "born": ["p", "sc"]}.get(kind) or ["p"] + list(DIMS[3 - nd:])
    rout = dict(zip(order, rest))

    case = dict(id=p["id"], kind=kind, error="", nd=nd, ns=ns, n=n, pml=p["pml"], acc=p["acc"], stag=stag,
                rdx=[rat(x) for x in p["rdx"]], dt=rat(pint["dt"]), A=[[x % P for x in y] for y in p["A"]],
                B=[[x % P for x in y] for y in p["B"]], AH=[[x % P for x in y] for y in p["AH"]],
                BH=[[x % P for x in y] for y in p["BH"]], nt=nt_int, q=1 if req.get("jvp") or req.get("vjp") else p["mgsi"] * r, start=-1)

    def ring(x, what, nm, idx, q=1):
        base = rat(x)
        if K == 1:
            return base
        ds = []
        for dd in p["dir"]:
            e = dd.get((what, nm))
            if e is not None:
                for i in idx:
                    e = e[i]
            ds.append(0 if e is None else e * q % P)
        return [base, *ds] + ([0] if K == 4 else [])

    def models(q):
        return {m: [[ring(x, "model", m, (s, i), q) for i, x in enumerate(row)]
                    for s, row in enumerate(p["model"][m])] for m in MODELS[kind]}

    case["model"] = models(1)
    case["model_on"] = models(case["q"]) if case["q"] > 1 else {}
    case["model_off"] = models(0) if case["q"] > 1 or req.get("bcb") else {}
    case["init"] = {nm: [[ring(x, "init", nm, (s, i)) for i, x in enumerate(row)]
                         for s, row in enumerate(rows)] for nm, rows in p["init"].items()}
    case["src"] = {ty: p["src"].get(ty, []) for ty in src_types(kind, nd)}
    case["amp"] = {ty: [[[ring(x, "amp", ty, (s, k, t)) for t, x in enumerate(a)] for k, a in enumerate(row)]
                        for s, row in enumerate(p["amp"].get(ty, []))] for ty in src_types(kind, nd)}
    case["rec"] = p["rec"]
    case["robs"] = {}
    case["nrec"] = sum(len(L) * len(L[0]) for L in p["rec"].values())
    case["emb"] = []
    if emb:
        shift = lambda T: {t: [[[x + o for x, o in zip(c, off)] for c in row] for row in L] for t, L in T.items()}
        pad = emb["pad"]
        if pad is not None and not isinstance(pad, list):
            pad = [pad] * (2 * nd)
        case["emb"] = [dict(n=emb["n"], origin=emb["origin"] or [], pad=[-1 if x is None else x for x in pad or []],
                            shape=p["trim"] if emb["origin"] is not None else [],
                            src=shift(case["src"]), rec=shift(p["rec"]),
                            model={m: [[rat(x) for x in row] for row in rows] for m, rows in emb["model"].items()})]
    for ty, L in p["rec"].items():
        o = rout[ty].detach()
        if list(o.shape) != [ns, len(L[0]), nt]:
            err = f"receiver {ty} shape {list(o.shape)}"
            break
        res = []
        cls = {"scalar": {"p": "w"}, "born": {"p": "w", "sc": "w_sc"}, "acoustic": {"p": "p"},
               "elastic": {"p": "s"}}[kind].get(ty, "v")
        extra = den_of(Fraction(1, nd)) if kind == "elastic" and ty == "p" else ONE
        for s in range(ns):
            row = []
            for k in range(len(L[0])):
                x = o[s, k].tolist()
                row.append([proj([x[t]], tr[t][cls] * extra)[0] for t in range(nt)])
            res.append(row)
        case["robs"][ty] = res
    case["obs"] = []
    for t, rec in obs:
        e = tr[t] if 0 <= t <= nt_int else tr[-1]
        case["obs"].append(dict(t=t, f={nm: proj(x.flatten().tolist(), e[field_class(kind, nm)])
                                        for nm, x in rec.items()}))
    case["fin"] = {}
    for nm, x in wf.items():
        case["fin"][nm] = dict(shape=list(x.shape),
                               v=proj(x.detach().flatten().tolist(), tr[nt_int][field_class(kind, nm)]))
    case["tang"] = []
    if tout is not None:
        D = ONE
        for e in tr[nt_int].values():
            D = D | e
        if kind == "elastic":
            D = D * den_of(Fraction(1, nd))
        extra = {"acoustic": Den(2, 1), "elastic": Den(3, 1, 1)}.get(kind)
        if extra is not None:
            D = D * (Den(2) if p["simple"] else extra)
        trout = dict(zip(order, tout[nw:]))
        case["tang"].append(dict(
            robs={ty: [[proj(trout[ty].detach()[s, k].tolist(), D) for k in range(len(L[0]))] for s in range(ns)]
                  for ty, L in p["rec"].items()},
            fin={nm: proj(x.detach().flatten().tolist(), D) for nm, x in zip(names, tout[:nw])}))
    if err:
        case["error"] = err
    subs = []
    if K >= 2:
        case["wrec"] = {t: [[[x % P for x in a] for a in row] for row in L] for t, L in p["wrec"].items()}
        case["wfin"] = {m: [x % P for x in v] for m, v in p["wfin"].items()}
        case["urec"] = {t: [[[x % P for x in a] for a in row] for row in L] for t, L in p["urec"].items()}
        case["ufin"] = {m: [x % P for x in v] for m, v in p["ufin"].items()}
        loss = 0
        for t in p["rec"]:
            w = torch.tensor(p["wrec"][t], **ft)
            loss = loss + (w * rout[t]).sum()
            if K == 4:
                loss = loss + (torch.tensor(p["urec"][t], **ft) * rout[t] ** 2).sum()
        for m in names:
            w = torch.tensor(p["wfin"][m], **ft).reshape(wf[m].shape)
            if bool((w != 0).any()):
                loss = loss + (w * wf[m]).sum()
            if K == 4:
                u = torch.tensor(p["ufin"][m], **ft).reshape(wf[m].shape)
                if bool((u != 0).any()):
                    loss = loss + (u * wf[m] ** 2).sum()
        D = ONE
        for e in tr[nt_int].values():
            D = D | e
        if kind == "elastic":
            D = D * den_of(Fraction(1, nd))
        extra = {"acoustic": {"rho": Den(2, 1)}, "elastic": {"mu": Den(3, 1, 1), "buoyancy": Den(2, 1)}}.get(kind, {})
        if p["simple"]:
            extra = {k: Den(2) for k in extra}
        keys = list(leaf)
        if "threads_back" in req:
            torch.set_num_threads(req["threads_back"])
        rounds = []
        for rnd in range(2 if req.get("retain") else 1):
            opt = dict(allow_unused=True, retain_graph=True if req.get("retain") and rnd == 0 else None)
            if not loss.requires_grad:
                gs = [None] * len(keys)
            elif req.get("vjp"):
                cot = torch.autograd.grad(loss, out, allow_unused=True)
                cot = tuple(torch.zeros_like(x) if c is None else c for x, c in zip(out, cot))
                if req.get("vmap"):
                    both = torch.func.vmap(pullback)(tuple(torch.stack([c, 3 * c]) for c in cot))
                    gs = [x[0] for x in both]
                    twice += pair([3 * x[0] for x in both], [x[1] for x in both])
                else:
                    gs = pullback(cot)
            elif K == 2:
                gs = torch.autograd.grad(loss, [leaf[k] for k in keys], **opt)
            else:
                g1 = torch.autograd.grad(loss, [leaf[k] for k in keys], create_graph=True, allow_unused=True)
                hsum = 0
                for k, g in zip(keys, g1):
                    if g is None:
                        continue
                    d1 = p["dir"][0][k]
                    hsum = hsum + (g * dir_tensor(torch, p, k, d1, leaf[k].shape, 0)).sum()
                if isinstance(hsum, int) or not hsum.requires_grad:
                    gs = [None] * len(keys)
                else:
                    gs = torch.autograd.grad(hsum, [leaf[k] for k in keys], **opt)
            rounds.append(gs)
        if K == 4:
            D = D * D
        dirs = p["dir"][-1]
        lists = []
        if req.get("jvp"):
            rounds = [[]]
        for gs in rounds:
            cur = []
            for k, g in zip(keys, gs):
                if g is None:
                    continue
                dd = D * extra.get(k[1], ONE) if k[0] == "model" else D
                dv = dir_tensor(torch, p, k, dirs[k], leaf[k].shape, -1).flatten().tolist()
                if g.shape != leaf[k].shape:
                    case["error"] = f"gradient of {k} has shape {list(g.shape)}"
                    continue
                cur.append(dict(name="/".join(k), g=proj(g.flatten().tolist(), dd), d=[int(x) % P for x in dv]))
            lists.append(cur)
        case["grads"] = lists[0]
        case["again"] = lists[1:]
        for rec in bobs:
            s = rec["t"]
            if not 0 <= s < nt:
                continue  # the schedule is checked too
            subs.append(dict(start=s * r * p["mgsi"], pdir={nm: [x % P for x in v] for nm, v in p["pdir"][s].items()},
                             cbw={nm: proj(x.flatten().tolist(), D) for nm, x in rec["wf"].items()},
                             cbg={nm: proj(x.flatten().tolist(), D * (Den(1) if kind != "elastic" else Den(3, 1, 1)))
                                  for nm, x in rec["g"].items()}))
    # Too many digits for double precision: fewer steps, then other numbers.
    if proj.big and nt > 1 and shrink < 8:
        return run_case(req, shrink + 1)
    if proj.big and req.get("salt", 0) < 8:
        return run_case(dict(req, salt=req.get("salt", 0) + 1))
    case["views"] = []
    for e in vobs:
        x = dict(what=e["what"], name=e["name"], t=e["t"], error=e.get("error", ""))
        for view in ("full", "pml", "inner"):
            if view in e:
                den = {"wavefield": lambda: tr[min(e["t"], nt_int)][field_class(kind, e["name"])],
                       "model": lambda: model_den(p, e["name"]),
                       "gradient": lambda: D}[e["what"]]()
                if K > 1 and e["what"] != "model":  # adjoint fields, only compared with each other
                    den = D
                x[view] = dict(shape=list(e[view].shape), v=proj(e[view].flatten().tolist(), den))
        case["views"].append(x)
    case["rejects"] = reject
    case["sched"] = [dict(cf=p["cf"], f=cb_events["f"], b=cb_events["b"], n=-(-nt // p["mgsi"]),
                          hasf="forward_callback" in kw, hasb="backward_callback" in kw and bool(K > 1 and loss.requires_grad))] \
        if req.get("sched") else []
    case["twice"] = twice
    case["mutated"] = [k for k, v in args_in.items() if digest(v) != before[k]] if req.get("mut") else []
    case["big"], case["unrep"], case["values"] = proj.big, proj.unrep, proj.n
    if not case["error"] and any(p["pml"]) and not calls[0] and ORIG is not None and p["has_pml"]:
        case["error"] = "LookupError: setup_pml not used"
    res = [case]
    light = dict(case, obs=[], views=[], sched=[], twice=[], rejects=[], mutated=[], again=[], grads=[])
    for s in subs:
        x = dict(light, **s)
        x["id"] = f"{case['id']}@{s['start']}"
        x["amp"] = {ty: [[[[a[0], 0] for a in q] for q in row] for row in L] for ty, L in case["amp"].items()}
        x["init"] = {nm: [[[v[0], 0] for v in row] for row in rows] for nm, rows in case["init"].items()}
        res.append(x)
    return res


STAGE = ["inputs"]


def pair(a, b):
    """Digests of two lists of tensors that may differ by rounding."""
    same = lambda x, y: x.shape == y.shape and bool(((x - y).abs() <= 1e-9 * (y.abs().sum() + 1e-3)).all())
    return [[digest(x) for x in a], [digest(x if same(x, y) else y) for x, y in zip(a, b)]]


def dir_tensor(torch, p, key, d, shape, which):
    what, nm = key
    if what == "model":
        if p.get("emb"):
            d = p["emb"]["dir"][which][key]
        d = d if p["batched"][nm] else d[:1]
    fl = []

    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        else:
            fl.append(float(x))

    go(d)
    return torch.tensor(fl, dtype=torch.float64).reshape(shape)


def child(req, path):
    STAGE[0] = "inputs"
    try:
        cases = run_case(req)
    except BaseException as e:  # whatever the code under test does is an observation
        if isinstance(e, MemoryError):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1]
        own = os.path.dirname(os.path.abspath(__file__))
        case = dict(id=req["id"], kind=req["kind"],
                    error=f"{type(e).__name__}: {e}"[:300], where=f"{where.filename}:{where.lineno}",
                    machinery=os.path.abspath(where.filename).startswith(own) and not isinstance(e, LookupError)
                    and STAGE[0] == "inputs")
        case["trace"] = traceback.format_exc()[-3000:]
        cases = [case]
    with open(path, "w") as f:
        json.dump(cases, f)


def run_all(reqs, tmp, jobs=8, limit=120):
    import torch  # noqa: F401  imported once, then forked

    import deepwave  # noqa: F401

    pending = list(enumerate(reqs))
    running = {}
    out = [None] * len(reqs)
    until = float(os.environ.get("DRIVER_UNTIL", "inf"))
    while pending or running:
        late = time.time() > until
        while late and pending:
            i, req = pending.pop(0)
            out[i] = [dict(id=req["id"], kind=req["kind"], error="not run: out of time", machinery=True)]
        while pending and len(running) < jobs:
            i, req = pending.pop(0)
            path = os.path.join(tmp, f"case{i}.json")
            pid = os.fork()
            if pid == 0:
                try:
                    child(req, path)
                    sys.stdout.flush()
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            running[pid] = (i, req, path, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for q, (i, req, path, t0) in list(running.items()):
                if late or time.time() - t0 > limit:
                    os.kill(q, signal.SIGKILL)
                    os.waitpid(q, 0)
                    del running[q]
                    out[i] = [dict(id=req["id"], kind=req["kind"], error="timeout: no answer", machinery=time.time() - t0 <= limit)]
            time.sleep(0.005)
            continue
        if pid not in running:
            continue
        i, req, path, _ = running.pop(pid)
        try:
            with open(path) as f:
                out[i] = json.load(f)
            os.unlink(path)
        except (OSError, ValueError):
            out[i] = [dict(id=req["id"], kind=req["kind"], error=f"process died (status {st})",
                           machinery=os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3)]
    return [c for cs in out for c in cs]


def main():
    reqs = json.load(open(sys.argv[1]))
    tmp = os.path.dirname(os.path.abspath(sys.argv[2]))
    os.environ.setdefault("WAVE_TMP", tmp)
    res = run_all(reqs, tmp)
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
