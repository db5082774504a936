"""Makes the calls that Equiv.tla describes and compares what they return with
what the plain way of asking for the same experiment returns.

usage: equiv_driver.py REQUESTS.json OUT.json     (PYTHONPATH = code under test)

A request is one experiment with the calls of a walk.  The result of a call is
brought into the experiment's own order, axes and scale; recorded is how far it
is from the reference, relative to the largest magnitude, in units of 1e-10.
"""

import copy
import json
import os
import pickle
import shutil
import sys
import tempfile
import threading
import time
import traceback
import warnings

import wave_driver as w

FORCE = 3e6   # what makes forces matter as much as pressure sources
FAR = 2 * 10**9


class Experiment:
    """Everything that does not depend on how one asks for it."""

    def __init__(self, torch, b):
        self.torch, self.b = torch, b
        g = torch.Generator().manual_seed(b["seed"])
        f8 = torch.float64
        rand = lambda *s: torch.rand(*s, generator=g, dtype=f8)
        randn = lambda *s: torch.randn(*s, generator=g, dtype=f8)
        kind, nd, ns, n, nt = b["kind"], b["nd"], b["ns"], b["n"], b["nt"]
        self.kind, self.nd, self.ns, self.nt = kind, nd, ns, nt
        self.letters = list(w.DIMS[3 - nd:])
        self.stag = kind in ("acoustic", "elastic")
        pml = b["pml"]
        self.trim = [n[d] + pml[2 * d] + pml[2 * d + 1] for d in range(nd)]
        self.dx = [5.0] * nd if b["even"] else [4.0, 5.0, 6.0][:nd]
        top = 0.6 / sum(x**-2 for x in self.dx) ** 0.5 / 2000
        self.dt = top * (b["r"] - 0.5) * (-1 if b["back"] else 1)
        self.models = {}
        for m in w.MODELS[kind]:
            s = ([ns] if m in b["own"] else []) + n
            self.models[m] = {"v": lambda: 1500 * (1 + 0.2 * rand(*s)), "scatter": lambda: 100 * randn(*s),
                              "rho": lambda: 2000 * (1 + 0.3 * rand(*s)), "buoyancy": lambda: (1 + 0.3 * rand(*s)) / 2600,
                              "lamb": lambda: 2.5e9 * (1 + 0.3 * rand(*s)), "mu": lambda: 1e9 * (1 + 0.3 * rand(*s))}[m]()
        self.amps, self.srcs, self.recs = {}, {}, {}
        for t in w.src_types(kind, nd):
            if b["src"][t]:
                self.amps[t] = randn(ns, b["src"][t], nt) * (FORCE if t in self.letters else 1)
                self.srcs[t] = self.places(g, b["src"][t])
        for t in w.rec_types(kind, nd):
            if b["rec"][t]:
                self.recs[t] = self.places(g, b["rec"][t])
        self.names = w.names_in_order(kind, nd)
        self.init = {}
        p = dict(kind=kind, nd=nd, trim=self.trim, pml=pml)
        # the cells of a field that take part in the propagation
        mask = {nm: torch.tensor(w.strip_mask(p, nm), dtype=f8).reshape(self.trim) for nm in self.names}
        if b["init"]:
            for nm in self.names:
                x = randn(ns, *self.trim) * mask[nm] * self.unit(nm)
                if float(rand(1)) < 0.7:
                    self.init[nm] = x
            if not self.init:
                self.init[nm] = x
        self.margin = [2, 1, 3, 1, 0, 2][:2 * nd]         # of a larger model around
        self.around = {m: x.mean() * (0.5 + rand(*(x.shape[:x.ndim - nd]), *[n[d] + self.margin[2 * d] + self.margin[2 * d + 1] for d in range(nd)]))
                       for m, x in self.models.items()}
        self.wrec = {t: (randn(ns, b["rec"][t], nt), 0.1 * randn(ns, b["rec"][t], nt)) for t in self.recs}
        self.wfin = {nm: randn(ns, *self.trim) * mask[nm] for nm in self.names}

    def unit(self, name):
        if not self.stag or name[0] in "ps" or name.startswith("m_s"):
            return 1.0
        return 1.0 if name in ("p", "sc") else 1 / FORCE

    def places(self, g, count):
        n = [z - 1 if self.stag else z for z in self.b["n"]]
        out = []
        for _ in range(self.ns):
            idx = self.torch.randperm(w.prod(n), generator=g)[:count].tolist()
            pts = []
            for f in idx:
                x = []
                for d in reversed(range(self.nd)):
                    x.append(f % n[d])
                    f //= n[d]
                pts.append(x[::-1])
            out.append(pts)
        return out


class Ask:
    """One way of asking."""

    def __init__(self, torch, deepwave, e, c, path):
        self.torch, self.dw, self.e, self.c, self.path = torch, deepwave, e, c, path
        self.ax = [a - 1 for a in c["axes"]]          # call axis -> experiment axis
        self.prec = {"double": torch.float64, "float": torch.float32}[c["prec"]]
        self.ign = getattr(deepwave, "IGNORE_LOCATION", -(2**31))
        self.scale = 2.0 ** c["scale"]
        self.grown = self.scale * (4 if self.waves() else 1)
        self.answered = False
        self.bridges, self.extra = [], []
        # margins around the region, in the axes of the call
        self.beg = [0] * e.nd
        if c["region"] in ("within", "around"):
            self.beg = [e.margin[2 * a + (1 if c["mirror"][a] else 0)] for a in self.ax]

    # -------------------------------------------------- names
    def letter(self, x):
        return self.e.letters[self.ax.index(self.e.letters.index(x))] if x in self.e.letters else x

    def name(self, nm):
        e = self.e
        if e.kind in ("scalar", "born"):
            if nm.startswith(("psi", "zeta")):
                k = 3 if nm[0] == "p" else 4
                return nm[:k] + self.letter(nm[k]) + nm[k + 1:]
            return nm
        if e.kind == "acoustic":
            if nm[0] == "v":
                return "v" + self.letter(nm[1]) + nm[2:]
            return nm[:4] + self.letter(nm[4]) + nm[5:] if nm.startswith(("phi", "psi")) else nm
        for head in ("m_sigma", "m_v", "sigma", "v"):
            if nm.startswith(head):
                q = [self.letter(x) for x in nm[len(head):-2]]
                for z in (q, [q[1], q[0], *q[2:]] if len(q) > 1 else q):
                    if head + "".join(z) + "_0" in e.names:
                        return head + "".join(z) + "_0"
        raise AssertionError(nm)

    def mass(self, nm):
        """How much larger a model or field is in the call's unit of mass."""
        z = 2.0 ** self.c["mass"]
        if nm == "buoyancy":
            return 1 / z
        return z if nm in ("rho", "lamb", "mu", "p") and self.e.stag or nm.startswith(("pressure", "sigma", "m_sigma")) or nm.startswith("psi") and self.e.stag else 1.0

    def sign(self, nm):
        if nm.startswith("psi") and not self.e.stag and self.c["mirror"][self.e.letters.index(nm[3])]:
            return -1.0
        return 1.0

    # -------------------------------------------------- arrays
    def there(self, x, lead):
        """Cells of the experiment -> cells of the call."""
        flip = [lead + d for d in range(self.e.nd) if self.c["mirror"][d]]
        x = x.flip(flip) if flip else x
        return x.permute(*range(lead), *[lead + a for a in self.ax]) if lead + self.e.nd > 1 else x

    def back(self, x, lead):
        x = x.permute(*range(lead), *[lead + self.ax.index(d) for d in range(self.e.nd)])
        flip = [lead + d for d in range(self.e.nd) if self.c["mirror"][d]]
        return x.flip(flip) if flip else x

    def lay(self, x):
        torch = self.torch
        if self.c["layout"] == "plain":
            return x.contiguous()
        if self.c["layout"] == "strided":
            return torch.stack([x, x + 1], -1)[..., 0]
        y = torch.cat([x[:1] * 0 + 7, x, x[:1] * 0 - 7], 0)
        return y[1:-1]

    def locs(self, pts):
        torch = self.torch
        t = torch.tensor(pts, dtype=torch.int32 if self.c["locs"] == "int32" else torch.int64)
        if self.c["locs"] == "strided":
            t = torch.stack([t, t - 3], 0).transpose(0, -1)[..., 0].movedim(0, -1) if t.ndim == 3 else t
        return t

    def place(self, x):
        n = self.e.b["n"]
        return [(n[a] - 1 - x[a] if self.c["mirror"][a] else x[a]) + o for a, o in zip(self.ax, self.beg)]

    # -------------------------------------------------- the call
    def run(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return self.around()

    def around(self):
        """The call in what else is going on."""
        torch, how = self.torch, self.c["ambient"]
        if how == "no_grad":
            with torch.no_grad():
                return self.run1()
        if how == "inference":
            with torch.inference_mode():
                return {k: x.clone() for k, x in self.run1().items()}
        if how == "packed":      # saved tensors are stored elsewhere
            with torch.autograd.graph.saved_tensors_hooks(lambda x: (x.detach().clone(), x.requires_grad), lambda p: p[0].requires_grad_(p[1])):
                return self.run1()
        if how == "double":
            old = torch.get_default_dtype()
            try:
                torch.set_default_dtype(torch.float64)
                return self.run1()
            finally:
                torch.set_default_dtype(old)
        if how == "deterministic":
            try:
                torch.use_deterministic_algorithms(True)
                return self.run1()
            finally:
                torch.use_deterministic_algorithms(False)
        if how == "plain":
            return self.run1()
        # other calls at the same time, the last of them of an experiment with other values
        asks = [self]
        if how == "crowd":
            asks += [Ask(torch, self.dw, self.e, self.c, self.path) for _ in range(2)]
            asks.append(Ask(torch, self.dw, Experiment(torch, dict(self.e.b, seed=self.e.b["seed"] + 1)), self.c, self.path))
        got = [None] * len(asks)

        def one(i):
            try:
                got[i] = asks[i].run1()
            except BaseException as ex:
                got[i] = ex
        ts = [threading.Thread(target=one, args=(i,)) for i in range(len(asks))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.answered = any(a.answered for a in asks[:3])
        for g in got:
            if isinstance(g, BaseException):
                raise g
        res = got[0]
        for j, g in enumerate(got[1:3]):
            for k, x in g.items():
                if k not in res or x.shape != res[k].shape or not bool((x == res[k]).all()):
                    res[k] = x      # one that is different is looked at
        return res

    def run1(self):
        torch, e, c, b = self.torch, self.e, self.c, self.e.b
        torch.set_num_threads(c["threads"])
        leaf = {}

        def leaves(what, d, key):
            out = {}
            for nm, x in d.items():
                x = x.to(self.prec)
                if key in c["noted"]:
                    x = x.clone().requires_grad_()
                    leaf[f"{what}/{nm}"] = x
                out[nm] = x
            return out

        models, amps = leaves("model", e.models, "models"), leaves("amp", e.amps, "amp")
        init = leaves("init", e.init, "init")
        res = {}
        cbs = {}
        parts = {}
        for group in c["groups"]:
            ids = [s - 1 for s in group]
            for key, val in self.group(ids, models, amps, init, cbs).items():
                parts.setdefault(key, []).append((ids, val))
        for key, ps in parts.items():
            flat = [s for ids, _ in ps for s in ids]
            order = torch.tensor([flat.index(s) for s in range(e.ns)])
            if len({tuple(x.shape[1:]) for _, x in ps}) > 1:
                res[key] = ps[0][1]  # of unequal shapes: not what is expected
                continue
            res[key] = torch.cat([x for _, x in ps], 0)[order]
        if leaf:
            loss = 0
            for t, (u, q) in e.wrec.items():
                x = res["rec/" + t].double() / e.unit("v" if t in e.letters else t)
                loss = loss + (u * x + q * x * x).sum()
            for nm, u in e.wfin.items():
                loss = loss + (u * res["fin/" + nm].double() / e.unit(nm)).sum()
            pars = [p for p, _ in self.bridges]
            gs = torch.autograd.grad(loss, list(leaf.values()) + pars, allow_unused=True, retain_graph=bool(pars))
            gs, ps = list(gs[:len(leaf)]), gs[len(leaf):]
            for (p, x), g in zip(self.bridges, ps):     # from the parameters of modules to what they were made from
                if g is not None and x.requires_grad:
                    more = torch.autograd.grad(x, list(leaf.values()), g, allow_unused=True, retain_graph=True)
                    gs = [a if b is None else b if a is None else a + b for a, b in zip(gs, more)]
            for nm, x, g in zip(leaf, leaf.values(), gs):
                res["grad/" + nm] = torch.zeros_like(x) if g is None else g
                if self.writes() and nm.startswith("model/"):
                    res["grad/" + nm] = res["grad/" + nm] / 4
                if self.waves() and nm.startswith("init/"):
                    res["grad/" + nm] = res["grad/" + nm] * 4
        for key, ps in cbs.items():
            flat = [s for ids, _ in ps for s in ids]
            res[key] = torch.cat([x for _, x in ps], 0)[torch.tensor([flat.index(s) for s in range(e.ns)])]
        return {k: x.detach().double() for k, x in res.items()}

    def writes(self):
        return self.c["writes"] in ("full", "pml") and self.c["back"] == "c" and "models" in self.c["noted"]

    def waves(self):
        return self.c["writes"] in ("waves", "wavespml") and self.c["back"] == "c"

    def group(self, ids, models, amps, init, cbs):
        torch, e, c, b = self.torch, self.e, self.c, self.e.b
        nd, g = e.nd, len(ids)
        pick = torch.tensor(ids)
        margs = []
        for m in w.MODELS[e.kind]:
            x, form = models[m], c["form"][m]
            if c["region"] in ("within", "around"):
                big = e.around[m].to(self.prec).clone()
                big[tuple([slice(None)] * (x.ndim - nd) + [slice(e.margin[2 * d], e.margin[2 * d] + b["n"][d]) for d in range(nd)])] = x
                x = big
            x = x * self.mass(m)
            if form == "own":
                x = self.there(x[pick], 1)
            else:
                x = self.there(x, 0)
                if form != "one":
                    x = x[None]
                if form == "expand":
                    x = x.expand(g, *x.shape[1:])
                if form == "copy":
                    x = x.repeat(g, *[1] * nd)
            margs.append(x if form == "expand" else self.lay(x))
        kw = {}
        suffix = (lambda t: "") if not e.stag else (lambda t: "_" + self.letter(t))
        slots = {}
        for what, store in (("src", e.srcs), ("rec", e.recs)):
            for t, pts in store.items():
                q = [c[what][t][s] for s in ids]
                width = max(map(len, q))
                q = [z + [0] * (width - len(z)) for z in q]
                slots[what, t] = q
                loc = self.locs([[self.place(pts[s][i - 1]) if i else [self.ign] * nd for i in z] for s, z in zip(ids, q)])
                if what == "src":
                    kw["source_locations" + suffix(t)] = loc
                    a = amps[t][pick]
                    a = torch.cat([a, torch.full((g, 1, e.nt), 99.0, dtype=self.prec)], 1)
                    a = torch.stack([a[k, [i - 1 for i in z]] for k, z in enumerate(q)])
                    kw["source_amplitudes" + suffix(t)] = self.lay(a * (self.scale * (1.0 if (e.kind, t) == ("acoustic", "p") else self.mass("p"))))
                elif e.kind == "born":
                    kw[{"p": "bg_receiver_locations", "sc": "receiver_locations"}[t]] = loc
                else:
                    kw["receiver_locations" + suffix(t)] = loc
        for nm, x in init.items():
            kw[self.name(nm)] = self.lay(self.there(x[pick], 1) * (self.sign(nm) * self.scale * self.mass(nm)))
        pml = [b["pml"][2 * a + (s if not c["mirror"][a] else 1 - s)] for a in self.ax for s in (0, 1)]
        dx = [e.dx[a] for a in self.ax]
        kw["pml_width"] = {"list": pml, "tuple": tuple(pml), "scalar": pml[0]}[c["width"]]
        dx = {"list": dx, "tuple": tuple(dx), "scalar": dx[0], "int": int(dx[0])}[c["spacing"]]
        kw.update(max_vel=2000.0, pml_freq=float(b["freq"]), storage_path=self.path)
        if c["given"]:
            kw.update(freq_taper_frac=0.0, time_pad_frac=0.0, time_taper=False, survey_pad=None, origin=None,
                      forward_callback=None, backward_callback=None, callback_frequency=1, python_backend=False,
                      storage_mode="device", storage_compression=False, model_gradient_sampling_interval=1)
        if c["region"] == "within":
            kw.update(origin=list(self.beg))
        elif c["region"] == "around":  # the sources and receivers, and just the cells around them
            pts = [self.place(st[s][i]) for st in (*e.srcs.values(), *e.recs.values()) for s in ids for i in range(len(st[s]))]
            lo, hi = [min(x) for x in zip(*pts)], [max(x) for x in zip(*pts)]
            kw.update(survey_pad=[z for j, a in enumerate(self.ax) for z in (lo[j] - self.beg[j], self.beg[j] + b["n"][a] - 1 - hi[j])])
        elif c["region"] != "none":
            kw.update({"nones": dict(survey_pad=[None] * (2 * nd)), "wide": dict(survey_pad=600),
                       "mixed": dict(survey_pad=[None, 600] * nd), "origin": dict(origin=[0] * nd)}[c["region"]])
        if b["taper"]:
            kw.update(freq_taper_frac=0.3, time_pad_frac=0.2, time_taper=True)
        if b["acc"] != 4 or c["given"]:
            kw["accuracy"] = b["acc"]
        if b["q"] > 1:
            kw["model_gradient_sampling_interval"] = b["q"]
        if c["back"] != "c":
            kw["python_backend"] = c["back"]
        if c["storage"] != "device":
            kw["storage_mode"] = c["storage"]
        if c["compress"]:
            kw["storage_compression"] = True
        names = self.e.names
        if b["cb"]:
            def cb(state):
                for nm in names:
                    for view in ("pml", "inner"):
                        x = state.get_wavefield(self.name(nm), view=view).detach().clone()
                        if x.shape[0] != g:
                            raise AssertionError(f"{nm} seen in a callback has {x.shape[0]} shots")
                        cbs.setdefault(f"cb/{int(state.step)}/{nm}/{view}", []).append(
                            (ids, self.back(x, 1) * self.sign(nm) / (self.grown * self.mass(nm))))
            kw.update(forward_callback=cb, callback_frequency=b["cf"])
        if b["bcb"] and c["back"] == "c" and c["noted"]:
            def bcb(state):
                for nm in names:
                    try:
                        x = state.get_wavefield(self.name(nm), view="pml").detach().clone()
                    except KeyError:
                        if e.kind != "born":
                            raise
                        continue
                    cbs.setdefault(f"bcb/{int(state.step)}/{nm}", []).append((ids, self.back(x, 1) * self.sign(nm) * self.grown * self.mass(nm)))
            kw.update(backward_callback=bcb, callback_frequency=b["cf"])
        if self.waves():
            watch = kw.get("forward_callback")

            def changer(state):
                if int(state.step) == 0:
                    for nm in names:
                        x = state.get_wavefield(nm, view="full" if c["writes"] == "waves" else "pml")
                        x *= 4
                if watch:
                    watch(state)
            kw.update(forward_callback=changer, callback_frequency=b["cf"])
        if self.writes():
            seen = kw.get("backward_callback")

            def writer(state):
                if seen:
                    seen(state)
                if int(state.step) == 0:
                    for nm in w.prepared_names(e.kind, nd):
                        try:
                            x = state.get_gradient(nm, view=c["writes"])
                        except KeyError:
                            continue
                        x *= 4
            kw.update(backward_callback=writer, callback_frequency=b["cf"])
        if c["zeros"]:
            for nm in names:
                if self.name(nm) not in kw:
                    kw[self.name(nm)] = torch.zeros([g] + [self.e.trim[a] for a in self.ax], dtype=self.prec)
        if c["parts"] == 1:
            out, recs = self.propagate(margs, dx, kw)
        else:
            k1, k2 = dict(kw), dict(kw)
            for j, k in enumerate(sorted(k for k in kw if k.startswith("source_amplitudes"))):
                keep = (torch.arange(kw[k].shape[1]) + j) % 2 == 0
                k1[k], k2[k] = kw[k] * keep[None, :, None], kw[k] * ~keep[None, :, None]
            for j, nm in enumerate(n for n in names if n in kw):
                k1[nm], k2[nm] = (kw[nm], 0 * kw[nm]) if j % 2 else (0 * kw[nm], kw[nm])
            out, recs = self.propagate(margs, dx, k1)
            o2, r2 = self.propagate(margs, dx, k2)
            out = [x + y for x, y in zip(out, o2)]
            recs = [[x + y for x, y in zip(p, q)] for p, q in zip(recs, r2)]
        val = {}
        for nm in names:
            val["fin/" + nm] = self.back(out[names.index(self.name(nm))], 1) * (self.sign(nm) / (self.grown * self.mass(nm)))
        order = w.rec_types(e.kind, nd)
        if e.stag:
            order = {1: ("p", "x"), 2: ("p", "y", "x"), 3: ("p", "z", "y", "x")}[nd]
        for j, t in enumerate(order):
            te = t if t not in e.letters else e.letters[self.ax[e.letters.index(t)]]
            rs = [r[j] for r in recs]
            if te not in e.recs:
                val["norec/" + te] = torch.tensor([[float(sum(r.numel() for r in rs))]] * g, dtype=self.prec)
                continue
            x = torch.cat(rs, -1)
            q = slots["rec", te]
            val["rec/" + te] = torch.stack([x[k, [z.index(i + 1) for i in range(b["rec"][te])]] for k, z in enumerate(q)]) / (self.grown * self.mass(te))
            val["ign/" + te] = torch.stack([x[k, [i for i, y in enumerate(z) if y == 0]].abs().sum()[None] for k, z in enumerate(q)])
        return val


    def propagate(self, margs, dx, kw):
        """The pieces of one propagation."""
        torch, e, c = self.torch, self.e, self.c
        names = e.names
        amps = [k for k in kw if k.startswith("source_amplitudes")]
        late = c["delay"]
        if late:
            kw = dict(kw)
            for k in amps:
                kw[k] = torch.cat([torch.zeros_like(kw[k][..., :1]).expand(-1, -1, late), kw[k]], -1)
        out, recs, t = None, [], 0
        f = {"scalar": self.dw.scalar, "born": self.dw.scalar_born, "acoustic": self.dw.acoustic,
             "elastic": self.dw.elastic}[e.kind]
        f1, kw1 = f, kw
        if c["call"] not in ("function", "positional"):
            f, kw, margs, dx = self.module(margs, dx, kw)
        else:
            f0 = f
            f = lambda *a, **k: f0(*margs, dx, *a, **k)
            if c["call"] == "positional":
                def f(dt, **k):
                    last = max([i + 1 for i, a in enumerate(c["order"]) if a in k] or [0])
                    missing = {a: {"accuracy": 4, "pml_width": 20}.get(a) for a in c["order"][:last]}
                    return f0(*margs, dx, dt, *[k.pop(a, missing[a]) for a in c["order"][:last]], **k)
        self.f0, self.stored = f1, {k: v for k, v in kw1.items() if k.startswith("storage_")}
        for j, n in enumerate(c["pieces"]):
            k2 = dict(kw)
            if out is not None:
                k2.update(zip(names, out[:len(names)]))
            if j == 0:
                n += late
            for k in amps:
                k2[k] = kw[k][..., t:t + n]
            if not amps or c["given"]:
                k2["nt"] = n
            if c["after"] != "none" and j == 0:
                self.before(f, margs, k2)
            out = list(f(e.dt, **k2))
            recs.append([x[..., late:] if j == 0 and x.numel() else x for x in out[len(names):]])
            t += n
        self.answered = True
        return out, recs

    def before(self, f, margs, kw):
        """A call that differs in one thing from the one that follows."""
        torch, e, how, dt = self.torch, self.e, self.c["after"], self.e.dt
        kw = {k: v for k, v in kw.items() if not k.endswith("_callback")}
        waves = [k for k, v in kw.items() if isinstance(v, torch.Tensor) and v.ndim == e.nd + 1 and "locations" not in k and "amplitudes" not in k]
        late = [k for k in kw if k.startswith("source_amplitudes")]
        old = []

        def other(x, y):
            """The same tensor with other contents, until the call is over."""
            if x.numel() and 0 not in x.stride() and not any(x.data_ptr() == z.data_ptr() for z, _ in old):
                old.append((x.data, x.data.clone()))
                x.data.copy_(y)
        params = [p for p, _ in self.bridges]
        if how == "pml_freq":
            kw[how] *= 1.5
        elif how == "max_vel":
            kw[how] += 250.0
        elif how == "dt":
            dt *= 0.9
        elif how == "accuracy":
            kw[how] = {2: 4, 4: 6, 6: 8, 8: 2}[kw.get(how, 4)]
        elif how == "taper":
            kw.update(freq_taper_frac=0.2, time_pad_frac=0.1, time_taper=not kw.get("time_taper", False))
        elif how == "pad" and not waves and kw.get("survey_pad") is None and kw.get("origin") is None:
            kw["survey_pad"] = [0, None] * e.nd
        elif how in ("values", "models", "amplitudes"):
            for x in ([*margs, *params] if how != "amplitudes" else []) + [kw[k] for k in (late if how == "amplitudes" else [*late, *waves] if how == "values" else [])]:
                other(x, x.detach() * 0.97)
        elif how == "places":
            for k in kw:
                if "locations" in k:
                    other(kw[k], kw[k].flip(1))
        elif how == "nt":
            if late:
                kw.pop("nt", None)
                kw.update({k: kw[k][..., :-1] for k in late} if kw[late[0]].shape[-1] > 1 else {})
            else:
                kw["nt"] += 3
        elif how == "sampling" and self.c["back"] == "c":
            kw["model_gradient_sampling_interval"] = 1
        elif how == "callbacks":
            kw.update(forward_callback=lambda state: None, callback_frequency=1)
        elif how == "width" and not waves:
            w = kw["pml_width"]
            kw["pml_width"] = [z + 1 for z in w] if not isinstance(w, int) else w + 1
        elif how == "threads":
            torch.set_num_threads(4)
        elif how == "storage" and self.c["back"] == "c" and self.c["call"] in ("function", "positional"):
            kw.update(storage_mode="cpu", storage_compression=not kw.get("storage_compression", False))
        if how in ("spacing", "dtype", "shots"):
            if how == "spacing":
                self.f0(*margs, [x * 1.1 for x in ([self.e.dx[a] for a in self.ax])], dt, **self.whole(kw))
            elif how == "dtype":
                prec = torch.float32 if self.prec == torch.float64 else torch.float64
                c = lambda x: x.to(prec) if isinstance(x, torch.Tensor) and x.is_floating_point() else x
                self.f0(*map(c, margs), [self.e.dx[a] for a in self.ax], dt, **{k: c(v) for k, v in self.whole(kw).items()})
            else:
                two = lambda x: torch.cat([x, x]) if isinstance(x, torch.Tensor) else x
                self.f0(*[two(x) if x.ndim > e.nd and len(x) > 1 else x for x in margs], [self.e.dx[a] for a in self.ax], dt,
                        **{k: two(v) for k, v in self.whole(kw).items()})
        else:
            out = f(dt, **kw)
            if how == "backwards" and any(x.requires_grad for x in out):
                sum(x.square().sum() for x in out if x.requires_grad).backward(retain_graph=True)
                for x in [*margs, *params, *kw.values()]:
                    if isinstance(x, torch.Tensor) and x.is_leaf:
                        x.grad = None
        for x, y in old:
            x.copy_(y)
        torch.set_num_threads(self.c["threads"])

    def whole(self, kw):
        """What a function is given, of what a module is."""
        return {**self.stored, **kw} if self.c["call"] not in ("function", "positional") else kw

    def module(self, margs, dx, kw):
        """The module made of the models, and what it is called with."""
        torch, e, c = self.torch, self.e, self.c
        make = {"scalar": self.dw.Scalar, "born": self.dw.ScalarBorn, "acoustic": self.dw.Acoustic, "elastic": self.dw.Elastic}[e.kind]
        names = w.MODELS[e.kind]
        own = {k: v for k, v in kw.items() if k.startswith("storage_")}
        flags = {m + "_requires_grad": True for m, x in zip(names, margs) if x.requires_grad}
        if c["given"]:
            flags = {m + "_requires_grad": x.requires_grad for m, x in zip(names, margs)}
        first = [x.detach() * 0 + 1 if c["call"] in ("functional", "loaded") else x for x in margs]
        mod = make(*first, dx, **flags, **own)
        if c["call"] == "copied":
            mod = copy.deepcopy(mod)
        elif c["call"] == "pickled":
            mod = pickle.loads(pickle.dumps(mod))
        elif c["call"] == "loaded":
            mod.load_state_dict({m: x.detach().clone() for m, x in zip(names, margs)})
        params = dict(mod.named_parameters())
        if sorted(params) != sorted(names):
            raise RuntimeError(f"parameters {sorted(params)}")
        if c["call"] == "functional":
            def f(dt, **k):
                return torch.func.functional_call(mod, dict(zip(names, margs)), (dt,), k)
        else:
            f = mod
            self.bridges += [(params[m], x) for m, x in zip(names, margs) if x.requires_grad]
        return f, {k: v for k, v in kw.items() if k not in own}, margs, dx


def field(key):
    """What an output is an output of: the observations of a field belong together."""
    q = key.split("/")
    return "/".join([{"cb": "fin"}.get(q[0], q[0]), q[2]]) if q[0] in ("cb", "bcb") else key


def tops(ref):
    out = {}
    for k, x in ref.items():
        out[field(k)] = max(out.get(field(k), 0.0), float(x.abs().max()) if x.numel() else 0.0)
    return out


def distance(torch, x, y, top=None):
    if x.shape != y.shape or not bool(torch.isfinite(x).all()):
        return FAR
    if y.numel() == 0:
        return 0
    top = float(y.abs().max()) if top is None else top
    diff = float((x - y).abs().max())
    if diff == 0:
        return 0
    return min(FAR, int(diff / top * 1e10) + 1) if top > 0 else FAR


def run_walk(req, path):
    import torch

    import deepwave

    if any(c["back"] == "compile" for c in req["calls"]) and os.environ.get("EQUIV_DYNAMO", "eager") != "inductor":
        import functools
        import torch._dynamo as dynamo
        for limit in ("recompile_limit", "cache_size_limit"):  # reached after a few calls, as in a long-lived process
            if hasattr(dynamo.config, limit):
                setattr(dynamo.config, limit, 2)
        torch.compile = functools.partial(torch.compile, backend=os.environ.get("EQUIV_DYNAMO", "eager"))
    tmp = tempfile.mkdtemp(dir=os.environ["WAVE_TMP"])
    out = open(path, "a")

    def put(**k):
        out.write(json.dumps(k) + "\n")
        out.flush()

    put(stage="machinery")
    torch.set_num_threads(1)     # no threads before processes are forked
    e = Experiment(torch, req["b"])
    own = os.path.dirname(os.path.abspath(__file__))

    def call(i):
        rec = dict(call=i, error="", d={}, shape="")
        try:
            ask = Ask(torch, deepwave, e, req["calls"][i], tmp)
            return rec, ask.run()
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            rec["error"] = f"{type(ex).__name__}: {ex}"[:300]
            rec["trace"] = traceback.format_exc()[-1500:]
            rec["own"] = all(fr.filename.startswith(own) for fr in tb) and not ask.answered
            return rec, None

    # calls after another one, before which this process must not have made any
    for i, c in enumerate(req["calls"]):
        if c["after"] != "none":
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    torch.save(call(i), os.path.join(tmp, f"call{i}"))
                    code = 0
                finally:
                    os._exit(code)
            st = os.waitpid(pid, 0)[1]
            if st:
                put(stage=i)
                os._exit(3 if os.WIFEXITED(st) else 1)
    for i, c in enumerate(req["calls"]):
        put(stage=i)
        t0 = time.time()
        file = os.path.join(tmp, f"call{i}")
        rec, res = torch.load(file) if os.path.exists(file) else call(i)
        if i == 0:
            ref = res
            if ref is None:
                put(done=i, t=round(time.time() - t0, 3), **rec)
                break
            top = tops(ref)
        if res is not None:
            rec["top"] = max([float(x.abs().max()) for x in res.values() if x.numel()] or [0.0])
            single = "float" in (c["prec"], req["calls"][0]["prec"])   # may cancel at a time or in a region
            rec["d"] = {k: distance(torch, x, ref[k], top[field(k)] if single else None) if k in ref and k[:3] != "ign" and k[:5] != "norec"
                        else (0 if not bool((x != 0).any()) else FAR) for k, x in res.items()}
        put(done=i, t=round(time.time() - t0, 3), **rec)
    put(end=True)
    shutil.rmtree(tmp, ignore_errors=True)


def main():
    reqs = json.load(open(sys.argv[1]))
    tmp = os.path.dirname(os.path.abspath(sys.argv[2]))
    os.environ.setdefault("WAVE_TMP", tmp)
    import torch  # noqa: F401

    import deepwave  # noqa: F401

    if any(c["back"] == "compile" for r in reqs for c in r["calls"]):
        import torch._dynamo  # noqa: F401  once

    todo, running, out = list(range(len(reqs))), {}, [None] * len(reqs)
    until = float(os.environ.get("DRIVER_UNTIL", "inf"))
    while todo or running:
        late = time.time() > until
        if late:
            todo.clear()
        while todo and len(running) < 8:
            i = todo.pop(0)
            path = os.path.join(tmp, f"walk{i}.json")
            pid = os.fork()
            if pid == 0:
                try:
                    run_walk(reqs[i], path)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            running[pid] = (i, path, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for q, (i, path, t0) in running.items():
                if late or time.time() - t0 > 180:
                    os.kill(q, 9)
            time.sleep(0.005)
            continue
        i, path, _ = running.pop(pid)
        rec = []
        try:
            with open(path) as f:
                rec = [json.loads(x) for x in f if x.endswith("\n")]
            os.unlink(path)
        except OSError:
            pass
        if not (late and os.WIFSIGNALED(st) and os.WTERMSIG(st) == 9):
            out[i] = dict(records=rec, status=st, machinery=os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3)
    with open(sys.argv[2], "w") as f:
        json.dump([dict(o or dict(records=[], status=0, machinery=False, unfinished=True), id=r["id"]) for o, r in zip(out, reqs)], f)


if __name__ == "__main__":
    main()
