"""Makes the calls of Warn.tla and counts the warnings of each.

warn_driver.py REQ OUT: REQ is a list of lists of calls; the output has [count, error, texts] for each.
"""

import json
import multiprocessing
import os
import sys
import time
import warnings


def one(c):
    import torch

    import deepwave

    torch.set_num_threads(1)
    nd, kind = c["nd"], c["kind"]
    dtype = torch.float32 if c.get("single") else torch.float64
    n = [6 + i for i in range(nd)]
    cells = 1
    for x in n:
        cells *= x
    m = [c["model"][(i * len(c["model"])) // cells] for i in range(cells)]
    v1 = torch.tensor([100.0 * a for a, _ in m], dtype=dtype).reshape(n)
    v2 = torch.tensor([100.0 * b for _, b in m], dtype=dtype).reshape(n)
    if kind in ("scalar", "born"):
        models = [v1] + ([torch.ones_like(v1)] if kind == "born" else [])
    elif kind == "acoustic":
        models = [v1, torch.full_like(v1, 2.0)]
    else:
        models = [2 * (v1 * v1 - 2 * v2 * v2), 2 * v2 * v2, torch.full_like(v1, 0.5)]
    fun = {"scalar": deepwave.scalar, "born": deepwave.scalar_born, "acoustic": deepwave.acoustic, "elastic": deepwave.elastic}[kind]
    kw = dict(pml_width=2, accuracy=2)
    ty = {"acoustic": "_p", "elastic": "_y" if nd > 1 else "_x"}.get(kind, "")
    if not c["wave"]:
        kw["source_amplitudes" + ty] = torch.ones(1, 1, 1, dtype=dtype)
        kw["source_locations" + ty] = torch.tensor([[[2] * nd]])
    else:
        kw["nt"] = 1
    if c["f"] >= 0:
        kw["pml_freq"] = float(c["f"])
    if c["mv"]:
        kw["max_vel"] = 100.0 * c["mv"]
    kw["receiver_locations" + ty] = torch.tensor([[[1] * nd]])
    if c["wave"]:
        pad = 4  # the PML on both sides
        w0 = {"scalar": "wavefield_0", "born": "wavefield_0", "acoustic": "pressure_0", "elastic": "vx_0"}[kind]
        kw[w0] = torch.zeros([1] + [x + pad for x in n], dtype=dtype)
        if c["wave"] == 1:
            kw["origin"] = [0] * nd
    here = os.path.dirname(os.path.abspath(torch.__file__))
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        err = ""
        try:
            fun(*models, [10.0 * x for x in c["dx"]], c["a"] / c["den"], **kw)
        except Exception as e:
            err = f"{type(e).__name__}: {e}"[:200]
    mine = [w for w in got if not w.filename.startswith(here)]
    return [len(mine), err, [str(w.message)[:80] for w in mine]]


def work(calls):
    if time.time() > float(os.environ.get("DRIVER_UNTIL", "inf")):
        return None
    return [one(c) for c in calls]


def main():
    reqs = json.load(open(sys.argv[1]))
    with multiprocessing.get_context("fork").Pool(8) as p:
        out = p.map(work, reqs, chunksize=1)
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
