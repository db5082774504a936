"""Propagations on a disk that fails (DiskFaultHist.tla), each in a process of its own.

fault_driver.py REQ OUT: REQ is a list of dict(id, kind, mode, variant, cf, events, seed).
A full disk is a limit on the size of files (RLIMIT_FSIZE) of this process only; files are
deleted and shortened only inside the scratch directory.
"""

import gc
import json
import os
import resource
import shutil
import sys
import time
import traceback
import warnings

import storage_driver as sd


def limit(n):
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    resource.setrlimit(resource.RLIMIT_FSIZE, (hard if n is None else n, hard))


def files(path):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(path) for f in fs)


def open_files(path):
    n = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink(f"/proc/self/fd/{f}").startswith(path)
        except OSError:
            pass
    return n


def clear(path):
    for x in os.listdir(path):
        shutil.rmtree(os.path.join(path, x), ignore_errors=True)


def run(req, home):
    import torch

    torch.set_num_threads(3)
    path = os.path.join(home, "store")
    os.makedirs(path)
    os.chdir(home)
    p = sd.problem(req["kind"], req["variant"], req["seed"])
    p["cf"] = req["cf"]
    mode = req["mode"]
    st = sd.storage(mode, path)
    dev = sd.storage("devicec" if sd.compressed(mode) else "device", path)
    nothing = lambda state: None

    def results(leaf, out, ref):
        g = sd.grads(p, leaf, out)
        res = [dict(what=f"output {i}", single=sd.single(o, r), dev=sd.dev(o.detach(), r)) for i, (o, r) in enumerate(zip(out, ref["out"]))]
        return res + [dict(what=f"gradient {k}", single=sd.single(g.get(k), ref["g"][k]), dev=sd.dev(g.get(k), ref["g"][k])) for k in ref["g"]]

    leaf, out = sd.forward(p, dev, nothing, nothing)
    ref = dict(out=[o.detach().clone() for o in out], g=sd.grads(p, leaf, out))
    leaf, out = sd.forward(p, st, nothing, nothing)
    size = max([os.path.getsize(f) for f in files(path)] or [0])
    del leaf, out
    gc.collect()
    events = [dict(e, done=False, bytes=0, was=0) for e in req["events"]]

    def happen(place, j):
        for e in events:
            if e["place"] != place or e["j"] != j or e["done"]:
                continue
            e["done"] = True
            e["bytes"] = max(0, size * e["pm"] // 1000 + e["off"])
            if e["op"] == "limit":
                limit(e["bytes"])
            elif e["op"] == "lift":
                limit(None)
            elif e["op"] == "rmdir":
                clear(path)
            elif e["op"] == "full":  # one file is on a full disk from now on
                fs, ds = files(path), sorted(os.listdir(path))
                if fs or ds:
                    f = fs[e["file"] % len(fs)] if fs else os.path.join(path, ds[e["file"] % len(ds)], "shot_0.bin")
                    if os.path.lexists(f):
                        os.unlink(f)
                    os.symlink("/dev/full", f)
                else:
                    e["done"] = False
            else:
                fs = files(path)
                if fs:
                    f = fs[e["file"] % len(fs)]
                    e["was"] = os.path.getsize(f)
                    if e["op"] == "unlink":
                        os.unlink(f)
                    elif e["bytes"] < e["was"]:
                        os.truncate(f, e["bytes"])
                else:
                    e["done"] = False

    count = dict(fwd=0, bwd=0)

    def cb(place):
        def f(state):
            happen(place, count[place])
            count[place] += 1
        return f

    raised, res, stage = "", [], "fwd"
    try:
        try:
            leaf, out = sd.forward(p, st, cb("fwd"), cb("bwd"))
        finally:
            limit(None)
        stage = "bwd"
        happen("mid", 0)
        res = results(leaf, out, ref)
    except Exception as ex:
        raised = f"{type(ex).__name__}: {ex}"[:200]
        ex = None
    leaf = out = None
    gc.collect()
    r = dict(id=req["id"], error="", kind=req["kind"], mode=mode, cf=p["cf"], nt=p["nt"], size=size, events=events, raised=raised, stage=stage,
             res=res, dirs=len(os.listdir(path)), fds=open_files(path), again_raised="", again=[])
    try:
        leaf, out = sd.forward(p, st, nothing, nothing)
        r["again"] = results(leaf, out, ref)
    except Exception as ex:
        r["again_raised"] = f"{type(ex).__name__}: {ex}"[:200]
    return r


def main():
    import torch  # noqa: F401

    import deepwave  # noqa: F401

    warnings.simplefilter("ignore")
    reqs = json.load(open(sys.argv[1]))
    base = os.path.dirname(os.path.abspath(sys.argv[2]))
    until = float(os.environ.get("DRIVER_UNTIL", "inf"))
    jobs, out = {}, [None] * len(reqs)
    todo = list(enumerate(reqs))

    def failed(r, why):
        return dict(id=r["id"], error=why, kind=r["kind"], mode=r["mode"], cf=r["cf"], nt=1, size=0, events=[], raised="", stage="", res=[],
                    dirs=0, fds=0, again_raised="", again=[])

    while todo or jobs:
        while todo and len(jobs) < 6 and time.time() < until:
            i, r = todo.pop(0)
            home = os.path.join(base, f"home{i}")
            os.makedirs(home)
            pid = os.fork()
            if pid == 0:
                try:
                    res = run(r, home)
                    with open(os.path.join(base, f"r{i}.json"), "w") as f:
                        json.dump(res, f)
                    os._exit(0)
                except BaseException as e:
                    traceback.print_exc()
                    with open(os.path.join(base, f"r{i}.json"), "w") as f:
                        json.dump(failed(r, f"{type(e).__name__}: {e}"[:300]), f)
                    os._exit(1)
            jobs[pid] = i
        if not jobs:
            break
        pid, st = os.waitpid(-1, 0)
        if pid in jobs:
            i = jobs.pop(pid)
            try:
                out[i] = json.load(open(os.path.join(base, f"r{i}.json")))
            except (OSError, ValueError):
                out[i] = failed(reqs[i], f"process died (status {st})")
            shutil.rmtree(os.path.join(base, f"home{i}"), ignore_errors=True)
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
