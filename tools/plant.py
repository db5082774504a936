#!/usr/bin/python3
"""Confirms planted bugs in a scratch copy of the repository.

plant.py ID... [--notests] [--nocheck]   (IDs of /verif/seeded; "all")

For each: copy /repo, apply patch.diff, build with build.sh's own flags, run demo
on the unpatched and the patched copy, the stable tests on the patched copy, and
the property's quick check against the patched copy.
"""
import json, os, pathlib, re, shutil, subprocess, sys, tempfile, time
V = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
KS = ("scalar", "scalar_born", "acoustic", "elastic")

def build(copy):
    """libdeepwave_C.so of the copy (same flags as build.sh; objects reused where unchanged)."""
    env = dict(os.environ, VERIF_REPO=str(copy))
    d = tempfile.mkdtemp(prefix="plantb-")
    code = ("import sys; sys.path.insert(0, %r); import build; print(build.build(%r, dtypes=('float','double')))"
            % (str(V / "harness"), d))
    r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(d); return r.stderr[-1500:]
    shutil.copy2(d + "/overlay/deepwave/libdeepwave_C.so", copy / "src/deepwave/libdeepwave_C.so")
    shutil.rmtree(d)
    return ""

def demo(sd, copy):
    """demo.sh with /repo read as the copy."""
    t = tempfile.mkdtemp(prefix="plantd-")
    for p in sd.iterdir():
        if p.suffix not in (".diff", ".patch") and p.name != "meta.json":
            shutil.copy2(p, t)
    env = dict(os.environ, PYTHONPATH=str(copy / "src"), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(["bash", t + "/demo.sh"], cwd=copy, env=env, capture_output=True, text=True, timeout=300)
    shutil.rmtree(t)
    return r.returncode, (r.stdout + r.stderr)[-600:]

def tests(copy):
    out = tempfile.mktemp(suffix=".xml")
    env = dict(os.environ, PYTHONPATH=str(copy / "src"), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300",
                    "-o", "junit_family=xunit2", f"--junitxml={out}", "tests",
                    *["--ignore=tests/test_%s.py" % k for k in ("acoustic", "elastic", "scalar", "scalar_born")]],
                   cwd=copy, env=env, capture_output=True, text=True)
    js = tempfile.mktemp(suffix=".json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", js, f"junit:{out}"])
    d = json.load(open(js))
    os.unlink(js); os.unlink(out)
    return sorted(STABLE - set(d["passed"]))

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = sorted(p.name for p in (V / "seeded").iterdir() if p.is_dir()) if args == ["all"] else args
    copy = pathlib.Path(tempfile.mkdtemp(prefix="plant-")) / "repo"
    subprocess.run(["cp", "-a", "/repo", str(copy)], check=True)
    try:
        for i in ids:
            sd = V / "seeded" / i
            meta = json.load(open(sd / "meta.json"))
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=copy, check=True)
            shutil.copy2("/repo/src/deepwave/libdeepwave_C.so", copy / "src/deepwave/libdeepwave_C.so")
            line = [i, meta["property"]]
            if "--nodemo" not in sys.argv:
                rc, o = demo(sd, copy)
                line.append(f"demo-clean={rc}")
                if rc: print(o)
            r = subprocess.run(["git", "apply", str(sd / "patch.diff")], cwd=copy, capture_output=True, text=True)
            if r.returncode:
                print(i, "PATCH DOES NOT APPLY", r.stderr); continue
            if re.search(r"^\+\+\+ b/\S+\.[ch]$", (sd / "patch.diff").read_text(), re.M):
                e = build(copy)
                if e: print(i, "DOES NOT BUILD", e); continue
            if "--nodemo" not in sys.argv:
                rc, o = demo(sd, copy)
                line.append(f"demo-bug={rc}")
                if not rc: print(o)
                elif "-v" in sys.argv or "--v" in sys.argv: print(o)
            if "--notests" not in sys.argv:
                line.append(f"failing-tests={tests(copy)[:5]}")
            if "--nocheck" not in sys.argv:
                props = [meta["property"]] + [a[8:] for a in sys.argv if a.startswith("--check=")]
                for p in props:
                    t = time.time()
                    r = subprocess.run([sys.executable, str(V / "harness/check.py"), p, "quick"], capture_output=True, text=True,
                                       env=dict(os.environ, VERIF_REPO=str(copy), VERIF_SEED="1"))
                    n = r.stdout.count("VIOLATION")
                    line.append(f"check {p}: rc={r.returncode} violations={n} {time.time()-t:.0f}s")
                    if r.returncode not in (0, 1): print(r.stdout[-800:], r.stderr[-800:])
            print(*line, sep=" | ", flush=True)
    finally:
        shutil.rmtree(copy.parent)

main()
