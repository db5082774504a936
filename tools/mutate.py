"""mutate.py SPEC.py [ID...] [--jobs=N] [--all]: quick mutation runs.

SPEC.py defines M: list of (id, "P1,P2", file, old, new[, nth]).  Each mutant is applied to a
scratch copy of /repo and the listed properties' quick checks run until one reports a violation.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time, runpy
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parent.parent
args = [a for a in sys.argv[1:] if not a.startswith("--")]
jobs = int(next((a[7:] for a in sys.argv if a.startswith("--jobs=")), 2))
M = runpy.run_path(args[0])["M"]
if args[1:]: M = [m for m in M if m[0] in args[1:]]

def run(m):
    t = pathlib.Path(tempfile.mkdtemp(prefix="mut-"))
    try:
        c = t / "repo"
        subprocess.run(["cp", "-a", "/repo", str(c)], check=True)
        edits = m[2] if isinstance(m[2], list) else [tuple(m[2:])]
        for e in edits:
            f, old, new, nth = (*e, 0)[:4]
            p = c / "src/deepwave" / f
            s = p.read_text()
            if isinstance(old, int):  # (file, line number, old line, new line)
                ls = s.split("\n")
                assert ls[old - 1] == new
                ls[old - 1] = nth
                p.write_text("\n".join(ls))
                continue
            parts = s.split(old)
            if len(parts) <= nth + 1: return f"{m[0]}: OLD TEXT NOT FOUND in {f} ({len(parts)-1})"
            p.write_text(old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:]))
        out = []
        for p in m[1].split(","):
            t0 = time.time()
            r = subprocess.run([sys.executable, str(V / "harness/check.py"), p, "quick"], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=str(c), VERIF_SEED="1"))
            n = r.stdout.count("VIOLATION")
            out.append(f"{p}:rc={r.returncode},n={n},{time.time()-t0:.0f}s")
            if r.returncode not in (0, 1) and "error:" in r.stdout + r.stderr: return f"{m[0]}: does not compile"
            if r.returncode not in (0, 1): out.append((r.stdout[-600:] + r.stderr[-600:]))
            if r.returncode == 1 and "--all" not in sys.argv: break
        ok = any("rc=1" in o for o in out)
        what = "" if ok or isinstance(m[2], list) else f"\n   - {m[-2].strip()}\n   + {m[-1].strip()}" if isinstance(m[3], int) else ""
        return f"{m[0]}: {'killed' if ok else 'SURVIVED'} {' '.join(out)}{what}"
    finally:
        shutil.rmtree(t)
with ThreadPoolExecutor(jobs) as ex:
    for line in ex.map(run, M): print(line, flush=True)
