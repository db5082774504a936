"""Builds a private copy of the package from /repo's current working tree.

The Python files are copied and the C library is linked from freshly compiled
objects.  An object of the sandbox's own build (/opt/deepwave-build, read only)
is reused when the hash list that build recorded says its source and every
header are byte-identical to the working tree's.  Nothing outside the scratch
directory is written.
"""

import concurrent.futures
import hashlib
import os
import pathlib
import re
import shutil
import subprocess

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
CACHE = pathlib.Path("/opt/deepwave-build")
KERNELS = ("scalar", "scalar_born", "acoustic", "elastic")
UTILS = ("simple_compress", "storage_utils")


def _sha(p):
    return hashlib.sha256(p.read_bytes()).hexdigest()


def _recorded():
    rec = {}
    try:
        for line in (CACHE / "sources.sha256").read_text().splitlines():
            h, name = line.split(None, 1)
            rec[name.strip()] = h
    except OSError:
        pass
    return rec


def build(scratch, kernels=KERNELS, dtypes=("double",), ndims=(1, 2, 3), accs=(2, 4, 6, 8)):
    """Returns the directory to put first on PYTHONPATH."""
    src = REPO / "src" / "deepwave"
    out = pathlib.Path(scratch) / "overlay"
    pkg = out / "deepwave"
    pkg.mkdir(parents=True)
    for p in src.iterdir():
        if p.is_file() and p.suffix != ".so":
            shutil.copy2(p, pkg / p.name)
    for p in src.iterdir():  # sub-packages, should there ever be any
        if p.is_dir() and p.name != "__pycache__":
            shutil.copytree(p, pkg / p.name, ignore=shutil.ignore_patterns("__pycache__"))
    rec = _recorded()
    headers_same = all(
        rec.get(f"src/deepwave/{h.name}") == _sha(h) for h in src.glob("*.h")
    ) and set(n for n in rec if n.endswith(".h")) == set(
        f"src/deepwave/{h.name}" for h in src.glob("*.h")
    )
    # C files that are included by others behave like headers.
    included = set()
    for p in list(src.glob("*.c")) + list(src.glob("*.h")):
        for m in re.finditer(r'#include\s+"([^"]+\.c)"', p.read_text(errors="replace")):
            included.add(m.group(1))
    for c in included:
        if (src / c).exists() and rec.get(f"src/deepwave/{c}") != _sha(src / c):
            headers_same = False
    jobs, objs = [], []
    odir = out / "obj"
    odir.mkdir()

    def want(name, nd, acc, dt):
        c = src / f"{name}.c"
        same = headers_same and rec.get(f"src/deepwave/{name}.c") == _sha(c)
        cached = CACHE / f"cmake/CMakeFiles/{name}_{nd}_{acc}_{dt}_obj.dir/src/deepwave/{name}.c.o"
        if same and cached.exists():
            objs.append(str(cached))
            return
        o = odir / f"{name}_{nd}_{acc}_{dt}.o"
        objs.append(str(o))
        jobs.append([
            "/usr/bin/gcc", "-O1", "-fPIC", "-mavx2", "-fopenmp",
            f"-DDW_ACCURACY={acc}", "-DDW_DEVICE=cpu", f"-DDW_DTYPE={dt}", f"-DDW_NDIM={nd}",
            "-c", str(pkg / f"{name}.c"), "-o", str(o),
        ])

    for nd in (1, 2, 3):
        for dt in ("float", "double"):
            for u in UTILS:
                want(u, nd, 2, dt)
    for k in kernels:
        for nd in ndims:
            for acc in accs:
                for dt in dtypes:
                    want(k, nd, acc, dt)
    # biggest first
    jobs.sort(key=lambda j: (-int(j[8][-1]), "elastic" not in j[10]))
    if jobs:
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for r in ex.map(lambda j: subprocess.run(j, capture_output=True, text=True), jobs):
                if r.returncode != 0:
                    raise RuntimeError("compilation failed:\n" + r.stderr[-2000:])
    subprocess.run(
        ["/usr/bin/gcc", "-shared", "-fopenmp", "-o", str(pkg / "libdeepwave_C.so"), *objs, "-lm"],
        check=True,
    )
    shutil.rmtree(odir)
    return str(out), len(jobs), len(objs)
