"""mkbug.py SPEC.py...: turns bug descriptions into /verif/seeded/<id>/.

SPEC.py defines BUGS: list of dict(id, property, file, old, new[, nth][, edits=[(file,old,new[,nth])]], needs, breaks, demo).
"""
import json, pathlib, subprocess, sys, tempfile, shutil, runpy
V = pathlib.Path(__file__).resolve().parent.parent
HEAD = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
for spec in sys.argv[1:]:
    for b in runpy.run_path(spec)["BUGS"]:
        t = pathlib.Path(tempfile.mkdtemp()) / "r"
        subprocess.run(["git", "worktree", "prune"], cwd="/repo")
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", str(t)], check=True)
        for e in b.get("edits") or [(b["file"], b["old"], b["new"], b.get("nth", 0))]:
            f, old, new, nth = (*e, 0)[:4]
            p = t / "src/deepwave" / f
            s = p.read_text()
            parts = s.split(old)
            assert len(parts) > nth + 1, (b["id"], f, len(parts))
            s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            p.write_text(s)
        d = V / "seeded" / b["id"]
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True).stdout)
        (d / "demo.py").write_text(b["demo"].lstrip())
        (d / "demo.sh").write_text(HEAD)
        (d / "meta.json").write_text(json.dumps(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
        shutil.rmtree(t.parent)
        print(b["id"])
