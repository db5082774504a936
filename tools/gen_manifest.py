"""Writes MANIFEST.json from the table of implemented checks."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
TR = ("trace validation: behaviours recorded from the real code are checked with TLC, exactly (residues modulo a "
      "prime), against the TLA+ specification of the propagators (spec/WaveTrace.tla)")
CHECKS = {p: (TR, "model_checking", n) for p, n in {
    "A01": "Every recorded value of every field at every observed step; small grids, 1-3 steps at high orders",
    "A02": "As A01 for the Born system",
    "A03": "As A01 for the staggered-grid acoustic system",
    "A04": "As A01 for the elastic system",
    "G01": "Directional derivatives of random functionals, computed by the specification over dual numbers",
    "G02": "Directional derivatives of random functionals, computed by the specification over dual numbers",
    "G03": "Second directional derivatives, computed by the specification over nilpotent extensions",
    "G04": "Directional derivatives with the direction carried by the sampled steps only",
}.items()}
try:
    from manifest_more import MORE
    CHECKS.update(MORE)
except ImportError:
    pass
NA = {}
props = [json.loads(line)["id"] for line in (ROOT / "properties.jsonl").read_text().splitlines()]
checks = []
for p in props:
    if p in CHECKS:
        t, lv, note = CHECKS[p]
        checks.append(dict(property=p, quick_cmd=f"bash run.sh {p} quick", thorough_cmd=f"bash run.sh {p} thorough",
                           technique=t, level=lv, level_note=note))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, "check still being built")) for p in props if p not in CHECKS],
         notes="TLA+ specifications checked with TLC; see DESIGN.md. No hooks are needed in /repo.")
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
