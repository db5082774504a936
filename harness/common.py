"""Shared plumbing of the checks: scratch space, TLC, verdicts, evidence."""

import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"


class Machinery(Exception):
    """The check itself failed: no verdict."""


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        base = "/dev/shm" if False else tempfile.gettempdir()
        self.scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"dwcheck-{prop}-", dir=base))
        self.replays = VERIF / "replay" / prop
        shutil.rmtree(self.replays, ignore_errors=True)
        self.violations = []  # (key, text, replay data)
        self.problems = []  # what stayed undecided
        self.states = self.distinct = self.transitions = 0
        self.traces = 0
        self.seen = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.known = load_known()

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, cases, name, workers=8, heap="6g", timeout=840, extra_env=None):
        """Runs TLC on recorded cases; returns {case id: verdict record}."""
        path = self.scratch / f"{name}.json"
        path.write_text(json.dumps(cases))
        return self.tlc_raw(module, cfg, name, {"CASES": str(path), **(extra_env or {})}, workers, heap, timeout)

    def histories(self, module, cfg, num, depth, name, seed=None):
        """Behaviours of a specification drawn by TLC's simulator (its Emit invariant prints them)."""
        self.tlc_raw(module, cfg, name, workers=1, heap="1g", finished=False,
                     extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed if seed is None else seed)])
        out = self.emitted()
        if len(out) < num:
            raise Machinery(f"{len(out)} of {num} histories generated:\n" + self.tlc_out[-1500:])
        return out

    def emitted(self):
        """What an Emit invariant printed in the last run."""
        return [json.loads(json.loads(line)[5:]) for line in self.tlc_out.splitlines() if line.startswith('"HIST ')]

    def tlc_variant(self, module, cfg, constants, name, refuted=None, **kw):
        """Model checks with other constants; refuted: the invariant that has to fail (a control)."""
        text = (SPEC / cfg).read_text()
        for k, x in constants.items():
            text, n = re.subn(rf"^(\s*{k} = ).*$", rf"\g<1>{x}", text, flags=re.M)
            if n != 1:
                raise Machinery(f"no constant {k} in {cfg}")
        path = self.scratch / f"{name}.cfg"
        path.write_text(text)
        if refuted is None:
            return self.tlc_raw(module, path, name, **kw)
        try:
            self.tlc_raw(module, path, name, **kw)
        except Machinery:
            if f"Invariant {refuted} is violated" in self.tlc_out:
                self.extra["controls_refuted"] = self.extra.get("controls_refuted", 0) + 1
                return None
            raise
        raise Machinery(f"control {name} ({constants}) was not refuted")

    def tlc_raw(self, module, cfg, name, env=None, workers=8, heap="6g", timeout=840, extra=(), finished=True):
        meta = self.scratch / f"meta-{name}"
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-DTLA-Library={SPEC}", "-cp", JAR,
               "tlc2.TLC", "-metadir", str(meta), "-workers", str(workers), "-noGenerateSpecTE",
               "-config", str(SPEC / cfg), *extra, str(SPEC / module)]
        left = max(30, min(timeout, 880 - (time.time() - self.t0)))
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env={**os.environ, **(env or {})},
                               cwd=self.scratch, timeout=left)
        except subprocess.TimeoutExpired as e:
            raise Machinery(f"TLC timed out on {name}") from e
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        verdicts = {}
        for m in re.finditer(r'^"?VERDICT (\{.*\})"?$', out, re.M):
            s = m.group(1)
            if '\\"' in s:
                s = s.replace('\\"', '"').replace("\\\\", "\\")
            d = json.loads(s)
            verdicts[d["id"]] = d
        self.tlc_out = out
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
        if "Invariant" in out and "is violated" in out:
            raise Machinery(f"TLC invariant violated in {module} ({name}):\n" + out[-3000:])
        if r.returncode != 0 or (finished and "Model checking completed. No error" not in out):
            raise Machinery(f"TLC failed on {name} (rc {r.returncode}):\n" + out[-4000:] + r.stderr[-1000:])
        return verdicts

    # ------------------------------------------------------------ results
    def violation(self, key, text, data=None):
        self.violations.append((key, text, data))

    def problem(self, text):
        """Something stayed undecided: no verdict, unless something else is violated."""
        self.problems.append(text)

    def finish(self, level, coverage):
        """Prints verdict lines, writes evidence and returns the exit code."""
        if self.problems and not self.violations:
            raise Machinery(f"{len(self.problems)} undecided: {self.problems[0]}")
        known = [k for k in self.known if k["property"] == self.prop]
        fresh, hit = [], []
        for key, text, data in self.violations:
            m = [k for k in known if k["key"] == key]
            (hit if m else fresh).append((key, text, data, m))
        for k in known:
            if any(m and m[0] is k for _, _, _, m in hit):
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if fresh:
            self.replays.mkdir(parents=True, exist_ok=True)
        for i, (key, text, data, _) in enumerate(fresh[:20]):
            path = self.replays / f"{i:02d}.json"
            path.write_text(json.dumps(dict(property=self.prop, key=key, what=text, data=data), indent=1, default=str))
            print(f"VIOLATION property={self.prop} replay={path}  # {text[:300]}")
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples[:5] or [dict(note="none")], **self.extra, **coverage)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        print(f"{self.prop} {self.tier}: {self.traces} traces, {self.states} states, "
              f"{len(fresh)} violations, {time.time() - self.t0:.1f} s")
        return 1 if fresh else 0


def load_known():
    """Entries of known_findings.txt that suppress something (not 'fixed:' ones)."""
    out = []
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
    return out


def run_driver(chk, script, reqs, overlay, name="obs", timeout=600, env=None, python=PY):
    """Runs a driver under the code under test and returns its JSON output."""
    d = chk.scratch / f"drv-{name}"
    d.mkdir()
    (d / "req.json").write_text(json.dumps(reqs))
    tmp = d / "tmp"
    tmp.mkdir()
    e = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "PYTHON"))}
    e.update(PYTHONPATH=str(overlay), PYTHONDONTWRITEBYTECODE="1", TMPDIR=str(tmp),
             WAVE_TMP=str(tmp), OMP_WAIT_POLICY="passive", DRIVER_SEED=str(chk.seed))
    e.update(env or {})
    left = max(30, min(timeout, 870 - (time.time() - chk.t0)))
    e["DRIVER_UNTIL"] = str(time.time() + max(20, left - (90 if left > 300 else 30)))  # leaves time to judge what was recorded
    try:
        r = subprocess.run([python, str(VERIF / "harness" / script), str(d / "req.json"), str(d / "out.json")],
                           capture_output=True, text=True, env=e, cwd=d, timeout=left)
    except subprocess.TimeoutExpired as ex:
        raise Machinery(f"driver {script} timed out") from ex
    if r.returncode != 0 or not (d / "out.json").exists():
        raise Machinery(f"driver {script} failed (rc {r.returncode}):\n{r.stdout[-1500:]}\n{r.stderr[-3000:]}")
    chk.driver_out = r.stdout + r.stderr
    return json.loads((d / "out.json").read_text())


def main(prop, tier, fn):
    chk = Check(prop, tier)
    try:
        return fn(chk)
    except Exception as e:  # anything that leaves the question open
        traceback.print_exc()
        print(f"CHECK-FAILED {prop}: {e}", file=sys.stderr)
        return 2
    finally:
        chk.cleanup()
