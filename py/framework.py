"""Shared by all checks: building, evidence, verdicts."""
import json, os, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
FINDINGS = os.path.join(VERIF, "known-findings.txt")
NPROC = os.cpu_count() or 4


class Broken(Exception):
    """The check could not do its work (neither pass nor violation)."""


def build(*targets, variant="plain"):
    p = subprocess.run([sys.executable, os.path.join(VERIF, "harness", "build.py"), "--variant", variant] + list(targets),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken("build failed:\n" + p.stdout[-4000:])


class Check:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.clock = time.monotonic()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = self._known()
        os.makedirs(OUT, exist_ok=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def _known(self):
        """Findings of this property that are recorded, not repaired: their keys."""
        res = []
        try:
            for l in open(FINDINGS):
                l = l.strip()
                if l.startswith("finding: property=%s " % self.pid):
                    res.append(l.split(" ", 2)[2])
        except OSError:
            pass
        return res

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def until(self, secs):
        """The time at which `secs` of the quick tier are over (never, in the thorough tier)."""
        return None if self.thorough else self.clock + secs

    def enough(self):
        """Whether there is something to report and little time to find more."""
        return bool(self.violations) and not self.thorough and time.monotonic() > self.clock + 200

    def sample(self, s):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(s)

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def mc(self, name, st):
        """Records a completed model-checking run."""
        self.cov["states"] += st.get("distinct", 0)
        self.cov["transitions"] += st.get("generated", 0)
        self.cov.setdefault("models", []).append(dict(name=name, **st))

    def violation(self, what, data):
        path = os.path.join(OUT, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, **data), f, indent=1, default=str)
        self.violations.append(path)
        print("violated: " + what, flush=True)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.log("done: %d violation(s)" % len(self.violations))
        return 1 if self.violations else 0
