"""Checks of one specification against one driver: model checking, generation, recording, judging."""
import json, os, random, subprocess, traceback
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import Pool
import tlc
from framework import Broken, NPROC, VERIF, build
import sut
from sut import Infra


def bindir(variant="plain"):
    return os.path.join(os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build")), variant, "bin")


class LineDriver:
    """A C++ driver that reads one command per line and answers each with one line."""

    def __init__(self, binary, encode, decode, variant="plain", args=(), timeout=120, env=None):
        self.path = os.path.join(bindir(variant), binary)
        self.encode, self.decode, self.args, self.timeout = encode, decode, args, timeout
        self.env = dict(os.environ, **(env or {}))

    def __call__(self, beh):
        cmds = [self.encode(None, beh)] + [self.encode(s["ev"], beh) for s in beh["steps"]]
        try:
            p = subprocess.run([self.path] + list(self.args), input="\n".join(cmds) + "\n", stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=self.timeout, env=self.env, errors="replace")
        except subprocess.TimeoutExpired:
            return {"pre": beh["pre"], "steps": [{"ev": beh["steps"][0]["ev"], "out": self.failed(beh["steps"][0]["out"], "hangs")}]}
        lines = p.stdout.split("\n")[:-1]
        steps = []
        for s, l in zip(beh["steps"], lines[1:]):
            steps.append({"ev": s["ev"], "out": self.decode(s["ev"], l)})
        if len(steps) < len(beh["steps"]):
            # it died in the middle of a step
            s = beh["steps"][len(steps)]
            steps.append({"ev": s["ev"], "out": self.failed(s["out"], "died rc=%s %s" % (p.returncode, p.stderr[-1500:]))})
        return {"pre": beh["pre"], "steps": steps}

    def failed(self, like, why):
        return dict(like, died=why) if isinstance(like, dict) else why


_rec = None


def _call(b):
    if sut.late():
        return {"pre": b["pre"], "steps": [], "late": True}
    try:
        return _rec(b)
    except Infra as e:
        return {"pre": b["pre"], "steps": [], "infra": str(e)}
    except Exception:
        # the proxy did not even let the driver go on (a listener gone, the process dead)
        return {"pre": b["pre"], "steps": [], "broke": traceback.format_exc()[-1500:]}


class Component:
    def __init__(self, spec, record, consts_key=str, procs=NPROC, record_slow=None):
        self.spec, self.record, self.procs = spec, record, procs
        self.record_slow = record_slow or record

    def judge(self, consts, traces, chunk=500):
        cfg = tlc.cfg_text(consts, spec="TraceSpec", constraints=["Track"], post="Post")
        parts = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]
        with ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(lambda p: tlc.matched("Trace(%s)" % self.spec, cfg, p), parts))
        return [x for r, _ in rs for x in r]

    def mc(self, chk, name, consts, invariants=(), properties=(), view=None, timeout=600, constraints=()):
        st = tlc.check(self.spec, tlc.cfg_text(consts, spec="Spec", invariants=invariants, properties=properties, view=view,
                                               constraints=constraints),
                       timeout=timeout, workers=4 if not chk.thorough else NPROC, heap="4g" if not chk.thorough else "12g")
        chk.mc(name, st)
        chk.log("model %s: %s" % (name, st))

    def gen(self, chk, consts, num, depth, seed=0):
        """Random behaviours of the specification (a fixed set for a seed)."""
        per = max(20, min(500, (num + 5) // 6))
        parts = [min(per, num - k) for k in range(0, num, per)]
        cfg = tlc.cfg_text(dict(consts, Depth=depth), spec="GenSpec")
        with ThreadPoolExecutor(6) as ex:
            rs = list(ex.map(lambda a: tlc.behaviours("Gen(%s)" % self.spec, cfg, a[1], depth + 2, chk.seed * 1000 + seed * 97 + a[0], timeout=900),
                             enumerate(parts)))
        return [b for r in rs for b in r]

    def cover(self, chk, consts, depth, cap=None):
        b, n, st = tlc.cover("Gen(%s)" % self.spec, tlc.cfg_text(dict(consts, Depth=depth), spec="CovSpec", view="CovView"), timeout=900)
        chk.add(transition_classes=n)
        if cap and len(b) > cap:
            b = random.Random(chk.seed).sample(b, cap)
        return b

    def broke(self, chk, name, bts):
        global _rec
        if not bts:
            return
        chk.log("%s: %d behaviours could not be driven to their end: %s" % (name, len(bts), bts[0][1]["broke"]))
        _rec = self.record_slow
        sut.DEADLINE[0] = chk.until(620)
        for b, t in bts[:4]:
            again = [_call(b) for _ in range(2)]
            if all("broke" in a for a in again):
                chk.violation("%s: the behaviour cannot be driven to its end: %s" % (name, again[0]["broke"]), dict(model=name, behaviour=b))
                return
        chk.add(unconfirmed=len(bts))

    def conform(self, chk, name, consts, behs, limit=3):
        global _rec
        if chk.enough():
            return
        _rec = self.record
        sut.DEADLINE[0] = chk.until(330)
        with Pool(self.procs) as pool:
            traces = pool.map(_call, behs, chunksize=max(1, min(8, len(behs) // (4 * self.procs))))
        if any("late" in t for t in traces):
            chk.log("%s: out of time, %d of %d behaviours left out" % (name, sum("late" in t for t in traces), len(behs)))
            kept = [(b, t) for b, t in zip(behs, traces) if "late" not in t]
            behs, traces = [b for b, _ in kept], [t for _, t in kept]
            if not kept:
                return
        bad = [t for t in traces if "infra" in t]
        if len(bad) > len(behs) // 2 + 1:
            chk.violation("%s: the code under test cannot be run: %s" % (name, bad[0]["infra"]), {"behaviour": behs[0]})
            return
        ok = [(b, t) for b, t in zip(behs, traces) if "infra" not in t and "broke" not in t]
        self.broke(chk, name, [(b, t) for b, t in zip(behs, traces) if "broke" in t])
        if not ok:
            return
        m = self.judge(consts, [t for _, t in ok])
        chk.add(traces_validated_against_impl=len(ok), trace_steps=sum(len(t["steps"]) for _, t in ok), infra_skipped=len(bad))
        chk.sample(dict(model=name, inputs=[s["ev"] for s in ok[0][1]["steps"]][:30], observed_last=ok[0][1]["steps"][-1]["out"]))
        rej = [(b, t, n) for (b, t), n in zip(ok, m) if n < len(t["steps"])]
        chk.log("%s: %d behaviours recorded, %d not accepted" % (name, len(ok), len(rej)))
        shown = 0
        sut.DEADLINE[0] = chk.until(620)
        _rec = self.record_slow
        for b, t, n in sorted(rej, key=lambda x: x[2])[:10]:
            if shown and chk.enough():
                break
            # a rejected recording is only believed if it happens again under generous timing
            b = dict(b, steps=b["steps"][:n + 1])
            with Pool(3) as pool:
                again = [a for a in pool.map(_call, [b] * 3, chunksize=1) if a["steps"]]
            m2 = self.judge(consts, again) if again else []
            hit = [(a, k) for a, k in zip(again, m2) if k < len(a["steps"])]
            if not hit:
                chk.add(unconfirmed=1)
                chk.log("not confirmed:", json.dumps(t["steps"][n])[:1000])
                continue
            a, k = hit[0]
            want = b["steps"][k]["out"] if k < len(b["steps"]) else None
            chk.violation("%s: observed behaviour is not a behaviour of the specification: %s" % (name, json.dumps(a["steps"][k])[:2000]),
                          dict(model=name, behaviour=b, step=k, input=a["steps"][k]["ev"], observed=a["steps"][k]["out"], one_expected=want,
                               inputs_before=[x["ev"] for x in a["steps"][:k]]))
            shown += 1
            if shown >= limit:
                break
