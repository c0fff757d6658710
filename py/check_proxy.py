"""Conformance of the real proxy with spec/Proxy.tla, per property."""
import json, random, traceback
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import Pool
import proxydrv, tlc
from framework import Broken, NPROC, build
from profiles import PROFILES
import sut
from sut import Infra


def _rec(a):
    i, beh, kw, end = a
    sut.DEADLINE[0] = end
    if sut.late():
        return {"pre": beh["pre"], "steps": [], "late": True}
    broke = False
    for attempt in range(3):
        try:
            return proxydrv.record(beh, i % 60, **kw)
        except Infra as e:
            err = str(e)
        except Exception:
            err = traceback.format_exc()[-1500:]
            broke = True
    return {"pre": beh["pre"], "steps": [], "infra": err, "broke": broke}


def trace_cfg(c):
    return tlc.cfg_text(c, spec="TraceSpec", constraints=["Track"], post="Post")


def judge(c, traces, chunk=400):
    parts = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda p: tlc.matched("ProxyTrace", trace_cfg(c), p), parts))
    m, st = [], {"distinct": 0, "generated": 0}
    for r, s in rs:
        m += r
        for k in st:
            st[k] += s.get(k, 0)
    return m, st


def explain(tr, n, beh):
    s = tr["steps"][n]
    want = next((x["out"] for i, x in enumerate(beh["steps"]) if i == n), None)
    return dict(step=n, input=s["ev"], observed=s["out"], one_expected=want,
                inputs_before=[x["ev"] for x in tr["steps"][:n]])


def conform(chk, name, c, behs, pool):
    """Records the behaviours on the real proxy and judges them."""
    traces = pool.map(_rec, [(i, b, {}, chk.until(330)) for i, b in enumerate(behs)], chunksize=2)
    if any("late" in t for t in traces):
        chk.log("%s: out of time, %d of %d behaviours left out" % (name, sum("late" in t for t in traces), len(behs)))
        kept = [(b, t) for b, t in zip(behs, traces) if "late" not in t]
        behs, traces = [b for b, _ in kept], [t for _, t in kept]
        if not kept:
            return
    bad = [t for t in traces if "infra" in t]
    if len(bad) > len(behs) // 2 + 1:
        # the proxy cannot even be started and configured
        chk.violation("the proxy cannot be started: " + bad[0]["infra"], {"behaviour": behs[0]})
        return
    ok = [(b, t) for b, t in zip(behs, traces) if "infra" not in t]
    for b in [b for b, t in zip(behs, traces) if t.get("broke")][:3]:
        # the proxy did not even let the driver go on (a listener gone, the process dead)
        again = [_rec((0, b, dict(wait=10.0, settle=0.03), chk.until(620))) for _ in range(2)]
        if all(a.get("broke") for a in again):
            chk.violation("%s: the behaviour cannot be driven to its end: %s" % (name, again[0]["infra"]), {"behaviour": b})
            break
    m, st = judge(c, [t for _, t in ok])
    chk.add(traces_validated_against_impl=len(ok), trace_steps=sum(len(t["steps"]) for _, t in ok), infra_skipped=len(bad))
    if ok:
        chk.sample(dict(model=name, inputs=[s["ev"] for s in ok[0][1]["steps"]], observed_last=ok[0][1]["steps"][-1]["out"]))
    rejected = [(b, t, n) for (b, t), n in zip(ok, m) if n < len(t["steps"])]
    chk.log("%s: %d behaviours recorded, %d not accepted" % (name, len(ok), len(rejected)))
    shown = 0
    for b, t, n in sorted(rejected, key=lambda x: x[2])[:12]:
        if shown and chk.enough():
            break
        if n < len(b["steps"]):
            b = dict(b, steps=b["steps"][:n + 1])
        # a rejected recording is only believed if it happens again under generous timing
        again = pool.map(_rec, [(i, b, dict(wait=10.0, settle=0.03), chk.until(620)) for i in range(3)], chunksize=1)
        again = [a for a in again if a["steps"]]
        m2, _ = judge(c, again) if again else ([], None)
        hit = [(a, k) for a, k in zip(again, m2) if k < len(a["steps"])]
        if hit:
            a, k = hit[0]
            chk.violation("%s: observed behaviour is not a behaviour of the specification: %s" % (
                name, json.dumps(a["steps"][k])), dict(model=name, presets=str(c["Presets"]), behaviour=b, detail=explain(a, k, b)))
            shown += 1
            if shown >= 3:
                break
        else:
            chk.add(unconfirmed=1)
            chk.log("not confirmed:", json.dumps(explain(t, n, b))[:1500])


def run(chk):
    prof = PROFILES[chk.pid]
    quick = not chk.thorough
    props = prof.get("props", [chk.pid] if chk.pid in ("C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12", "C15") else [])
    budget = prof.get("quick", 320) if quick else prof.get("deep", 3000)
    build("amqpprox")
    chk.log("built")
    jobs = []
    ex = ThreadPoolExecutor(4)
    mcs = list(prof["mc"]) + ([] if quick else list(prof.get("mc_deep", [])))

    def mc(n, c):
        return ("mc", n, c, tlc.check("ProxyMC", tlc.cfg_text(c, spec="Spec", invariants=["TypeOK"], properties=props, view="View"),
                                      timeout=300 if quick else 3000, workers=4 if quick else NPROC, heap="4g" if quick else "12g"))

    def gen(n, c, depth, w):
        num = max(10, budget * w // sum(x[3] for x in prof["gen"]))
        r, k = [], 0
        per = 400
        while num > 0:
            r += tlc.behaviours("ProxyGen", tlc.cfg_text(dict(c, Depth=depth), spec="GenSpec"), min(num, per), depth + 2,
                                chk.seed * 1000 + k, timeout=600)
            num -= per
            k += 1
        return ("sim " + n, n, c, r)

    def cov(n, c, depth, pairs):
        b, classes, st = tlc.cover("ProxyCover", tlc.cfg_text(dict(c, Depth=depth, Pairs=pairs), spec="CSpec", view="CView"), timeout=900)
        cap = prof.get("covcap", 1500) if quick else 20000
        if len(b) > cap:
            b = random.Random(chk.seed).sample(b, cap)
        return ("cover " + n, n, c, b, classes, st)
    covers = prof.get("cover", []) if quick else prof.get("cover_deep", prof.get("cover", []))
    for n, c, d, pr in covers:
        jobs.append(ex.submit(cov, n, c, d, pr))
    for n, c, d, w in prof["gen"]:
        jobs.append(ex.submit(gen, n, c, d, w))
    for n, c in mcs:
        jobs.append(ex.submit(mc, n, c))
    res = [j.result() for j in jobs]
    for r in res:
        if r[0] == "mc":
            chk.mc(r[1], r[3])
            chk.log("model %s: %s" % (r[1], r[3]))
    with Pool(NPROC) as pool:
        for r in res:
            if r[0] == "mc":
                continue
            if r[0].startswith("cover"):
                chk.add(transition_classes=r[4])
            conform(chk, r[0], r[2], r[3], pool)
            if len(chk.violations) >= 3 or chk.enough():
                break
    if chk.pid in ("C07", "C10", "C11") and not chk.enough():
        import check_pending
        check_pending.pending(chk, check_pending.OPS[chk.pid], 60)
    if chk.pid == "C04" and not chk.enough():
        import check_dns
        check_dns.connections(chk, 60)
    if chk.pid == "C15" and not chk.enough():
        import check_control
        check_control.control(chk, 60)
    chk.assumptions += [
        "The specification's steps are one input followed by the proxy's reaction until it is quiet; overlapping inputs are explored only where listed",
        "TCP on loopback behaves like TCP elsewhere; backends are distinct loopback addresses"]
