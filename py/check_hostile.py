"""C13: hostile peers against spec/Hostile.tla (the proxy built with address and undefined behaviour sanitizers)."""
from component import Component
from framework import build
import hostiledrv


def chain(behs, n):
    steps = [(b["pre"], s) for b in behs for s in b["steps"][-1:]]
    out = []
    for p in sorted({p for p, _ in steps}):
        mine = [s for q, s in steps if q == p]
        out += [{"pre": p, "steps": mine[i:i + n]} for i in range(0, len(mine), n)]
    return out


def run(chk):
    build("amqpprox", variant="asan")
    chk.log("built")
    T = chk.thorough
    s = Component("Hostile", hostiledrv.record, record_slow=hostiledrv.record_slow)
    full = dict(Ops={"Odd", "Cut", "Bump"}, Variants={"asan"}, Most=10000)
    s.mc(chk, "hostile", dict(full, Most=1), properties=["C13"], view="core", timeout=2500)
    b = chain(s.cover(chk, full, 1), 25)
    chk.log(len(b), "chains")
    s.conform(chk, "each", full, b)
    sim = dict(full, Ops={"Rnd", "Ctl", "Tls"})
    s.conform(chk, "random", sim, s.gen(chk, sim, 3000 if T else 160, 60 if T else 30, seed=4))
    chk.assumptions += ["Memory errors are those the address and undefined-behaviour sanitizers see",
                        "Bytes are the by-the-book message of each stage with one or two changes, preceded or followed by odd frames"]
