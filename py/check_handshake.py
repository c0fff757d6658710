"""C02 and C19: what the handshake carries, against spec/Handshake.tla."""
import random
import handdrv
from component import Component
from framework import build

ALL = {"p/p", "s/p", "p/x", "p/t", "p/xt", "s/xt", "s/x", "p/Dx,p", "p/Dp,x", "p/Dxt,p", "s/Dt,x", "p/Dx,t", "p/n", "p/nx", "s/nx"}


def chains(behs, n, seed):
    """Joins one-step behaviours into longer ones of the same layout (the specification's steps are independent)."""
    by = {}
    for b in behs:
        by.setdefault(b["pre"], []).append(b["steps"][0])
    out = []
    for p, st in sorted(by.items()):
        random.Random(seed).shuffle(st)
        out += [dict(pre=p, steps=st[i:i + n]) for i in range(0, len(st), n)]
    return out


def run(chk):
    build("amqpprox")
    chk.log("built")
    c = Component("Handshake", handdrv.record, record_slow=handdrv.record_slow)
    deeps = {8, 9, 31, 64, 99}
    T = chk.thorough
    mc = dict(Layouts=ALL if T else {"p/p", "s/xt", "p/Dp,x"}, Deeps=deeps, Ops={"Leaf", "Names", "Deep", "Args", "Seg", "Own", "Forge", "Broker"})
    c.mc(chk, "transformation", mc, invariants=["C02", "C19"], constraints=["Once"])
    if chk.pid == "C02":
        k = dict(Layouts={"p/p"}, Deeps=deeps, Ops={"Leaf", "Names", "Deep", "Args", "Big"})
        c.conform(chk, "values", k, chains(c.cover(chk, k, 1), 12, chk.seed))
        k = dict(Layouts={"p/p", "s/p", "p/t", "p/x"}, Deeps=deeps, Ops={"Seg", "Forge"})
        c.conform(chk, "segments", k, chains(c.cover(chk, k, 1), 8, chk.seed))
        k = dict(Layouts={"p/p", "p/t"}, Deeps=deeps, Ops={"Broker"})
        c.conform(chk, "broker's part", k, chains(c.cover(chk, k, 1), 16, chk.seed))
        k = dict(Layouts={"p/p", "s/p", "p/t", "s/xt", "p/Dx,p"}, Deeps=deeps, Ops={"Rnd"})
        c.conform(chk, "random", k, c.gen(chk, k, 4000 if T else 90, 8))
    else:
        k = dict(Layouts=ALL, Deeps=deeps, Ops={"Own", "Seg"} if T else {"Own"})
        c.conform(chk, "identity", k, chains(c.cover(chk, k, 1), 12, chk.seed))
        k = dict(Layouts=ALL, Deeps=deeps, Ops={"Rnd"})
        c.conform(chk, "random", k, c.gen(chk, k, 4000 if T else 120, 8))
    chk.assumptions += ["Start-Ok frames are at most 131072 bytes", "Values are the boundary samples of each field type"]
