"""C18: the buffer pool against spec/Buffers.tla."""
from component import Component, LineDriver
from framework import build

POOLS = {"server": [32, 64, 128, 256, 512, 1024, 4096, 16384, 32768, 65536, 131072], "small": [8, 24, 100], "one": [64], "none": []}


def encode(ev, beh):
    if ev is None:
        c = POOLS[beh["pre"]]
        # the pool accepts its classes in any order
        return "POOL " + " ".join(map(str, c if len(beh["steps"]) % 2 else reversed(c)))
    return " ".join(str(x) for x in [ev["op"], ev.get("h"), ev.get("g"), ev.get("s")] if x is not None)


def decode(ev, line):
    f = line.split()
    return dict(size=int(f[0]), ok=f[1] == "1", spill=int(f[2]), stats=[[int(y) for y in x.split(":")] for x in f[3:]])


def run(chk):
    build("bufpool")
    c = Component("Buffers", LineDriver("bufpool", encode, decode))
    ops = {"Acquire", "Release", "Destroy", "Swap", "Fill", "Churn"}
    small = dict(Pools={"small", "one", "none"}, Handles={"h1", "h2"}, Ops={"Acquire", "Release", "Swap"})
    c.mc(chk, "pool", dict(small, Pools={"small", "one", "none"},
                           Handles={"h1", "h2", "h3"} if chk.thorough else {"h1", "h2"}),
         invariants=["C18"], view="core", constraints=["Small"], timeout=1500)
    full = dict(Pools=set(POOLS), Handles={"h%d" % i for i in range(1, 7)}, Ops=ops)
    cov = dict(Pools=set(POOLS), Handles={"h1", "h2"}, Ops=ops)
    c.conform(chk, "cover", cov, c.cover(chk, cov, 3 if chk.thorough else 2, 1500))
    c.conform(chk, "sim", full, c.gen(chk, full, 3000 if chk.thorough else 300, 60 if chk.thorough else 40))
    chk.assumptions += ["One thread uses the pool (it is documented as not thread-safe)", "Sizes are the class boundaries and their neighbours"]
