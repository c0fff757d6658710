"""C21: decoding and encoding of AMQP against spec/Codec.tla."""
from component import Component, LineDriver
from framework import build

KINDS = {"table", "start", "startok", "tune", "tuneok", "open", "openok", "close", "frame"}


def encode(ev, beh):
    if ev is None:
        return "HELLO"
    if ev["op"] == "Deep":
        return "D %s %s %d" % (ev["kind"], ev["type"], ev["n"])
    return "C %s %d %s" % (ev["kind"], ev["room"], bytes(ev["bytes"]).hex())


def decode(ev, line):
    f = line.split()
    ok = f[0] if ev.get("kind") == "frame" else f[0] == "ok"
    return dict(ok=ok, rest=int(f[1]), fits=f[2] == "1", enc=[] if f[3] == "-" else list(bytes.fromhex(f[3])))


def chain(behs, n=40):
    """The steps do not depend on each other: many in one behaviour."""
    steps = [s for b in behs for s in b["steps"][-1:]]
    return [{"pre": "codec", "steps": steps[i:i + n]} for i in range(0, len(steps), n)]


def run(chk):
    build("codec", variant="asan")
    chk.log("built")
    T = chk.thorough
    d = LineDriver("codec", encode, decode, variant="asan")
    c = Component("Codec", d)
    full = dict(Ops={"Good", "Cut", "Set", "Deep"}, Kinds=KINDS)
    c.mc(chk, "codec", full, properties=["C21"], view="core", timeout=2500)
    c.conform(chk, "all", full, chain(c.cover(chk, full, 1)))
    sim = dict(Ops={"Rnd"}, Kinds=KINDS)
    c.conform(chk, "random", sim, c.gen(chk, sim, 2000 if T else 120, 100 if T else 60))
    chk.assumptions += ["Integers are identified with their bytes", "Nesting beyond 30 levels may be refused"]
