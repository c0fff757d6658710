"""C23: what CONN says of the connections, against spec/Listing.tla."""
from component import Component
from framework import build
from tlc import Sub
import amqp, listingdrv

OPS = {"Dial", "Open", "Pass", "Pause", "Unpause", "SPause", "End", "Sweep", "Names"}


def run(chk):
    build("amqpprox")
    chk.log("built")
    go(chk, 4000 if chk.thorough else 240)


def go(chk, num):
    T = chk.thorough
    s = Component("Listing", listingdrv.record, record_slow=listingdrv.record_slow)
    o = dict(OpenF=1, OpenB=len(amqp.openok()))
    mc = dict(Cons={"k1", "k2"}, Srcs={"s1", "s2"} if T else {"s1"}, Dsts={"d1"}, Routed=Sub("R2"), Amounts=Sub("A1"), Ends={"client", "force"}, Ops=OPS, Pres={"x"}, **o)
    s.mc(chk, "listing", mc, properties=["C23"], view="core", constraints=["Small"], timeout=2500)
    cov = dict(mc, Cons={"k1"}, Srcs={"s1", "s9"}, Ends={"client", "rst", "server", "clean", "force"}, Pres={"x", "named"})
    s.conform(chk, "cover", cov, s.cover(chk, cov, 7 if T else 6, 3000 if T else 400))
    sim = dict(Cons={"k1", "k2", "k3"}, Srcs={"s1", "s2", "s9"}, Dsts={"d1", "d2", "d9"}, Routed=Sub("R3"), Amounts=Sub("A4"),
               Ends={"client", "rst", "server", "clean", "force"}, Ops=OPS | {"Dial2", "Open2", "Pass2"}, Pres={"x", "named"}, **o)
    s.conform(chk, "random", sim, s.gen(chk, sim, num, 30, seed=11))
