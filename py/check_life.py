"""C22: starting, stopping and crashing, against spec/Lifecycle.tla."""
from component import Component
from framework import build
import lifedrv

BAD = {"nolisten", "noport", "nodns", "unknown", "verbosity", "help"}


def run(chk):
    build("amqpprox")
    chk.log("built")
    go(chk, 5000 if chk.thorough else 300)


def go(chk, num):
    T = chk.thorough
    s = Component("Lifecycle", lifedrv.record, record_slow=lifedrv.record_slow)
    ops = {"Start", "Exit", "Crash", "Conn", "Close", "Occupy", "Configure", "Listen", "Half", "Abort"}
    mc = dict(Insts={"i1", "i2"} if T else {"i1"}, Slots={"k1", "k2"}, Args={"none", "simple", "noport"}, Ops=ops, Pres={"x"})
    s.mc(chk, "lifecycle", mc, properties=["C22"], view="core", timeout=2500)
    cov = dict(mc, Insts={"i1"}, Slots={"k1"}, Args={"none", "simple", "verbose"} | BAD)
    s.conform(chk, "cover", cov, s.cover(chk, cov, 6 if T else 5, 4000 if T else 500))
    sim = dict(Insts={"i1", "i2"}, Slots={"k1", "k2", "k3"}, Args={"none", "simple", "verbose", "nolisten", "noport", "nodns"}, Ops=ops | {"Start2"}, Pres={"x"})
    s.conform(chk, "random", sim, s.gen(chk, sim, num, 30, seed=9))
    chk.assumptions += ["A crash is SIGKILL; the machine and its files survive it"]
