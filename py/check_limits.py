"""C08: connection-rate limits against spec/ConnLimits.tla."""
import limitdrv
from component import Component
from framework import build

ALL = {"Set", "ASet", "Print", "Conn", "Pass", "Pause", "Unpause", "Quit"}


def run(chk):
    build("amqpprox")
    chk.log("built")
    T = chk.thorough
    c = Component("ConnLimits", limitdrv.record, record_slow=limitdrv.record_slow)
    base = dict(Mapped={"a", "b"}, Unmapped={"u"}, Limits={0, 1, 2}, Counts={1, 2}, Steps={250, 750}, Pres={"x"}, Exact=True)
    c.mc(chk, "limits", dict(base, Mapped={"a"}, Unmapped={"b"} if T else set(), Limits={0, 1, 2} if T else {0, 2}, Counts={1, 2} if T else {1}, Ops=ALL - {"ASet", "Print"}),
         invariants=["C08"], properties=["Apart", "Fair"], view="core", constraints=["Small"], timeout=2500)
    cov = dict(base, Mapped={"a"}, Counts={1, 3}, Steps={250, 500, 749, 750, 999, 1000}, Ops=ALL - {"ASet", "Print"})
    c.conform(chk, "cover", dict(cov, Exact=False), c.cover(chk, cov, 4, 4000 if T else 400))
    sim = dict(base, Mapped={"a", "b", "w"}, Limits={0, 1, 2, 3, 7}, Counts={1, 2, 3, 8}, Steps={1, 249, 250, 500, 749, 750, 999, 1000, 1250}, Ops=ALL)
    c.conform(chk, "random", dict(sim, Exact=False), c.gen(chk, sim, 4000 if T else 130, 40))
    chk.assumptions += ["The proxy's monotonic clock is the driver's (time passes in milliseconds between inputs)"]
