"""C09: data-rate limits against spec/DataRate.tla."""
import ratedrv
from component import Component
from framework import build

ALL = {"Limit", "Open", "Send", "Recv", "Fin", "BFin", "Forget", "Pass"}


def run(chk):
    build("amqpprox")
    chk.log("built")
    T = chk.thorough
    c = Component("DataRate", ratedrv.record, record_slow=ratedrv.record_slow)
    mc = dict(Kinds={"plain", "tls"}, Conns={"c1", "c2"} if T else {"c1"}, Vhosts={"a"}, Quotas={1000}, Chunks={600, 1000},
              Steps={500, 1000}, Ops=ALL - {"Recv"})
    c.mc(chk, "rates", mc, invariants=["C09"], properties=["Quota"], view="View", constraints=["Small"], timeout=2500)
    cov = dict(Kinds={"plain", "tls"}, Conns={"c1"}, Vhosts={"a"}, Quotas={250, 1000}, Chunks={600, 3000}, Steps={500, 999, 1000}, Ops=ALL)
    c.conform(chk, "cover", cov, c.cover(chk, cov, 5 if T else 4, 6000 if T else 300))
    sim = dict(Kinds={"plain", "tls"}, Conns={"c1", "c2", "c3"}, Vhosts={"a", "b"}, Quotas={200, 500, 1000, 4000}, Chunks={40, 500, 1000, 4096},
               Steps={1, 250, 500, 999, 1000, 1300}, Ops=ALL)
    c.conform(chk, "random", sim, c.gen(chk, sim, 3000 if T else 60, 40))
    busy = dict(sim, Conns={"c1", "c2"}, Quotas={200, 500, 1000}, Chunks={40, 300, 500, 1000, 4096}, Ops={"Limit", "Open", "Send", "More", "Most", "Pass"})
    c.conform(chk, "busy", busy, c.gen(chk, busy, 3000 if T else 140, 40, seed=2))
    chk.assumptions += ["The proxy's monotonic clock is the driver's (time passes in milliseconds between inputs)",
                        "A chunk reaches the proxy as one TCP segment (plain) or one TLS record"]
