"""C14, C20: listeners and TLS settings against spec/Listeners.tla."""
from component import Component
from framework import build
import listendrv


def run(chk):
    build("amqpprox")
    chk.log("built")
    T = chk.thorough
    s = Component("Listeners", listendrv.record, record_slow=listendrv.record_slow)
    ops = {"Cmd", "Burst", "Same", "Bad", "Occupy", "Verify", "Cert", "Conn", "Close"}
    mc = dict(Ports={1, 2}, Cons={"c1"}, Seqs={2}, Helds={False}, Ops=ops - {"Same"}, Pres={"cert"}, Routes={"plain", "tls"})
    s.mc(chk, "listeners", mc, properties=["C14", "C20"], view="core", timeout=2500)
    if chk.pid == "C14":
        cov = dict(mc, Helds={False, True}, Ops={"Cmd", "Burst", "Occupy"})
        s.conform(chk, "cover", cov, s.cover(chk, cov, 3, 8000 if T else 500))
        sim = dict(Ports={1, 2, 3}, Cons={"c1", "c2"}, Seqs={2, 3}, Helds={False, True}, Ops=ops | {"Cmd2", "Conn2"}, Pres={"cert", "nocert"}, Routes={"plain", "tls"})
        s.conform(chk, "random", sim, s.gen(chk, sim, 3000 if T else 240, 30, seed=2))
    else:
        cov = dict(mc, Ports={1}, Ops={"Cmd", "Verify", "Cert", "Conn"})
        s.conform(chk, "cover", cov, s.cover(chk, cov, 5, 20000 if T else 1500))
        sim = dict(Ports={1, 2}, Cons={"c1", "c2"}, Seqs={2}, Helds={False}, Ops={"Cmd", "Verify", "Cert", "Conn", "Conn2", "Conn3", "Close"}, Pres={"cert"}, Routes={"plain", "tls", "pp", "pt", "tp", "tt"})
        s.conform(chk, "random", sim, s.gen(chk, sim, 4000 if T else 300, 40, seed=3))
