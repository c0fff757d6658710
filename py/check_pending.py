"""Sessions on their way to a broker (spec/Pending.tla): part of C10, C11 and C07."""
from component import Component
import pendingdrv

BASE = {"Open", "Answer", "Again", "Leave", "Force", "VForce", "Broker", "Flip"}
OPS = {"C10": BASE, "C11": {"Open", "Answer", "Again", "Force", "VForce", "Flip", "Leave"}, "C07": BASE | {"Pause", "Unpause"}}


def pending(chk, ops=BASE, num=120):
    T = chk.thorough
    s = Component("Pending", pendingdrv.record, record_slow=pendingdrv.record_slow)
    s.mc(chk, "pending", dict(Clients={"c1", "c2"}, Ops=(set(ops) - {"Again"} | {"Pause", "Unpause"}) - (set() if T else {"Flip", "VForce", "Broker"}), Pres={"x"}), properties=["C10", "C07"], view="core", constraints=["Small"], timeout=2500)
    sim = dict(Clients={"c1", "c2", "c3"}, Ops=set(ops), Pres={"x"})
    s.conform(chk, "pending", sim, s.gen(chk, sim, num * (20 if T else 1), 25, seed=8))
