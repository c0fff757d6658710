"""C01: the byte streams of open connections against spec/Relay.tla."""
import relaydrv, tlc
from component import Component
from framework import build
from tlc import Sub

SIZES = {8, 9, 40, 4096, 32768, 65543, 131080, 149999, 150000}


def run(chk):
    build("amqpprox")
    chk.log("built")
    c = Component("Relay", relaydrv.record, record_slow=relaydrv.record_slow)
    st = tlc.check("RelayLoop", tlc.cfg_text(dict(MaxFrame=4 if chk.thorough else 3, Total=11 if chk.thorough else 8), spec="Spec",
                                             invariants=["Account", "Prompt", "Room"], properties=["Delivered"]), timeout=2500, workers=4)
    chk.mc("read-process-write loop", st)
    chk.log("model loop:", st)
    c.mc(chk, "streams", dict(Kinds={"plain"}, Conns={"c1", "c2"} if chk.thorough else {"c1"}, Sizes={8, 9, 12} if chk.thorough else {8, 9}, Cuts={1, 7}, Bulk=Sub("BulkTiny"),
                              Ops={"Write", "Dribble", "All", "Stall", "Resume", "Last"}),
         invariants=["C01"], properties=["C01Step"], view="View", constraints=["Small"], timeout=2500)
    base = dict(Conns={"c1", "c2"}, Cuts={1, 2, 3, 6, 7, 8})
    kinds = {"plain", "tlsin", "tlsout", "tls"}
    cov = dict(base, Kinds=kinds, Conns={"c1"}, Sizes=SIZES if chk.thorough else {8, 9, 4096, 65543, 150000}, Bulk=Sub("BulkQuick"), Ops={"Write", "Dribble", "Last", "Stall"})
    if chk.thorough:
        c.conform(chk, "cover", cov, c.cover(chk, cov, 2, 12000))
    else:
        c.conform(chk, "cover", cov, c.cover(chk, cov, 2, 500))
    full = dict(base, Kinds=kinds, Sizes=SIZES, Bulk=Sub("BulkQuick"), Ops={"Write", "Dribble", "All", "Stall", "Resume", "Last"})
    c.conform(chk, "sim", full, c.gen(chk, full, 6000 if chk.thorough else 120, 14))
    small = dict(base, Kinds=kinds, Sizes={8, 9, 11, 40, 1000}, Bulk=Sub("BulkSmall"), Ops={"Write", "Dribble", "All", "Stall", "Resume"})
    c.conform(chk, "sim small", small, c.gen(chk, small, 6000 if chk.thorough else 160, 40, seed=1))
    chk.assumptions += ["Frames are at most 150000 bytes in all; at most two connections at a time",
                        "A step ends when the proxy is quiet; within Dribble and All steps input and output overlap freely"]
