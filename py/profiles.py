"""Which part of Proxy.tla each property's check explores."""
from tlc import Sub

V = {"v1", "v2"}
LIFE = "Dial Go CSend CBeat CClose CCloseOk CEof BGo BSend BClose BCloseOk BEof"
CFG = "BAdd BDel FAdd FPart FDel Map Unmap Dflt NoDflt DcSet"


def consts(ops, presets, cl=1, b=2, cs={5}, bs={4}, caps={False}, m=1):
    return dict(Clients={"c%d" % (i + 1) for i in range(cl)}, Vhosts=V, Backends={"b%d" % (i + 1) for i in range(b)},
                Farms={"f1", "f2"}, DCs={"d1", "d2"}, Ops=set(ops.split()), CStops=set(cs), BStops=set(bs),
                Caps=set(caps), Presets=Sub(presets), MaxMsg=m)


ALLK, ALLB, BOTH = {1, 2, 3, 4, 5}, {1, 2, 3, 4}, {False, True}

# mc: small instances explored exhaustively; gen: larger ones simulated and replayed
PROFILES = {
    "C03": dict(
        cover=[("routing", consts("Dial Go CEof Map Unmap Dflt NoDflt FDel BDel BAdd Prints", "PresetsRoute", cs={4, 5}), 4, False)],
        mc=[("routing", consts("Dial CEof Map Unmap Dflt NoDflt FDel BDel", "PresetsRoute"))],
        mc_deep=[("routing+config", consts("Dial Go CEof " + CFG, "PresetsRoute", cs={4, 5}))],
        gen=[("routing", consts("Dial Go CEof Prints Down Up Pause Unpause " + CFG, "PresetsRoute", cl=2, b=3, cs={4, 5}), 20, 3),
             ("auth", consts("Dial CEof AuthReply Auth Down Up " + CFG, "PresetsAuth", cl=2, b=3), 20, 1)]),
    "C04": dict(
        cover=[("failover", consts("Dial CEof Up Down DcSet FPart", "PresetsFail", b=3), 6, False)],
        mc=[("failover", consts("Dial CEof Up Down DcSet FPart", "PresetsFail", b=3))],
        mc_deep=[("failover+auth", consts("Dial CEof Up Down DcSet FPart FAdd AuthReply Auth", "PresetsFail", b=3))],
        gen=[("failover", consts("Dial CEof BEof Up Down DcSet FPart", "PresetsFail", cl=3, b=3, bs={1, 4}), 24, 3),
             ("reconf", consts("Dial CEof Up Down DcSet FPart FAdd BAdd BDel Auth AuthReply Pause Unpause", "PresetsFail", cl=2, b=3), 24, 1),
             ("wide", consts("Dial CEof Down Up", "PresetsFail", cl=2, b=5), 30, 1)]),
    "C05": dict(
        cover=[("robin", consts("Dial CEof Up Down FAdd FPart", "PresetsRobin", b=3), 5, True)],
        mc=[("robin", consts("Dial CEof Up Down", "PresetsRobin", b=3))],
        mc_deep=[("robin+conf", consts("Dial CEof Up Down DcSet FPart FAdd", "PresetsRobin", b=3))],
        gen=[("robin", consts("Dial CEof BEof Up Down", "PresetsRobin", cl=3, b=3), 30, 3),
             ("many", consts("Dial CEof Up", "PresetsRobin", cl=4, b=5), 30, 1)]),
    "C06": dict(
        cover=[("auth", consts("Auth AuthReply Force VForce Dial Go CBeat CEof Lim Unmap Down", "PresetsAuth", cs={4, 5}, caps=BOTH), 5, False)],
        mc=[("auth", consts("Dial CEof AuthReply Auth VForce Force Down", "PresetsAuth", caps=BOTH))],
        mc_deep=[("auth+life", consts("Auth AuthReply Down Up Pause Unpause Force " + LIFE, "PresetsAuth", cs={3, 5}, caps=BOTH))],
        gen=[("auth", consts("Auth AuthReply Down Force VForce Dial Go CSend CBeat CEof BEof BGo Conns Map", "PresetsAuth", cl=3, b=2,
                             cs={3, 5}, bs={1, 4}, caps=BOTH), 20, 3),
             ("auth+pause", consts("AuthReply Pause Unpause Dial Go CBeat CEof Conns", "PresetsAuth", cl=3, b=2, cs={3, 5}, caps=BOTH), 20, 1)]),
    "C07": dict(
        cover=[("pause", consts("Pause Unpause Dial Go CSend CBeat CEof BGo BSend BEof Conns", "PresetsPause", cl=2, cs={4, 5}, bs={2, 4}), 5, False),
               ("pause+auth", consts("Pause Unpause Dial CBeat CEof AuthReply Conns", "PresetsAuth", cs={5}), 5, False)],
        covcap=900,
        mc=[("pause", consts("Pause Unpause Dial Go CSend CBeat CEof BSend BEof Lim Down Up", "PresetsPause", cs={4, 5}))],
        mc_deep=[("pause2", consts("Pause Unpause VForce Force Dial Go CSend CBeat CEof BGo BSend", "PresetsPause", cl=2, cs={4, 5}, bs={2, 4}))],
        gen=[("pause", consts("Pause Unpause Dial Go CSend CBeat CEof BSend BEof BGo Conns Prints Down Up", "PresetsPause", cl=3, b=2,
                              cs={3, 4, 5}, bs={1, 2, 3, 4}, m=4), 20, 3),
             ("pause+admin", consts("Pause Unpause Dial Go CSend CBeat CEof BSend BEof Conns Lim Map Unmap VForce Force Auth AuthReply",
                                    "PresetsPause", cl=3, b=2, cs={4, 5}, m=3), 20, 1)]),
    "C10": dict(
        cover=[("life", consts("Conns " + LIFE, "PresetsPlain", cs=ALLK, bs=ALLB, m=2), 7, True),
               ("life2", consts("Conns " + LIFE, "PresetsPlain", cl=2, cs={3, 5}, bs={2, 4}), 5, False)],
        mc=[("life", consts("Conns VBack " + LIFE, "PresetsPlain", cs=ALLK, bs=ALLB))],
        mc_deep=[("life2", consts("Conns Force Graceful " + LIFE, "PresetsPlain", cl=2, cs={2, 5}, bs={2, 4}))],
        gen=[("life", consts("Conns Down " + LIFE, "PresetsPlain", cl=3, b=2, cs=ALLK, bs=ALLB, m=3), 20, 3),
             ("life+admin", consts("Conns Graceful Pause Unpause Auth AuthReply " + LIFE, "PresetsPlain", cl=3, b=2, cs=ALLK, bs=ALLB, m=3), 20, 1)]),
    "C11": dict(
        cover=[("admin", consts("Conns Force Graceful VForce VBack " + LIFE, "PresetsPlain", cs=ALLK, bs=ALLB), 7, True),
               ("admin2", consts("Conns Force Graceful VForce VBack Dial CSend CCloseOk BCloseOk BSend CEof BEof", "PresetsPlain", cl=2), 6, False)],
        mc=[("admin", consts("Conns Force Graceful VForce VBack " + LIFE, "PresetsPlain", cs=ALLK, bs=ALLB))],
        mc_deep=[("admin2", consts("Force Graceful VForce VBack Pause Unpause " + LIFE, "PresetsPlain", cl=2, cs={4, 5}, bs={2, 4}))],
        gen=[("admin", consts("Conns Force Graceful VForce VBack " + LIFE, "PresetsPlain", cl=3, b=2, cs=ALLK, bs=ALLB, m=3), 20, 3),
             ("admin+pause", consts("Conns Force Graceful VForce VBack Pause Unpause Auth AuthReply " + LIFE, "PresetsPlain", cl=3, b=2,
                                    cs=ALLK, bs=ALLB, m=3), 20, 1)]),
    "C12": dict(
        cover=[("refusals", consts("Dial Go CEof BClose BEof BGo Lim DLim Map Unmap Dflt NoDflt FDel BDel", "PresetsRoute", cs={4, 5}, bs=ALLB), 4, False)],
        mc=[("refusals", consts("Dial Go CEof BClose BEof BGo Lim DLim Unmap", "PresetsRoute", cs={4, 5}, bs=ALLB))],
        mc_deep=[("refusals+auth", consts("Dial Go CEof BClose BEof BGo Lim DLim Map Unmap Dflt NoDflt FDel Auth AuthReply", "PresetsRoute",
                                         cs={4, 5}, bs=ALLB, caps=BOTH))],
        gen=[("refusals", consts("Dial Go CEof BClose BEof BGo BSend CSend Lim DLim Map Unmap Dflt NoDflt FDel BDel", "PresetsRoute", cl=3, b=2,
                                 cs={3, 4, 5}, bs=ALLB, m=2), 20, 3),
             ("refusals+auth", consts("Dial Go CEof BClose BEof BGo Lim DLim Unmap Auth AuthReply Pause Unpause", "PresetsAuth", cl=2, b=2,
                                      cs={4, 5}, bs=ALLB, caps=BOTH), 20, 1)]),
    "C15": dict(
        cover=[("config", consts("Prints " + CFG, "PresetsCtl"), 4, False),
               ("limits", consts("Prints Lim DLim Pause Unpause Dial CEof", "PresetsCtl"), 5, False),
               ("malformed", consts("Bad Prints Dial", "PresetsCtl"), 3, True)],
        mc=[("config", consts("Prints BAdd BDel FAdd FDel Map Unmap", "PresetsCtl"))],
        mc_deep=[("config2", consts("Prints " + CFG, "PresetsCtl")), ("config+limits", consts("Prints Lim DLim Dial CEof " + CFG, "PresetsCtl"))],
        gen=[("config", consts("Prints Conns Lim DLim Pause Unpause Dial CEof CSend " + CFG, "PresetsCtl", cl=2, b=3), 30, 3),
             ("ctl", consts("Prints Dial CSend BSend " + CFG, "PresetsCtl", cl=2, b=3, m=4), 40, 1),
             ("malformed", consts("Bad Prints Conns Lim Pause Unpause Dial CSend CEof BAdd BDel FAdd Map Unmap", "PresetsCtl", cl=2, b=3, m=4), 40, 2)]),
}
