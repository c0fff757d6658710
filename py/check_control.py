"""The control channel (spec/Control.tla): part of C15 and C16."""
from component import Component
from framework import build
import controldrv


def control(chk, num):
    build("amqpprox", "amqpprox_ctl")
    T = chk.thorough
    s = Component("Control", controldrv.record, record_slow=controldrv.record_slow)
    base = dict(Groups={"g1", "g2"}, Conns={"k1", "k2"}, Hows={"line", "half"}, Filters={"all"}, Pres={"x"})
    cmds = {"Fill", "Ask", "Odd", "Slow", "Late", "Drop"}
    lis = {"Listen", "Hold", "Pass", "Drop"}
    s.mc(chk, "control channel", dict(base, Ops=cmds | lis), properties=["C15", "C16"], view="core")
    k = dict(base, Groups={"g1", "g2", "g3"}, Conns={"k1", "k2", "k3"}, Hows={"line", "bytes", "crlf", "half", "spaces", "prog", "prog1"})
    if chk.pid == "C15":
        k = dict(k, Ops=cmds)
        s.conform(chk, "control channel", k, s.gen(chk, k, num * (20 if T else 1), 18, seed=6))
    else:
        k = dict(k, Filters={"all", "overall"}, Pres={"crowd"}, Ops=lis | {"Ask", "Pass2", "Hold2"})
        s.conform(chk, "statistics listeners", k, s.gen(chk, k, num * (20 if T else 1), 20, seed=7))
