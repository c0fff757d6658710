"""C16: statistics against spec/Stats.tla: the collector over real sessions' state, and the real binary's reports."""
from component import Component, LineDriver
from framework import build
from tlc import Sub
import amqp, check_control, statsdrv

SRC = {"s1": "127.0.0.1", "s11": "127.0.0.11", "s2": "127.0.0.2"}
BE = {"b1": ("10.0.0.1", 5672), "b2": ("10.0.0.1", 5673), "b3": ("10.0.0.11", 5672), "-": ("0.0.0.0", 0)}
BK = {"%s_%d" % v: k for k, v in BE.items()}
SK = {v: k for k, v in SRC.items()}
ZERO = [0] * 17


def encode(ev, beh):
    if ev is None:
        return "Init"
    op = ev["op"]
    f = [op]
    if op == "Open":
        f += [ev["s"], SRC[ev["src"]], ev["r"][0] or "@"] + list(BE[ev["r"][1]])
    elif op == "Traffic":
        f += [ev["s"], ev["d"]] + ev["a"]
    elif op == "Flag":
        f += [ev["s"], ev["f"]]
    elif op == "End":
        f += [ev["s"], ev["k"]]
    elif op == "PerSource":
        f.append(int(ev["on"]))
    elif op == "Report":
        m = ev["m"]
        f.append(m["w"])
        if m["w"] == "end":
            f += [m["s"], m["k"]]
        elif m["w"] == "traffic":
            f += [m["s"], m["d"]] + m["a"]
    return " ".join(map(str, f))


def decode(ev, line):
    if line == ".":
        return dict(ov=ZERO, v=[], b=[], s=[])
    ov, v, b, s = line.split(" ")

    def view(x, names):
        r = []
        for e in x.split(";"):
            if "=" in e:
                k, row = e.rsplit("=", 1)
                row = list(map(int, row.split(",")))
                if row != ZERO:
                    r.append([names.get(k, k), row])
        return r
    return dict(ov=list(map(int, ov.split(","))), v=view(v, {}), b=view(b, BK), s=view(s, SK))


def run(chk):
    build("stats", "amqpprox")
    chk.log("built")
    T = chk.thorough
    c = Component("Stats", LineDriver("stats", encode, decode))
    ops = {"Open", "Traffic", "Flag", "End", "PerSource", "Report", "Mid"}
    allc = set(range(1, 18))
    small = dict(S={"1", "2"}, Srcs={"s1", "s2"} if T else {"s1"}, Routes=Sub("R2"), Amounts=Sub("A1"), Kinds={"client", "proxy"}, Flags={"paused"},
                 Mids={"x"}, Cols=allc, OpenF=0, OpenB=0, Ops=ops, Pres={"x"})
    c.mc(chk, "collector", small, invariants=["C16"], properties=["Agree"], constraints=["Bounded"], view="McView", timeout=2500)
    full = dict(small, S={"1", "2", "3"}, Srcs=set(SRC), Routes=Sub("R5"),
                Amounts=Sub("A4"), Kinds={"client", "server", "clean", "proxy"},
                Flags={"paused", "unpause", "limited", "denied"}, Ops=ops | {"More", "Open2", "Report2"})
    cov = dict(full, S={"1", "2"}, Srcs={"s1", "s2"}, Routes=Sub("R2"), Amounts=Sub("A1"), Flags={"paused"})
    c.conform(chk, "cover", cov, c.cover(chk, cov, 6 if T else 4, 8000 if T else 600))
    c.conform(chk, "random", full, c.gen(chk, full, 8000 if T else 250, 60))
    binary(chk)
    check_control.control(chk, 32)


def binary(chk):
    T = chk.thorough
    s = Component("Stats", statsdrv.record, record_slow=statsdrv.record_slow)
    sim = dict(S={"1", "2", "3"}, Srcs=set(SRC), Routes=Sub("RS"), Amounts=Sub("AS"), Kinds={"client", "server", "clean", "proxy"}, Flags={"paused"},
               Mids={"x"}, Cols={3, 4, 5, 6, 11, 12, 13, 14, 15, 16, 17}, OpenF=1, OpenB=len(amqp.openok()), Pres={"x", "named"},
               Ops={"Open", "Open2", "Traffic", "More", "Flag", "End", "Refuse", "PerSource", "Report", "Report2"})
    s.conform(chk, "binary", sim, s.gen(chk, sim, 3000 if T else 80, 40, seed=5))
    known_rename(chk)


def known_rename(chk):
    """The one history outside the specification: MAPHOSTNAME renames sources and backends of connections that have been reported."""
    key = "maphostname-mid-session"
    got = statsdrv.renamed()
    flat = [sum(x) for x in got[2:]]
    if flat == [0, 0]:
        return
    listed = [k for k in chk.known if k.split()[0] == key]
    if listed and got == [[5000]] * 4:
        print("KNOWN-FINDING: property=%s %s" % (chk.pid, listed[0]), flush=True)
    else:
        chk.violation("bytes reported again under the names MAPHOSTNAME gives: %s" % got, dict(history=["Open s1 v1", "5000 bytes in", "Report", "MAPHOSTNAME DNS", "Report"]))
