"""C17: name resolution against spec/DnsCache.tla (the resolver) and spec/DnsConn.tla (connections through names)."""
from component import Component, LineDriver
from framework import build
import dnsconndrv
from tlc import Sub

GOOD = {"a": ["1"], "b": ["2"], "ab": ["1", "2"], "ba": ["2", "1"], "six": ["6", "1"]}


def encode_beh():
    state = {}

    def encode(ev, beh):
        if ev is None:
            return "Init 0"
        i = next(i for i, s in enumerate(beh["steps"]) if s["ev"] is ev)
        want = len(beh["steps"][i]["out"]["cb"])
        op = ev["op"]
        f = [op, want]
        if op == "Resolve":
            f += [2 * sum(1 for s in beh["steps"][:i] if s["ev"]["op"] == "Resolve")] + ev["k"] + ev["ch"]
        elif op == "Answer":
            f += GOOD.get(ev["r"], [ev["r"]])
        elif op in ("Put", "Clear"):
            f += ev["k"] + (GOOD[ev["r"]] if op == "Put" else [])
        elif op in ("Timeout", "Pass"):
            f.append(ev["d"])
        return " ".join(map(str, f))
    return encode


def decode(ev, line):
    f = line.split()
    cb = []
    for x in f[1:]:
        i, r = x.split(":", 1)
        p = r.split(",")
        cb.append(dict(id=int(i), ok=p[0] == "ok", to=[y.split("/") for y in p[1:]]))
    return dict(cb=cb, asked=f[0].split("/"))


def run(chk):
    build("dns", "amqpprox")
    chk.log("built")
    T = chk.thorough
    c = Component("DnsCache", LineDriver("dns", encode_beh(), decode))
    ops = {"Resolve", "Chain", "Answer", "Again", "Put", "Clear", "Timeout", "Start", "Stop", "Pass"}
    c.mc(chk, "cache", dict(Hosts={"h1", "h11"} if T else {"h1"}, Ports={"1", "11"}, Results={"a", "ab", "fail"} if T else {"a", "fail"}, Steps={500, 1000}, MaxQ=2,
                            Pres={"x"}, Ops=ops - {"Again"}), invariants=["C17"], properties=["Served"], view="View", timeout=2500)
    full = dict(Hosts={"h1", "h11", "H1"}, Ports={"1", "11", "5672"}, Results=set(GOOD) | {"fail", "again", "error"}, Steps={1, 499, 500, 999, 1000, 1500},
                MaxQ=4, Pres={"x"}, Ops=ops)
    cov = dict(full, Hosts={"h1", "h11"}, Ports={"1", "11"}, Results={"a", "ba", "fail"}, Steps={999, 1000})
    c.conform(chk, "cover", cov, c.cover(chk, cov, 3, 6000 if T else 1200))
    c.conform(chk, "random", full, c.gen(chk, full, 6000 if T else 400, 60))
    connections(chk)
    chk.assumptions += ["getaddrinfo and the monotonic clock are the driver's; one lookup is answered at a time (as asio's resolver does them)"]


def connections(chk, num=150):
    T = chk.thorough
    s = Component("DnsConn", dnsconndrv.record, record_slow=dnsconndrv.record_slow)
    s.mc(chk, "connections by name", dict(Addrs={"a1", "a2"}, Lists=Sub("Tab1"), Steps={1000}, Ops={"Conn", "Table", "Flip", "Pass"}, Pres={"x"}),
         properties=["C17", "Failover"], view="core", timeout=2500)
    sim = dict(Addrs={"a1", "a2", "a3"}, Lists=Sub("Tab2"), Steps={1, 500, 999, 1000, 1700}, Ops={"Conn", "More", "Farm", "Table", "Flip", "Pass"}, Pres={"x"})
    s.conform(chk, "connections", sim, s.gen(chk, sim, 20 * num if T else num, 40, seed=3))
