"""Drives the real proxy through behaviours of spec/ConnLimits.tla."""
import os, re, time
import amqp
from sut import World, Infra, BPORT, in_time

VN = {"a": "va", "b": "va2", "u": "VA", "w": "*"}      # names that are prefixes of each other or differ in case


class Client:
    def __init__(self, v, conn):
        self.v, self.c, self.state, self.seen, self.due = v, conn, "new", [], 0
        self.t = None


class Limits:
    def __init__(self, slot, wait, settle):
        self.w = World(slot, clock=True)
        self.wait, self.settle = wait, settle
        self.cl = []
        self.bs = []

    def begin(self):
        w = self.w
        w.start()
        w.ctl("BACKEND ADD b1 dc1 %s %d" % (w.ip(1), BPORT))
        w.broker_listen("b1", w.ip(1), BPORT, lambda k, c: self.bs.append([c, False]))
        for v in ("a", "b", "w"):
            w.ctl("MAP BACKEND %s b1" % VN[v])
        w.listen()

    def pump(self):
        for b in self.bs:
            c = b[0]
            if not b[1] and len(c.inb) >= 8:
                del c.inb[:8]
                b[1] = True
                c.send(amqp.start([]))
            if b[1]:
                fr, rest, ok = amqp.parse_frames(c.inb)
                c.inb = bytearray(rest)
                for t, ch, pl in fr:
                    nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                    if nm == "startok":
                        c.send(amqp.tune())
                    elif nm == "open":
                        c.send(amqp.openok())
            if c.eof and not c.closed:
                c.close()
        self.bs = [b for b in self.bs if not b[0].closed]
        for x in self.cl:
            fr, rest, ok = amqp.parse_frames(x.c.inb)
            x.c.inb = bytearray(rest)
            for t, ch, pl in fr:
                nm, f = amqp.decode_method(pl) if t == 1 else ("?", {})
                if nm == "start":
                    x.c.send(amqp.startok([], "PLAIN", b"\0u\0p"))
                elif nm == "tune":
                    x.c.send(amqp.tuneok() + amqp.open_(VN[x.v]))
                elif nm == "close":
                    tx = f["text"].decode("latin1")
                    if f["code"] == 506 and re.search(r"(^|\s)%s(,|\s|$)" % re.escape(VN[x.v]), tx):
                        nm = "limited" if "limited" in tx else "nomap"
                    x.seen.append(nm)
                else:
                    x.seen.append(nm)
            if x.c.eof and not x.c.closed:
                x.seen.append("eof")
                x.c.close()

    def settled(self, want, names):
        c = self.counts(names)
        return all(c[k] == want[k] for k in ("open", "lim", "nomap", "other"))

    KINDS = {("openok",): "open", ("limited", "eof"): "lim", ("nomap", "eof"): "nomap"}

    def counts(self, names):
        r = {k: {n: 0 for n in names} for k in ("open", "lim", "nomap", "other")}
        for x in self.cl:
            k = self.KINDS.get(tuple(x.seen))
            if k:
                r[k][x.v] += 1
            elif x.seen:
                r["other"][x.v] += 1
        return r

    def step(self, ev, want):
        w, op = self.w, ev["op"]
        names = sorted(want["open"])
        pr = []
        if op in ("Set", "ASet"):
            kind = "CONN_RATE_ALARM" if op == "ASet" else "CONN_RATE"
            scope = "DEFAULT" if ev["v"] == "*" else "VHOST " + VN[ev["v"]]
            if ev["n"] < 0:
                w.ctl("LIMIT DISABLE %s %s" % (kind, scope))
            else:
                w.ctl("LIMIT %s %s %d" % (kind, scope, ev["n"]))
        elif op == "Print":
            a = w.ctl("LIMIT PRINT" + ("" if ev["v"] == "*" else " " + VN[ev["v"]]))
            pr = [-1, -1]
            for l in a.split("\n"):
                m = re.search(r"allow average (\d+)", l, re.I)
                if m:
                    i = 0 if re.search("alarm only", l, re.I) else 1
                    pr[i] = int(m.group(1)) if pr[i] == -1 else -99
                    if ev["v"] != "*" and not re.search(r"\s%s," % re.escape(VN[ev["v"]]), l):
                        pr[i] = -98
            if pr == [-1, -1] and "No " not in a:
                pr = [-97, -97]
        elif op == "Conn":
            for _ in range(ev["k"]):
                c = w.dial()
                x = Client(ev["v"], c)
                self.cl.append(x)
                c.send(amqp.HEADER)
                x.t = w.now
        elif op == "Pass":
            w.pass_ms(ev["d"])
        elif op in ("Pause", "Unpause"):
            w.ctl("VHOST %s %s" % (op.upper(), VN[ev["v"]]))
        elif op == "Quit":
            mine = [x for x in self.cl if x.v == ev["v"] and not x.seen and x.due]
            if len(mine) >= ev["i"]:
                mine[ev["i"] - 1].c.close()
                self.cl.remove(mine[ev["i"] - 1])

        def done():
            self.pump()
            return self.settled(want, names)
        w.run(done, self.wait)
        end = time.monotonic() + self.settle + (0.012 if op == "Pass" else 0)
        w.run(lambda: self.pump() or time.monotonic() >= end, 5)
        out = dict(self.counts(names), print=pr)
        # refused ones of this step: known by their silence
        if op in ("Conn", "Unpause"):
            for x in self.cl:
                if x.v == ev["v"] and not x.seen and not x.due and not self.paused(x.v, ev):
                    x.due = w.now + 750 * 10**6
        for x in self.cl:
            if x.seen:
                x.c.close()
        self.cl = [x for x in self.cl if not x.seen]
        if not w.alive():
            out["died"] = w.stderr_tail(500)
        return out

    pz = None

    def paused(self, v, ev):
        return v in self.pz

    def run(self, beh):
        self.pz = set()
        steps = []
        for s in in_time(beh["steps"]):
            ev = s["ev"]
            if ev["op"] == "Pause":
                self.pz.add(ev["v"])
            elif ev["op"] == "Unpause":
                self.pz.discard(ev["v"])
            steps.append({"ev": ev, "out": self.step(ev, s["out"])})
            if "died" in steps[-1]["out"]:
                break
        return steps


def record(beh, wait=3.0, settle=0.02):
    r = Limits(os.getpid() % 60, wait, settle)
    try:
        r.begin()
        return {"pre": beh["pre"], "steps": r.run(beh)}
    finally:
        r.w.stop()


def record_slow(beh):
    return record(beh, wait=8.0, settle=0.12)
