"""Drives the real proxy through behaviours of spec/DnsConn.tla."""
import os, time
import amqp
from sut import World, Infra, in_time

PORTS = (5672, 5673)


class DnsConn:
    def __init__(self, slot, wait, settle):
        self.w = World(slot, clock=True)
        self.wait, self.settle = wait, settle
        self.bs = []
        self.tab = {"n1": ["a1"], "n2": ["a1"], "n3": ["a3", "a2"]}
        self.up = set()

    def ip(self, a):
        return self.w.ip(int(a[1:]))

    def hosts(self):
        self.w.set_hosts({n: [self.ip(a) for a in l] for n, l in self.tab.items()})

    def begin(self):
        w = self.w
        w.start()
        self.hosts()
        w.ctl("BACKEND ADD_DNS b1 dc n1 5672")
        w.ctl("BACKEND ADD_DNS b2 dc n2 5672")
        w.ctl("BACKEND ADD_DNS b4 dc n1 5673")
        w.ctl("BACKEND ADD b3 dc n3 5672")
        self.tab["n3"] = ["a1"]
        self.hosts()
        w.ctl("FARM ADD fm round-robin b1 b2 b4")
        for b in ("b1", "b2", "b3", "b4"):
            w.ctl("MAP BACKEND v%s %s" % (b, b))
        w.ctl("MAP FARM vf fm")
        w.listen()
        for i in (1, 2, 3):
            for p in PORTS:
                self.flip("a%d" % i, p)
        w.new_log()

    def flip(self, a, p):
        w, key = self.w, (a, p)
        if key in self.up:
            self.up.discard(key)
            w.broker_unlisten(key)
        else:
            self.up.add(key)
            w.broker_listen(key, self.ip(a), p, lambda k, c: self.bs.append(c))

    def connect(self, v):
        w = self.w
        del self.bs[:]
        cl = w.dial()
        cl.send(amqp.HEADER)
        st = {"ok": False}

        def go():
            fr, rest, ok = amqp.parse_frames(cl.inb)
            cl.inb = bytearray(rest)
            for t, ch, pl in fr:
                nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                if nm == "start":
                    cl.send(amqp.startok([], "PLAIN", b"\0u\0p"))
                elif nm == "tune":
                    cl.send(amqp.tuneok() + amqp.open_(v))
                elif nm == "openok":
                    st["ok"] = True
            for b in self.bs:
                if not getattr(b, "hdr", False) and len(b.inb) >= 8:
                    del b.inb[:8]
                    b.hdr = True
                    b.send(amqp.start([]))
                if getattr(b, "hdr", False):
                    fr, rest, ok = amqp.parse_frames(b.inb)
                    b.inb = bytearray(rest)
                    for t, ch, pl in fr:
                        nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                        if nm == "startok":
                            b.send(amqp.tune())
                        elif nm == "open":
                            b.send(amqp.openok())
            return st["ok"] or cl.eof
        w.run(go, self.wait)
        to = []
        if st["ok"] and len(self.bs) == 1:
            to = list(self.bs[0].key)
        elif st["ok"] or self.bs:
            to = ["?", 0]
        for b in self.bs:
            b.close()
        w.run(lambda: cl.eof, 0.5)
        cl.close()
        return to

    def step(self, ev, want):
        w, op = self.w, ev["op"]
        to = []
        if op == "Conn":
            to = self.connect("v" + ev["v"])
        elif op == "Table":
            self.tab[ev["n"]] = list(ev["l"])
            self.hosts()
        elif op == "Flip":
            self.flip(*ev["a"])
        elif op == "Pass":
            w.pass_ms(ev["d"])
            time.sleep(0.02)
        w.quiet(self.settle)
        ips = {self.ip("a%d" % i): "a%d" % i for i in (1, 2, 3)}
        look, att = [], []
        for l in w.new_log():
            f = l.split()
            if f[0] == "R":
                look.append([f[1], int(f[2])])
            elif f[0] == "C":
                att.append([ips.get(f[1], f[1]), int(f[2])])
        out = dict(look=look, att=att, to=to)
        if not w.alive():
            out["died"] = w.stderr_tail(500)
        return out


def record(beh, wait=3.0, settle=0.003):
    r = DnsConn(os.getpid() % 60, wait, settle)
    try:
        r.begin()
        steps = []
        for s in in_time(beh["steps"]):
            steps.append({"ev": s["ev"], "out": r.step(s["ev"], s["out"])})
            if "died" in steps[-1]["out"]:
                break
        return {"pre": beh["pre"], "steps": steps}
    finally:
        r.w.stop()


def record_slow(beh):
    return record(beh, wait=8.0, settle=0.05)
