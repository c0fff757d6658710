"""Drives the real proxy through behaviours of spec/DataRate.tla."""
import os, time
import amqp
from relaydrv import make_frame
from sut import World, Infra, BPORT, in_time
from tlsconn import TlsConn, CERT, KEY

VN = {"a": "va", "b": "va2"}
INF = 999999999


def hello(v):
    """Start-Ok of 300 bytes, Tune-Ok and Open of 60 bytes together."""
    s = amqp.startok([(b"pad", ("S", b""))], "PLAIN", b"\0u\0p")
    s = amqp.startok([(b"pad", ("S", b"x" * (300 - len(s))))], "PLAIN", b"\0u\0p")
    t = amqp.tuneok()
    o = amqp.method(10, 40, amqp.shortstr(VN[v]) + amqp.shortstr("") + b"\0")
    o = amqp.method(10, 40, amqp.shortstr(VN[v]) + amqp.shortstr("c" * (60 - len(t) - len(o))) + b"\0")
    assert len(s) == 300 and len(t + o) == 60
    return s, t + o


class C:
    pass


class Rate:
    def __init__(self, slot, kind, wait, settle):
        self.w = World(slot, clock=True)
        self.kind, self.wait, self.settle = kind, wait, settle
        self.c = {}
        self.newb = []
        self.serial = 0
        self.ok = True

    def begin(self):
        w = self.w
        w.start()
        if self.kind == "tls":
            w.ctl("TLS INGRESS CERT_CHAIN_FILE " + CERT)
            w.ctl("TLS INGRESS KEY_FILE " + KEY)
        # each connection gets a broker of its own so that they can be told apart
        self.nb = 0
        for i in (1,):
            w.ctl("BACKEND ADD b%d dc1 %s %d" % (i, w.ip(i), BPORT))
            w.broker_listen("b%d" % i, w.ip(i), BPORT, lambda k, c: self.newb.append(c))
        for v in VN.values():
            w.ctl("MAP BACKEND %s b1" % v)
        w.listen(secure=self.kind == "tls")

    def open(self, x, v):
        w = self.w
        cl = w.dial()
        if self.kind == "tls":
            s = cl.s
            w.sel.unregister(s)
            w.conns.remove(cl)
            cl = TlsConn(w, s, "client", False)
            w.conns.append(cl)
        k = C()
        self.serial += 1
        k.id, k.v, k.cl, k.b, k.hdr, k.st, k.hs = "%s%d" % (x, self.serial), v, cl, None, False, "hand", hello(v)
        k.sent, k.bsent, k.up, k.dn, k.i, k.why = bytearray(), bytearray(), bytearray(), bytearray(), 0, ""
        self.c[x] = k
        cl.send(amqp.HEADER)

    def pump(self):
        for x, k in self.c.items():
            if k.st == "hand":
                fr, rest, ok = amqp.parse_frames(k.cl.inb)
                k.cl.inb = bytearray(rest)
                for t, ch, pl in fr:
                    nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                    if nm == "start":
                        k.cl.send(k.hs[0])
                    elif nm == "tune":
                        k.cl.send(k.hs[1])
                    elif nm == "openok":
                        k.st = "open"
                    else:
                        self.ok = False
                if k.cl.eof:
                    k.st = "gone"
        # brokers not yet matched: read on until the Start-Ok tells whose they are
        for b in list(self.newb):
            if not getattr(b, "hdr", False) and len(b.inb) >= 8:
                del b.inb[:8]
                b.hdr = True
                b.send(amqp.start([]))
            if getattr(b, "hdr", False):
                fr, rest, ok = amqp.parse_frames(b.inb)
                b.inb = bytearray(rest)
                for t, ch, pl in fr:
                    nm, f = amqp.decode_method(pl) if t == 1 else ("?", {})
                    if nm == "startok":
                        who = [v[1] for n, v in f["props"] if n == b"amqpprox_client"]
                        port = who[0].split(b":")[-1].split(b" ")[0].split(b";")[0] if who else b"?"
                        for k in self.c.values():
                            if not k.cl.closed and str(k.cl.local_port()).encode() in (who[0] if who else b""):
                                k.b = b
                        b.send(amqp.tune())
                    elif nm == "open":
                        b.send(amqp.openok())
                        self.newb.remove(b)
        for x, k in self.c.items():
            if k.st == "open" and k.b is not None and k.b not in self.newb:
                for src, got, sent in ((k.b.inb, k.up, k.sent), (k.cl.inb, k.dn, k.bsent)):
                    if src:
                        a = len(got)
                        got += src
                        if bytes(sent[a:len(got)]) != bytes(src):
                            self.ok = False
                        src.clear()
                if k.b.eof or k.cl.eof:
                    if k.b.eof and k.cl.eof or (k.why == "fin" and k.b.eof) or (k.why == "bfin" and k.cl.eof):
                        k.st = "gone"

    def obs(self, names):
        st = {}
        for n in names:
            k = self.c.get(n)
            st[n] = "none" if k is None else k.st
        return dict(up={n: len(self.c[n].up) if n in self.c else 0 for n in names},
                    dn={n: len(self.c[n].dn) if n in self.c else 0 for n in names}, st=st, ok=self.ok)

    def step(self, ev, want):
        w, op = self.w, ev["op"]
        names = sorted(want["up"])
        k = self.c.get(ev.get("x"))
        if op == "Limit":
            kind = "DATA_RATE_ALARM" if ev["al"] else "DATA_RATE"
            scope = "DEFAULT" if ev["v"] == "*" else "VHOST " + VN[ev["v"]]
            w.ctl("LIMIT DISABLE %s %s" % (kind, scope) if ev["q"] == INF else "LIMIT %s %s %d" % (kind, scope, ev["q"]))
        elif op == "Open":
            self.open(ev["x"], ev["v"])
        elif op in ("Send", "Recv"):
            k.i += 1
            f = make_frame(k.id + op[0], k.i, ev["n"])
            if op == "Send":
                k.sent += f
                k.cl.send(f)
            else:
                k.bsent += f
                k.b.send(f)
        elif op == "Fin":
            k.why = "fin"
            k.cl.half_close()
        elif op == "BFin":
            k.why = "bfin"
            k.b.close()
        elif op == "Forget":
            k.cl.close()
            k.b.close()
            del self.c[ev["x"]]
        elif op == "Pass":
            w.pass_ms(ev["d"])

        def done():
            self.pump()
            return self.obs(names) == want
        w.run(done, self.wait)
        end = time.monotonic() + self.settle + (0.012 if op == "Pass" else 0)
        w.run(lambda: self.pump() or time.monotonic() >= end, 5)
        self.pump()
        out = self.obs(names)
        if not w.alive():
            out["died"] = w.stderr_tail(500)
        return out


def record(beh, wait=3.0, settle=0.008):
    r = Rate(os.getpid() % 60, beh["pre"], wait, settle)
    try:
        r.begin()
        steps = []
        for s in in_time(beh["steps"]):
            steps.append({"ev": s["ev"], "out": r.step(s["ev"], s["out"])})
            if "died" in steps[-1]["out"]:
                break
        return {"pre": beh["pre"], "steps": steps}
    finally:
        r.w.stop()


def record_slow(beh):
    return record(beh, wait=8.0, settle=0.1)
