"""Drives the real proxy through behaviours of spec/Relay.tla."""
import random, struct, time, zlib
import amqp
from sut import World, Conn, Infra, BPORT, in_time
from tlsconn import TlsConn, CERT, KEY

CTRL = [(60, 40), (60, 60), (10, 60), (10, 61), (10, 70), (10, 50), (10, 51), (20, 10), (10, 11), (10, 41), (90, 10)]


def make_frame(stream, i, size):
    """Frame number i of a stream: its bytes are unlike those of every other frame."""
    r = random.Random(zlib.crc32(("%s:%d" % (stream, i)).encode()))
    n = size - 8
    if n == 0:
        t = r.choice([8, 3, 2])
        return struct.pack(">BHI", t, r.choice([0, 1, 7, 255, 2047]), 0) + b"\xce"
    t = r.choice([1, 1, 2, 3, 3, 3])
    if t == 1 and n < 4:
        t = 3
    head = struct.pack(">BHI", t, r.choice([0, 1, 2, 206, 65535]), n)
    body = struct.pack(">HH", *r.choice(CTRL)) if t == 1 else b""
    tag = ("%s:%d:" % (stream, i)).encode()
    # contents that look like frame ends and frame headers
    body += tag + r.choice([b"\xce", b"\xce\x01\x00\x01\x00\x00\x00\x04", b"\x03\x00\x01\x00\x02\x49\xf0", b"AMQP\0\0\x09\x01", b""])
    if len(body) < n:
        body += r.randbytes(min(n - len(body), 997))
        while len(body) < n:
            body += body[:n - len(body)]
    return head + body[:n] + b"\xce"


class Stream:
    def __init__(self, name):
        self.name = name
        self.sent = bytearray()     # the bytes handed to the sender so far
        self.i = 0                  # frames begun
        self.rest = b""             # unsent part of the frame begun last
        self.got = bytearray()
        self.checked = 0
        self.ok = True
        self.eof = False
        self.src = self.dst = None

    def frame(self, size):
        self.i += 1
        return make_frame(self.name, self.i, size)

    def put(self, data):
        self.sent += data
        return data


class Relay:
    def __init__(self, slot, kind, conns, build="plain", wait=3.0, settle=0.003, tail=0.03):
        self.w = World(slot, build=build)
        self.kind, self.wait, self.settle, self.tail = kind, wait, settle, tail
        self.names = conns
        self.s = {}
        self.newb = []

    def begin(self):
        w = self.w
        w.start()
        tin, tout = self.kind in ("tlsin", "tls"), self.kind in ("tlsout", "tls")
        if tin:
            w.ctl("TLS INGRESS CERT_CHAIN_FILE " + CERT)
            w.ctl("TLS INGRESS KEY_FILE " + KEY)
        w.ctl("BACKEND ADD b1 dc1 %s %d%s" % (w.ip(1), BPORT, " TLS" if tout else ""))
        w.ctl("MAP BACKEND v b1")
        from sut import Listener

        def acc(l, sock, addr):
            c = TlsConn(w, sock, "broker", True) if tout else Conn(w, sock, "broker")
            w.conns.append(c)
            self.newb.append(c)
        w.listeners["b1"] = Listener(w, w.ip(1), BPORT, acc)
        w.listen(secure=tin)
        for n in self.names:
            cl = w.dial()
            if tin:
                s = cl.s
                w.sel.unregister(s)
                w.conns.remove(cl)
                cl = TlsConn(w, s, "client", False)
                w.conns.append(cl)
            self.handshake(n, cl)

    def handshake(self, n, cl):
        w = self.w
        cl.send(amqp.HEADER)
        st = {"b": None, "hdr": False, "ok": False}

        def go():
            fr, rest, ok = amqp.parse_frames(cl.inb)
            cl.inb = bytearray(rest)
            for t, ch, pl in fr:
                nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                if nm == "start":
                    cl.send(amqp.startok([], "PLAIN", b"\0u\0p"))
                elif nm == "tune":
                    cl.send(amqp.tuneok() + amqp.open_("v"))
                elif nm == "openok":
                    st["ok"] = True
            if st["b"] is None and self.newb:
                st["b"] = self.newb.pop()
            b = st["b"]
            if b is not None:
                if not st["hdr"] and len(b.inb) >= 8:
                    del b.inb[:8]
                    st["hdr"] = True
                    b.send(amqp.start([]))
                if st["hdr"]:
                    fr, rest, ok = amqp.parse_frames(b.inb)
                    b.inb = bytearray(rest)
                    for t, ch, pl in fr:
                        nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                        if nm == "startok":
                            b.send(amqp.tune())
                        elif nm == "open":
                            b.send(amqp.openok())
            return st["ok"]
        if not w.run(go, 8.0):
            raise Infra("connection not established")
        u, d = Stream(n + "u"), Stream(n + "d")
        u.src, u.dst, d.src, d.dst = cl, st["b"], st["b"], cl
        self.s[u.name], self.s[d.name] = u, d
        for c in (cl, st["b"]):
            c.inb.clear()

    def collect(self):
        for s in self.s.values():
            d = s.dst.inb
            if d and s.dst.reading:
                s.dst.inb = bytearray()
                a = len(s.got)
                s.got += d
                if s.ok and bytes(s.sent[a:a + len(d)]) != bytes(d):
                    s.ok = False
            if s.dst.eof and s.dst.reading:
                s.eof = True

    def write_dribble(self, s, data):
        r = random.Random(len(s.sent))
        i = 0
        style = r.choice(["tiny", "mixed", "big"])
        while i < len(data):
            k = {"tiny": r.randint(1, 40), "mixed": r.choice([1, 3, 7, 9, 100, 1460, 5000]), "big": r.randint(3000, 90000)}[style]
            if len(data) > 200000:
                k *= 50
            s.src.send(s.put(data[i:i + k]))
            i += k
            if r.random() < 0.3:
                self.w.poll(0.0005)
                self.collect()

    def step(self, ev, want):
        op = ev["op"]
        S = self.s
        if op == "Write":
            s = S[ev["s"]]
            data = s.rest[:ev["more"]]
            s.rest = s.rest[ev["more"]:]
            for z in ev["fs"]:
                data += s.frame(z)
            if ev["have"]:
                f = s.frame(ev["size"])
                data += f[:ev["have"]]
                s.rest = f[ev["have"]:]
            s.src.send(s.put(data))
        elif op == "Dribble":
            s = S[ev["s"]]
            self.write_dribble(s, b"".join(s.frame(ev["z"]) for _ in range(ev["n"])))
        elif op == "All":
            for name in sorted(S):
                s = S[name]
                if not s.rest and not s.src.closed and not s.eof:
                    s.src.send(s.put(b"".join(s.frame(ev["z"]) for _ in range(ev["n"]))))
        elif op in ("Stall", "Resume"):
            S[ev["s"]].dst.stall(op == "Stall")
        elif op == "Last":
            s = S[ev["s"]]
            data = b"".join(s.frame(ev["z"]) for _ in range(ev["n"]))
            if ev["have"]:
                data += s.frame(500)[:ev["have"]]
            s.src.send(s.put(data))
            # the end of the stream follows immediately once the socket took everything
            self.w.run(lambda: self.collect() or not s.src.outb, self.wait)
            s.src.half_close()

        def done():
            self.collect()
            return all(len(s.got) >= want["got"][n] for n, s in S.items()) and all(S[n].eof for n in want["eof"])
        self.w.run(done, self.wait)
        self.w.quiet(self.tail if op == "End" else self.settle)
        self.collect()
        out = dict(got={n: len(s.got) for n, s in S.items()}, ok=all(s.ok for s in S.values()),
                   eof=[n for n, s in S.items() if s.eof])
        if not self.w.alive():
            out["ok"] = False
            out["died"] = self.w.stderr_tail(500)
        return out


def record(beh, wait=4.0, settle=0.003):
    conns = sorted({n[:-1] for n in beh["steps"][0]["out"]["got"]})
    import os
    r = Relay(os.getpid() % 60, beh["pre"], conns, wait=wait, settle=settle)
    try:
        r.begin()
        steps = []
        for s in in_time(beh["steps"]):
            steps.append({"ev": s["ev"], "out": r.step(s["ev"], s["out"])})
            if "died" in steps[-1]["out"]:
                break
        return {"pre": beh["pre"], "steps": steps}
    finally:
        r.w.stop()


def record_slow(beh):
    return record(beh, wait=12.0, settle=0.03)
