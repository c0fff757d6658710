"""Drives the real proxy through behaviours of spec/Stats.tla and reads its statistics in every form it offers."""
import json, os, random, re, selectors, socket, time, zlib
import amqp
from relaydrv import make_frame
from sut import World, Infra, in_time

NAMES = ["packetsReceived", "packetsSent", "framesReceived", "framesSent", "bytesReceived", "bytesSent", None, None, None, None,
         "pausedConnectionCount", "activeConnectionCount", "authDeniedConnectionCount", "limitedConnectionCount",
         "removedConnectionGraceful", "removedConnectionBrokerSnapped", "removedConnectionClientSnapped"]
GAUGES = {"pausedConnectionCount", "activeConnectionCount", "authDeniedConnectionCount", "limitedConnectionCount"}
BE = {"b1": (1, 5672), "b2": (1, 5673), "b3": (11, 5672)}
VB = {"v1": "b1", "v11": "b1", "v2": "b2", "v3": "b3"}
SRC = {"s1": 20, "s11": 21, "s2": 22}
ZERO = [0] * 17


class Ctl:
    """A control connection that stays open (STAT LISTEN)."""

    def __init__(self, w, cmd):
        self.s = socket.socket(socket.AF_UNIX)
        self.s.connect(w.ctlpath)
        self.s.sendall(cmd.encode() + b"\n")
        self.s.setblocking(False)
        self.buf = b""

    def take(self):
        try:
            while True:
                d = self.s.recv(1 << 20)
                if not d:
                    break
                self.buf += d
        except OSError:
            pass
        out, self.buf = self.buf, b""
        return out.decode("latin1")


def clip(v):
    if v >= 1 << 63:
        v -= 1 << 64
    return max(-999999999, min(999999999, v))


def human(n):
    n &= (1 << 64) - 1
    for unit, k in (("B", 1), ("KB", 1 << 10), ("MB", 1 << 20), ("GB", 1 << 30)):
        if n < k * 1024:
            return ("%d B" % n) if k == 1 else "%g %s" % (n / k, unit)
    return "%d B" % n


class Stats:
    def __init__(self, slot, wait, settle, named=False):
        self.named = named
        self.w = World(slot, clock=True, cleanup_ms=1000000, env={"SHIM_WALL": "1"})
        self.wait, self.settle = wait, settle
        self.c = {}
        self.newb = []

    def ip(self, n):
        return self.w.ip(n)

    def name(self, n):
        return "host-%s.test" % self.ip(n).replace(".", "-") if self.named else self.ip(n)

    def begin(self):
        w = self.w
        w.start()
        if self.named:
            w.ctl("MAPHOSTNAME DNS")
        for b, (i, p) in BE.items():
            w.ctl("BACKEND ADD %s dc %s %d" % (b, self.ip(i), p))
            w.broker_listen(b, self.ip(i), p, lambda k, c: self.newb.append(c))
        for v, b in VB.items():
            w.ctl("MAP BACKEND %s %s" % (v, b))
        w.ctl("MAP BACKEND vl b1")
        w.ctl("LIMIT CONN_RATE VHOST vl 0")
        w.listen()
        self.bname = {"%s_%d" % (self.name(i), p): b for b, (i, p) in BE.items()}
        self.bname["0.0.0.0_0"] = "-"
        self.sname = {self.name(n): s for s, n in SRC.items()}
        # the probe of listen() is a connection of its own: report it away
        w.quiet(0.02)
        time.sleep(0.02)
        self.pass_report()
        self.udp = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.udp.bind(("127.0.0.1", 0))
        self.udp.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
        self.udp.setblocking(False)
        a = w.ctl("STAT SEND 127.0.0.1 %d" % self.udp.getsockname()[1])
        if "Sending" not in a:
            raise Infra("STAT SEND: " + a)
        self.main = Ctl(w, "STAT LISTEN json all")
        self.filt = {("overall", ""): Ctl(w, "stat listen JSON overall"), ("human", ""): Ctl(w, "STAT LISTEN human")}
        for v in list(VB) + ["vl", "vn"]:
            self.filt["vhosts", v] = Ctl(w, "STAT LISTEN json vhost=" + v)
        for k in self.bname:
            self.filt["backends", k] = Ctl(w, "STAT LISTEN json backend=" + k)
        for k in self.sname:
            self.filt["sources", k] = Ctl(w, "STAT LISTEN json source=" + k)
        w.ctl("VHOST PRINT")
        w.quiet(0.02)

    def pass_report(self):
        self.w.pass_ms(1000001)
        time.sleep(0.03)

    def handshake(self, cl, v, limit=0):
        w = self.w
        cl.send(amqp.HEADER)
        st = {"b": None, "hdr": False, "ok": False}

        def go():
            fr, rest, ok = amqp.parse_frames(cl.inb)
            cl.inb = bytearray(rest)
            for t, ch, pl in fr:
                nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                if nm == "start":
                    cl.send(amqp.startok([], "PLAIN", b"\0u\0p"))
                elif nm == "tune":
                    cl.send(amqp.tuneok() + amqp.open_(v))
                    st["opened"] = True
                elif nm == "openok":
                    st["ok"] = True
                elif nm == "close":
                    st["closed"] = True
            if st["b"] is None and self.newb:
                st["b"] = self.newb.pop()
            b = st["b"]
            if b is not None:
                if not st["hdr"] and len(b.inb) >= 8:
                    del b.inb[:8]
                    st["hdr"] = True
                    b.send(amqp.start([]))
                if st["hdr"]:
                    fr, rest, ok = amqp.parse_frames(b.inb)
                    b.inb = bytearray(rest)
                    for t, ch, pl in fr:
                        nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                        if nm == "startok":
                            b.send(amqp.tune())
                        elif nm == "open":
                            b.send(amqp.openok())
            if limit and st.get("opened") and not st.get("passed"):
                st["n"] = st.get("n", 0) + 1
                if st["n"] > 3:
                    st["passed"] = True
                    w.pass_ms(800)
            return st["ok"] or cl.eof
        done = w.run(go, self.wait)
        return st["b"] if st["ok"] else None

    def step(self, ev, want):
        w, op = self.w, ev["op"]
        out = dict(ov=ZERO, v=[], b=[], s=[])
        if op == "Open":
            cl = w.dial(src=self.ip(SRC[ev["src"]]))
            b = self.handshake(cl, ev["r"][0])
            if b is None:
                raise Infra("connection not established")
            cl.inb.clear()
            b.inb.clear()
            cl.total = b.total = 0
            m = re.search(r"id=(\d+)[^\n]*ingressRemote=%s:%d\b" % (re.escape(self.name(SRC[ev["src"]])), cl.local_port()), w.ctl("CONN PRINT"))
            self.c[ev["s"]] = dict(cl=cl, b=b, id=m.group(1) if m else "", exp={"cl": 0, "b": 0})
        elif op == "Traffic":
            c = self.c[ev["s"]]
            frm, to = ("cl", "b") if ev["d"] == "in" else ("b", "cl")
            f, n = ev["a"][0], ev["a"][1]
            r = random.Random(zlib.crc32(json.dumps([ev, c["exp"]]).encode()))
            data = b"".join(make_frame(ev["s"] + ev["d"], i, 8) for i in range(f - 1)) + make_frame("x", f, n - 8 * (f - 1))
            c["exp"][to] += len(data)
            while data:
                k = r.choice([1, 3, 7, 9, 100, 5000, 100000])
                c[frm].send(data[:k])
                data = data[k:]
                if r.random() < .3:
                    w.poll(0.001)
            if not w.run(lambda: c[to].total >= c["exp"][to], self.wait):
                raise Infra("traffic does not arrive")
            # that the sender's side has been counted shows once the data has passed
        elif op == "End":
            c = self.c.pop(ev["s"])
            k = ev["k"]
            if k == "client":
                c["cl"].close()
                w.run(lambda: c["b"].eof, self.wait)
            elif k == "server":
                c["b"].close()
                w.run(lambda: c["cl"].eof, self.wait)
            elif k == "proxy":
                w.ctl("SESSION %s FORCE_DISCONNECT" % c["id"])
                w.run(lambda: c["cl"].eof and c["b"].eof, self.wait)
            elif k == "clean":
                w.ctl("SESSION %s DISCONNECT_GRACEFUL" % c["id"])

                def go():
                    for x in (c["cl"], c["b"]):
                        fr, rest, ok = amqp.parse_frames(x.inb)
                        x.inb = bytearray(rest)
                        for t, ch, pl in fr:
                            if t == 1 and amqp.decode_method(pl)[0] == "close":
                                x.send(amqp.closeok())
                    return c["cl"].eof and c["b"].eof
                c["cl"].inb.clear()
                w.run(go, self.wait)
            for x in (c["cl"], c["b"]):
                x.close()
        elif op == "Refuse":
            cl = w.dial(src=self.ip(SRC[ev["src"]]))
            self.handshake(cl, ev["v"], limit=ev["how"] == "limit")
            if not cl.eof:
                raise Infra("not refused")
            cl.close()
        elif op == "Flag":
            w.ctl("SESSION %s PAUSE" % self.c[ev["s"]]["id"])
        elif op == "PerSource":
            w.ctl("STAT %s per-source" % ("ENABLE" if ev["on"] else "DISABLE"))
        elif op == "Report":
            w.quiet(self.settle)
            time.sleep(0.01)
            w.pass_ms(1000001)
            out = self.report()
        if not w.alive():
            out["died"] = w.stderr_tail(500)
        return out

    def report(self):
        text = ""
        t0 = time.time()
        while time.time() - t0 < self.wait and not text.endswith("\n"):
            self.w.poll(0.002)
            text += self.main.take()
        self.w.quiet(self.settle)
        if text.count("\n") != 1:
            return dict(ov=ZERO, v=[], b=[], s=[], reports=text)
        d = json.loads(text)
        wrong = []

        def row(x):
            return [clip(x[n]) if n and i > 1 else 0 for i, n in enumerate(NAMES)]

        def view(k, names):
            return [[names.get(n, n), row(x)] for n, x in d[k].items() if row(x) != ZERO]
        # the same figures in every form
        nul = {n: 0 for n in NAMES if n}
        time.sleep(0.005)
        for (k, n), c in self.filt.items():
            t = c.take()
            if not t:
                time.sleep(0.1)
                t = c.take()
            if k == "human":
                if not self.human_ok(d, t):
                    wrong.append(["human", t[:1500]])
                continue
            x = d["overall"] if k == "overall" else d[k].get(n, nul)
            try:
                if json.loads(t) != x:
                    wrong.append([k, n, t])
            except ValueError:
                wrong.append([k, n, t])
        wrong += self.statsd(d)
        out = dict(ov=row(d["overall"]), v=view("vhosts", {}), b=view("backends", self.bname), s=view("sources", self.sname))
        if wrong:
            out["died"] = "forms disagree: " + json.dumps(wrong)[:1500]
        return out

    def human_row(self, x):
        return ("Paused: %d Active: %d Auth denied: %d Limited connections: %d Removed(Clean): %d Removed(Broker): %d Removed(Client): %d "
                "IN: %s/s %d pkt/s %d frames/s OUT: %s/s %d pkt/s %d frames/s" %
                tuple([x[n] for n in NAMES[10:]] + [human(x["bytesReceived"]), x["packetsReceived"], x["framesReceived"],
                                                    human(x["bytesSent"]), x["packetsSent"], x["framesSent"]]))

    def human_ok(self, d, t):
        sec = {}
        cur = None
        for l in t.split("\n"):
            if l in ("Overall:", "Process:", "BufferPool:", "Vhosts:", "Sources:", "Backends:"):
                cur = sec.setdefault(l[:-1], [])
            elif cur is not None and l:
                cur.append(l)
        return (sec.get("Overall") == [self.human_row(d["overall"])] and
                all(sorted(sec.get(k.capitalize(), [])) == sorted("%s: %s" % (n, self.human_row(x)) for n, x in d[k].items())
                    for k in ("vhosts", "sources", "backends")))

    def statsd(self, d):
        exp = {}

        def add(tags, x):
            for n in NAMES:
                if n:
                    exp["amqpprox.%s,%s" % (n, tags)] = "%d|%s" % (x[n], "g" if n in GAUGES else "c")
        add("rmqEndpointType=overall", d["overall"])
        for n, x in d["vhosts"].items():
            if n:
                add("rmqEndpointType=vhost,rmqVhostName=" + n, x)
        for k in ("sources", "backends"):
            for n, x in d[k].items():
                add("rmqEndpointType=%s,rmqEndpointHostname=%s" % (k, n), x)
        got, dup = {}, []
        t0 = time.time()
        while time.time() - t0 < 1.0:
            try:
                p = self.udp.recv(65536).decode("latin1")
            except BlockingIOError:
                if all(k in got for k in exp):
                    break
                time.sleep(0.002)
                continue
            k, v = p.split(":", 1) if p.count(":") else (p, "")
            if k in got:
                dup.append(k)
            got[k] = v
        bad = [[k, v, got.get(k)] for k, v in exp.items() if got.get(k) != v]
        other = [k for k in got if k not in exp and not re.search("Latency|cpu_percent|mem_rss|pools_|spill_to", k)]
        return bad + other + dup


def record(beh, wait=4.0, settle=0.003):
    r = Stats(os.getpid() % 60, wait, settle, beh["pre"] == "named")
    try:
        r.begin()
        steps = []
        for s in in_time(beh["steps"]):
            steps.append({"ev": s["ev"], "out": r.step(s["ev"], s["out"])})
            if "died" in steps[-1]["out"]:
                break
        return {"pre": beh["pre"], "steps": steps}
    finally:
        r.w.stop()


def record_slow(beh):
    return record(beh, wait=8.0, settle=0.05)


def renamed():
    """Bytes reported for a source and a backend when MAPHOSTNAME changes their names between two reports: expected none."""
    r = Stats(os.getpid() % 60, 5.0, 0.01)
    try:
        r.begin()
        r.step({"op": "Open", "s": "1", "src": "s1", "r": ["v1", "b1"]}, None)
        r.step({"op": "Traffic", "s": "1", "d": "in", "a": [2, 5000, 0]}, None)
        a = r.step({"op": "Report"}, None)
        r.w.ctl("MAPHOSTNAME DNS")
        b = r.step({"op": "Report"}, None)
        return [[x[1][4] for x in o[k]] for o in (a, b) for k in ("s", "b")]
    finally:
        r.w.stop()
