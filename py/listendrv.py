"""Drives the real proxy through behaviours of spec/Listeners.tla."""
import os, socket, ssl, time
import amqp
from sut import World, Conn, Infra, Listener, VERIF, in_time
from tlsconn import TlsConn

D = os.path.join(VERIF, "harness", "tls") + "/"
SHOWN = {ssl.PEM_cert_to_DER_cert(open(D + c + ".pem").read().split("-----END CERTIFICATE-----")[0] + "-----END CERTIFICATE-----\n"): c for c in ("good", "bad")}
_ctx = {}


def ctx(server, cert):
    k = (server, cert)
    if k not in _ctx:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER if server else ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
        if cert == "strict":
            c.verify_mode = ssl.CERT_REQUIRED
            c.load_verify_locations(D + "goodca.pem")
            c.maximum_version = ssl.TLSVersion.TLSv1_2
            cert = "good"
        if cert != "none":
            c.load_cert_chain(D + cert + ".pem", D + cert + ".key")
        _ctx[k] = c
    return _ctx[k]


class Spy(Conn):
    """A broker that decides at accept time what it speaks; keeps the first bytes it was sent."""


class Ports:
    """Three ports nobody else in this run uses."""

    def __init__(self):
        for k in range(400):
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            try:
                s.bind(("127.0.0.1", 9000 + k))
                self.lock = s
                self.base = 9401 + 4 * k
                return
            except OSError:
                s.close()
        raise Infra("no ports")


class Listen:
    def __init__(self, slot, pre, wait, settle):
        self.pre, self.wait, self.settle = pre, wait, settle
        self.ports = Ports()
        self.w = World(slot, env={"SHIM_HOLD": ""})
        self.hold = os.path.join(self.w.dir, "hold")
        self.w.env["SHIM_HOLD"] = self.hold
        self.con, self.other = {}, {}
        self.newb, self.bk = [], "plain"
        self.first = []

    def port(self, p):
        return self.ports.base + p if 0 < p < 10 else p

    def begin(self):
        w = self.w
        w.start()
        if self.pre != "nocert":
            w.ctl("TLS INGRESS CERT_CHAIN_FILE " + D + "good.pem")
            w.ctl("TLS INGRESS KEY_FILE " + D + "good.key")
        w.ctl("TLS INGRESS CA_CERT_FILE " + D + "goodca.pem")
        w.ctl("TLS EGRESS CA_CERT_FILE " + D + "goodca.pem")
        w.ctl("BACKEND ADD bp dc %s 5672" % w.ip(1))
        w.ctl("BACKEND ADD bt dc %s 5671 TLS" % w.ip(1))
        w.ctl("MAP BACKEND vplain bp")
        w.ctl("MAP BACKEND vtls bt")
        # members that are down
        w.ctl("BACKEND ADD dp dc %s 5690" % w.ip(2))
        w.ctl("BACKEND ADD dt dc %s 5691 TLS" % w.ip(2))
        for f in ("pp", "pt", "tp", "tt"):
            w.ctl("FARM ADD f%s round-robin d%s b%s" % (f, f[0], f[1]))
            w.ctl("MAP FARM v%s f%s" % (f, f))
        for port in (5672, 5671):
            w.listeners[port] = Listener(w, w.ip(1), port, self.accepted)

    def accepted(self, l, sock, addr):
        # what the first bytes are, whatever this broker speaks
        sock.setblocking(True)
        sock.settimeout(0.5)
        try:
            f = sock.recv(1, socket.MSG_PEEK)
        except OSError:
            f = b""
        if f and (l.port == 5671) != (f[0] == 0x16):
            self.clear = True
        if self.bk == "plain":
            c = Conn(self.w, sock, "broker")
        else:
            c = TlsConn(self.w, sock, "broker", True, ctx=ctx(True, self.bk))
        self.w.conns.append(c)
        self.newb.append(c)

    def connect(self, p, tls, cc):
        s = socket.socket()
        s.settimeout(5)
        try:
            s.connect(("127.0.0.1", self.port(p)))
        except OSError:
            s.close()
            return None
        c = TlsConn(self.w, s, "client", False, ctx=ctx(False, cc)) if tls else Conn(self.w, s, "client")
        if not tls:
            c.raw = c.inb
        self.w.conns.append(c)
        return c

    def dead(self, c):
        return c.eof or getattr(c, "tls_error", None) or getattr(c, "notified", False)

    def handshake(self, cl, v, limit=None):
        w = self.w
        del self.newb[:]
        cl.send(amqp.HEADER)
        st = {"b": None, "hdr": False, "ok": False}

        def go():
            b = None
            try:
                fr, rest, ok = amqp.parse_frames(cl.inb)
            except Exception:
                return self.dead(cl)
            cl.inb = bytearray(rest)
            for t, ch, pl in fr:
                nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                if nm == "start":
                    cl.send(amqp.startok([], "PLAIN", b"\0u\0p"))
                elif nm == "tune":
                    cl.send(amqp.tuneok() + amqp.open_(v))
                elif nm == "openok":
                    st["ok"] = True
            if st["b"] is None and self.newb:
                st["b"] = self.newb.pop()
            b = st["b"]
            if b is not None:
                if not st["hdr"] and len(b.inb) >= 8:
                    if bytes(b.inb[:8]) != amqp.HEADER:
                        b.close()
                        st["b"] = None
                        return False
                    del b.inb[:8]
                    st["hdr"] = True
                    b.send(amqp.start([]))
                if st["hdr"]:
                    fr, rest, ok = amqp.parse_frames(b.inb)
                    b.inb = bytearray(rest)
                    for t, ch, pl in fr:
                        nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                        if nm == "startok":
                            b.send(amqp.tune())
                        elif nm == "open":
                            b.send(amqp.openok())
                elif getattr(b, "tls_error", None) or b.eof:
                    b.close()
            return st["ok"] or self.dead(cl)
        w.run(go, limit or self.wait)
        return st["b"] if st["ok"] else None

    def works(self, c):
        """Frames still pass in both directions."""
        a, b = c
        n, m = a.total, b.total
        a.send(amqp.HEARTBEAT)
        b.send(amqp.HEARTBEAT)
        return self.w.run(lambda: (a.total >= n + 8 and b.total >= m + 8) or self.dead(a) or self.dead(b), self.wait) and \
            not self.dead(a) and not self.dead(b) and a.total == n + 8 and b.total == m + 8

    def probe(self, p):
        """What a newcomer meets on this port."""
        if p in self.other:
            return "other"
        w = self.w
        seen = []
        for tls in (False, True):
            c = self.connect(p, tls, "good")
            if c is None:
                return "off" if not tls else "flaky"
            c.send(amqp.HEADER)
            w.run(lambda: len(c.inb) >= 12 or self.dead(c), self.wait)
            if not tls and c.inb and c.inb[0] != 0x15:
                seen.append("plain")
            if tls and c.shook and len(c.inb) >= 12:
                seen.append("tls")
            if tls and self.pre == "nocert" and not seen:
                seen.append("tls")
            c.close()
        return "+".join(seen) or "neither"

    def command(self, c):
        return self.w.ctl("LISTEN " + c[0] + (" %d" % self.port(c[1]) if not (c[0] == "STOP" and c[1] == 0) else ""))

    def step(self, ev, want):
        w, op = self.w, ev["op"]
        res, self.clear, self.shown = "", False, ""
        if op == "Cmds":
            helper = None
            if ev["held"]:
                helper = self.busy()
            bad = False
            for c in ev["cs"]:
                a = self.command(c)
                known = c[0] in ("START", "START_SECURE", "STOP") and 0 <= c[1] <= 65535 and not (c[0] != "STOP" and c[1] == 0)
                if known == bool(a.strip()):
                    bad = a or "no answer"
            if helper:
                os.unlink(self.hold)
                helper.close()
            if bad:
                res = "answer: " + bad
        elif op == "Occupy":
            p = ev["p"]
            if p in self.other:
                self.other.pop(p).close()
            else:
                s = socket.socket()
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                for i in range(100):
                    try:
                        s.bind(("0.0.0.0", self.port(p)))
                        break
                    except OSError:
                        time.sleep(0.02)
                else:
                    raise Infra("cannot occupy")
                s.listen(1)
                self.other[p] = s
        elif op == "Verify":
            w.ctl("TLS %s VERIFY_MODE %s" % (ev["d"], ev["m"]))
        elif op == "Cert":
            a = ""
            for k, e in (("CERT_CHAIN_FILE", "pem"), ("KEY_FILE", "key")):
                a += w.ctl("TLS %s %s %s%s.%s" % (ev["d"], k, D, ev["f"], e))
            if "rror" in a:
                res = "error"
            elif a.strip():
                res = "answer: " + a
        elif op == "Close":
            for x in self.con.pop(ev["c"]):
                x.close()
        elif op == "Conn":
            self.bk = ev["bk"]
            c = self.connect(ev["p"], ev["tls"], ev["cc"])
            if c is None:
                res = "refused"
            else:
                b = self.handshake(c, "v" + ev["v"], None if want["res"] == "open" else min(self.wait, 1.5))
                res = "open" if b else "no"
                if b:
                    if ev["tls"]:
                        self.shown = SHOWN.get(c.peer_cert(), "unknown")
                    self.con[ev["c"]] = (c, b)
                    c.total = b.total = 0
                else:
                    # nothing of AMQP may have come in clear from a port or broker that wants TLS
                    c.close()
                for x in self.newb:
                    x.close()
        w.quiet(self.settle)
        self.bk = "plain"
        if op in ("Verify", "Conn", "Close", "Cert"):
            # no probe: a newcomer must meet the settings of now with the very next connection
            return self.outcome(res, [])
        ports = sorted(want["ports"]) if isinstance(want["ports"], dict) else range(1, len(want["ports"]) + 1)
        seen = [[int(p), self.probe(int(p))] for p in ports]
        # a change of listeners takes a moment
        t0 = time.time()
        exp = [want["ports"][p - 1] for p in ports] if not isinstance(want["ports"], dict) else [want["ports"][p] for p in ports]
        while [x[1] for x in seen] != exp and time.time() - t0 < self.wait:
            time.sleep(0.02)
            seen = [[int(p), self.probe(int(p))] for p in ports]
        return self.outcome(res, seen)

    def outcome(self, res, seen):
        out = dict(res=res, ports=seen, alive=[k for k, c in self.con.items() if self.works(c)], clear=self.clear, shown=self.shown)
        if not self.w.alive():
            out["died"] = self.w.stderr_tail(500)
        return out

    def busy(self):
        """Keeps the proxy's server thread busy until the file goes away."""
        w = self.w
        w.listen(name="busy")
        w.new_log()
        open(self.hold, "w").close()
        cl = w.dial(w.ports["busy"])
        cl.send(amqp.HEADER)
        t0 = time.time()
        while time.time() - t0 < 5:
            w.poll(0.002)
            try:
                fr, rest, ok = amqp.parse_frames(cl.inb)
            except Exception:
                fr = []
            for t, ch, pl in fr:
                nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                if nm == "start":
                    cl.send(amqp.startok([], "PLAIN", b"\0u\0p"))
                elif nm == "tune":
                    cl.send(amqp.tuneok() + amqp.open_("vplain"))
            if fr:
                cl.inb = bytearray(rest)
            if "H" in w.new_log():
                return cl
        os.unlink(self.hold)
        raise Infra("cannot keep the server busy")


def record(beh, wait=3.0, settle=0.002):
    r = Listen(os.getpid() % 60, beh["pre"], wait, settle)
    try:
        r.begin()
        steps = []
        for s in in_time(beh["steps"]):
            steps.append({"ev": s["ev"], "out": r.step(s["ev"], s["out"])})
            if "died" in steps[-1]["out"] or steps[-1]["out"]["res"] != s["out"]["res"]:
                break
        return {"pre": beh["pre"], "steps": steps}
    finally:
        for s in r.other.values():
            s.close()
        r.w.stop()
        r.ports.lock.close()


def record_slow(beh):
    return record(beh, wait=6.0, settle=0.03)
