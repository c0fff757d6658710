"""Drives the real proxy (built with sanitizers) through behaviours of spec/Hostile.tla."""
import os, socket, time
import amqp
from tlsconn import CERT, KEY
from sut import World, Infra, Conn, in_time

ORDER = ["header", "startok", "tuneok", "open", "bstart", "btune", "bopenok", "relay"]
AT = {"cbstart": "bstart", "cbopenok": "bopenok", "crelay": "relay", "brelay": "relay"}


def method(pl):
    try:
        return amqp.decode_method(pl)
    except Exception:
        return ("?", None)


class Pair:
    """One client and its broker connection."""

    def __init__(self, r, vhost, key):
        self.r, self.w, self.vhost, self.key = r, r.w, vhost, key
        r.newb[key] = []
        self.br = None
        self.cl = r.w.dial()
        self.cl.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def seen(self, side, name):
        """Waits for a method on a side and takes everything up to it."""
        c = self.cl if side == "client" else self.br

        def got():
            b = bytes(c.inb)
            pos = 0
            while len(b) - pos >= 8:
                n = int.from_bytes(b[pos + 3:pos + 7], "big")
                if len(b) - pos < n + 8:
                    return False
                if b[pos] == 1 and method(b[pos + 7:pos + 7 + n])[0] == name:
                    self.used = pos + n + 8
                    return True
                pos += n + 8
            return c.eof
        self.used = None
        self.w.run(got, self.r.wait)
        if self.used is None:
            return False
        del c.inb[:self.used]
        return True

    def book(self, st):
        if st == "header":
            self.cl.send(amqp.HEADER)
            return self.seen("client", "start")
        if st == "startok":
            self.cl.send(amqp.startok([], "PLAIN", b"\0u\0p"))
            return self.seen("client", "tune")
        if st == "tuneok":
            self.cl.send(amqp.tuneok())
            return True
        if st == "open":
            self.cl.send(amqp.open_(self.vhost))
            return self.broker()
        if st == "bstart":
            if not self.broker():
                return False
            self.br.send(amqp.start([]))
            return self.seen("broker", "startok")
        if st == "btune":
            self.br.send(amqp.tune())
            return self.seen("broker", "open")
        if st == "bopenok":
            self.br.send(amqp.openok())
            return self.seen("client", "openok")
        return True

    def broker(self):
        if self.br:
            return True
        nb = self.r.newb[self.key]
        if not self.w.run(lambda: nb and (len(nb[0].inb) >= 8 or nb[0].eof), self.r.wait) or len(nb[0].inb) < 8:
            return False
        self.br = nb[0]
        self.br.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        ok = bytes(self.br.inb[:8]) == amqp.HEADER
        del self.br.inb[:8]
        return ok

    def between(self, a, b):
        for st in ORDER[ORDER.index(a):ORDER.index(b)]:
            if not self.book(st):
                return False
        return True

    def works(self):
        a, b = self.cl, self.br
        a.inb.clear()
        b.inb.clear()
        a.send(amqp.HEARTBEAT)
        b.send(amqp.HEARTBEAT)
        self.w.run(lambda: (len(a.inb) >= 8 and len(b.inb) >= 8) or a.eof or b.eof, self.r.wait)
        return bytes(a.inb) == amqp.HEARTBEAT and bytes(b.inb) == amqp.HEARTBEAT

    def gone(self):
        nb = self.r.newb[self.key]
        return self.cl.eof and all(x.eof for x in nb)

    def close(self):
        self.cl.close()
        for x in self.r.newb[self.key]:
            x.close()


class Hostile:
    def __init__(self, slot, pre, wait, settle):
        self.pre, self.wait, self.settle = pre, wait, settle
        self.w = World(slot, build=pre)
        self.newb, self.linger = {}, []

    def begin(self):
        w = self.w
        w.start()
        for i, (v, b) in enumerate((("v", "bv"), ("other", "bw"))):
            w.ctl("BACKEND ADD %s dc %s 5672" % (b, w.ip(i + 1)))
            w.ctl("MAP BACKEND %s %s" % (v, b))
            w.broker_listen(v, w.ip(i + 1), 5672, self.accepted)
        w.ctl("TLS INGRESS CERT_CHAIN_FILE " + CERT)
        w.ctl("TLS INGRESS KEY_FILE " + KEY)
        w.listen()
        w.listen(secure=True, name="tls")
        w.quiet(0.002)
        self.now = {"v": "attack", "other": "by"}
        self.by = Pair(self, "other", "by")
        if not self.by.between("header", "relay"):
            raise Infra("no connection at all")

    def accepted(self, key, conn):
        self.newb[self.now[key]].append(conn)

    def fresh(self):
        self.now["other"] = "fresh"
        p = Pair(self, "other", "fresh")
        ok = p.between("header", "relay") and p.works()
        p.close()
        return ok

    def ctl(self, ev):
        line = (ev["verb"].encode() + b" " + bytes(ev["bytes"])) if ev["verb"] else bytes(ev["bytes"])
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(self.wait)
        try:
            s.connect(self.w.ctlpath)
            s.sendall(line * ev["times"] + b"\n" * ev["nl"])
            while ev["end"] == "answer" and ev["nl"] and s.recv(65536):
                pass
        except OSError:
            pass
        s.close()
        return self.w.ctl("DATACENTER PRINT", self.wait) != "<control failed>"

    def tls(self, ev):
        c = self.w.dial(port=self.w.ports["tls"])
        c.send(bytes(ev["bytes"]))
        self.w.run(lambda: c.eof, 0.01)
        c.close(rst=ev["end"] == "rst")
        return True

    def step(self, ev, want, n):
        w = self.w
        if ev["op"] != "Go":
            out = dict(control=self.ctl(ev) if ev["op"] == "Ctl" else self.tls(ev), same=True)
            return self.rest(out)
        st, data = ev["st"], bytes(ev["bytes"])
        self.now["v"] = "attack%d" % n
        p = Pair(self, "v", self.now["v"])
        out = dict(res="stuck", good=0, same=True, answer=False)
        side = "broker" if st.startswith("b") else "client"
        if p.between("header", AT.get(st, st)):
            out.update(self.attack(p, ev, want, side, data))
        out = self.rest(out)
        if out["res"] in ("closed", "refused") and not p.gone():
            # something was still coming when it seemed over
            out["res"] = "reopened"
        if out["res"] == "waiting" and ev["end"] == "linger":
            self.linger.append(p)
        else:
            p.close()
        return out

    def rest(self, out):
        w = self.w
        out["others"] = self.by.works()
        out["fresh"] = self.fresh()
        if not w.alive():
            out["died"] = w.stderr_tail(3000)
        return out

    def attack(self, p, ev, want, side, data):
        w, st = self.w, ev["st"]
        at = AT.get(st, st)
        me, other = (p.cl, p.br) if side == "client" else (p.br, p.cl)
        w.quiet(self.settle)
        if other:
            other.inb.clear()
        me.inb.clear()
        if ev["split"] == "bytes":
            for i in range(len(data)):
                me.send(data[i:i + 1])
                if i % 3 == 0:
                    w.poll(0)
        else:
            me.send(data)
        r = {}
        if at == "relay":
            w.run(lambda: len(other.inb) >= want["good"] and (want["res"] != "closed" or p.gone()), self.wait)
            if not want["good"] or len(other.inb) < want["good"]:
                w.quiet(self.settle)
            got = bytes(other.inb)
            r["good"] = len(got)
            r["same"] = data.startswith(got)
        if want["res"] in ("closed", "refused"):
            code = None
            w.run(p.gone, self.wait if not want["free"] else 0.05)
            if p.gone():
                try:
                    fr, _, _ = amqp.parse_frames(p.cl.inb)
                    ms = [method(pl) for t, ch, pl in fr if t == 1]
                    code = [m[1] for m in ms if m[0] == "close"]
                except Exception:
                    code = None
                r["answer"] = bytes(p.cl.inb) == amqp.HEADER
                r["res"] = "refused" if code and "506" in str(code[0]) else "closed"
                return r
            if not want["free"]:
                return dict(r, res="not closed")
        if want["res"] == "waiting":
            w.quiet(self.settle)
            w.run(p.gone, 0.01)
            if p.cl.eof or (p.br and p.br.eof):
                return dict(r, res="closed")
            if ev["end"] == "linger":
                return dict(r, res="waiting")
            if ev["end"] == "rst":
                me.close(rst=True)
            else:
                me.close()
            nb = self.newb[p.key]
            far = (lambda: all(x.eof for x in nb)) if side == "client" else (lambda: p.cl.eof)
            return dict(r, res="waiting" if w.run(far, self.wait) else "kept open")
        # still in business
        nxt = want["res"]
        if nxt not in ORDER:
            return r
        if nxt == "startok" and at == "header" and not p.seen("client", "start"):
            return dict(r, res="closed" if p.cl.eof else "stuck")
        if at in ("header", "startok") and ORDER.index(nxt) >= 2 and at == "startok" and not p.seen("client", "tune"):
            return dict(r, res="closed" if p.cl.eof else "stuck")
        if side == "client" and nxt == "bstart" and not p.broker():
            return dict(r, res="closed" if p.cl.eof else "stuck")
        if side == "broker":
            need = {"btune": ("bstart", "broker", "startok"), "bopenok": ("btune", "broker", "open"), "relay": ("bopenok", "client", "openok")}
            for k in ("btune", "bopenok", "relay"):
                before, s, nm = need[k]
                if at != "relay" and ORDER.index(at) <= ORDER.index(before) < ORDER.index(nxt) and not p.seen(s, nm):
                    return dict(r, res="closed" if p.cl.eof else "stuck")
        if p.between(nxt, "relay"):
            w.quiet(self.settle)
            if p.works():
                return dict(r, res=nxt)
        return dict(r, res="closed" if p.cl.eof else "stuck")


def record(beh, wait=5.0, settle=0.002):
    r = Hostile(os.getpid() % 60, beh["pre"], wait, settle)
    try:
        r.begin()
        steps = []
        for n, s in enumerate(in_time(beh["steps"])):
            steps.append({"ev": s["ev"], "out": r.step(s["ev"], s["out"], n)})
            if "died" in steps[-1]["out"] or not steps[-1]["out"]["others"]:
                break
        return {"pre": beh["pre"], "steps": steps}
    finally:
        r.w.stop()


def record_slow(beh):
    return record(beh, wait=10.0, settle=0.03)
