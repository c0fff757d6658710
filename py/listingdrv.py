"""Drives the real proxy through behaviours of spec/Listing.tla and reads its CONN command."""
import os, random, re, time, zlib, json
import amqp, pbuf
from relaydrv import make_frame
from sut import World, Infra, in_time, BPORT

BE = {"b1": (1, BPORT), "b2": (2, BPORT + 1)}
VB = {"v1": "b1", "v2": "b2", "v3": "b1"}
# addresses above 240 have no name
ADDR = {"s1": 20, "s2": 21, "s9": 245, "d1": 30, "d2": 31, "d9": 246}
LINE = re.compile(r"^id=(\d+) vhost=(\S*) disconnected=(.) paused=(.) authDenied=(.) ingressRemote=(\S+):(\d+) ingressLocal=(\S+) egressLocal=(\S+):(\d+) "
                  r"egressRemote=(\S+):(\d+) inBytes=(\d+) inFrames=(\d+) inPackets=(\d+) (?:inAvgLatencyMs=\d+ )?outBytes=(\d+) outFrames=(\d+) outPackets=(\d+)\b")


class Listing:
    def __init__(self, slot, wait, settle, named):
        self.w = World(slot, clock=True, env={"SHIM_WALL": "1"})
        self.wait, self.settle, self.named = wait, settle, named
        self.c, self.newb, self.auths, self.ids = {}, [], [], {}

    def ip(self, n):
        return self.w.ip(n)

    def begin(self):
        w = self.w
        w.start()
        for b, (i, p) in BE.items():
            w.ctl("BACKEND ADD %s dc %s %d" % (b, self.ip(i), p))
            w.broker_listen(b, self.ip(i), p, self.accepted)
        for v, b in VB.items():
            w.ctl("MAP BACKEND %s %s" % (v, b))
        w.ctl("MAP BACKEND vd b1")
        port = BPORT + 7
        w.broker_listen("auth", self.ip(0), port, lambda k, c: self.auths.append(c))
        w.ctl("AUTH SERVICE %s %d /authorize" % (self.ip(0), port))
        if self.named:
            w.ctl("MAPHOSTNAME DNS")
        w.listen()
        w.quiet(0.02)
        self.sweep()
        w.run(lambda: self.sweep() or w.ctl("CONN").strip() == "", 5)

    def sweep(self):
        self.w.pass_ms(1000)
        time.sleep(0.008)

    def accepted(self, key, c):
        c.key, c.hdr = key, False
        self.newb.append(c)

    def peers(self):
        """Lets every peer do its part of a handshake or close."""
        for a in list(self.auths):
            i = a.inb.find(b"\r\n\r\n")
            m = re.search(rb"content-length:\s*(\d+)", bytes(a.inb), re.I)
            if i < 0 or not m or len(a.inb) < i + 4 + int(m.group(1)):
                continue
            v = pbuf.parse(bytes(a.inb[i + 4:i + 4 + int(m.group(1))])).get(1, b"")
            body = pbuf.fld(1, 1) + pbuf.fld(2, "no") if v == b"vd" else pbuf.fld(1, 0)
            a.send(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(body) + body)
            self.auths.remove(a)
        for k in self.c.values():
            if not k["open"]:
                cl = k["cl"]
                fr, rest, ok = amqp.parse_frames(cl.inb)
                cl.inb = bytearray(rest)
                for t, ch, pl in fr:
                    nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                    k["tok"].append(nm)
                    if nm == "tune":
                        cl.send(amqp.tuneok() + amqp.open_(k["v"]))
                    elif nm == "close":
                        cl.send(amqp.closeok())
                    elif nm == "openok":
                        k["open"] = True
        for b in self.newb:
            if not b.hdr and len(b.inb) >= 8:
                del b.inb[:8]
                b.hdr = True
                b.send(amqp.start([]))
            if b.hdr and not getattr(b, "up", False):
                fr, rest, ok = amqp.parse_frames(b.inb)
                b.inb = bytearray(rest)
                for t, ch, pl in fr:
                    nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                    if nm == "startok":
                        b.v = None
                        b.send(amqp.tune())
                    elif nm == "open":
                        b.v = amqp.decode_method(pl)[1]["vhost"]
                        b.send(amqp.openok())
                        b.up = True
        for k in self.c.values():
            if k["b"] is None and k.get("v"):
                for b in self.newb:
                    if getattr(b, "up", False) and self.owner(b) is k:
                        k["b"] = b

    def owner(self, b):
        """By the listing's own account: which client's line names this connection (checked again when compared)."""
        if b.eof or b.closed:
            return None
        if not hasattr(b, "pp"):
            b.pp = b.peer_port()
        for m in self.lines():
            if int(m.group(10)) == b.pp:
                for k in self.c.values():
                    if k["port"] == int(m.group(7)):
                        return k
        return None

    def lines(self):
        return [m for m in map(LINE.match, self.w.ctl("CONN").split("\n")) if m]

    def host(self, shown, n):
        """How an address is shown: 'num', 'name', or wrong."""
        ip = self.ip(n) if isinstance(n, int) else n
        last = int(ip.split(".")[3])
        if shown == ip:
            return "either" if last >= 240 else "num"
        return "name" if shown == "host-%s.test" % ip.replace(".", "-") and last < 240 else "wrong:" + shown

    def listing(self):
        out = []
        raw = [l for l in self.w.ctl("CONN").split("\n") if l]
        ms = [LINE.match(l) for l in raw]
        for l, m in zip(raw, ms):
            if not m:
                out.append({"raw": l[:200]})
                continue
            g = m.groups()
            name = next((n for n, k in self.c.items() if k["port"] == int(g[6])), None)
            if name is None:
                out.append({"raw": l[:200]})
                continue
            k = self.c[name]
            forms = [self.host(g[5], ADDR[k["s"]]), self.host(g[7], ADDR[k["d"]])]
            broker = "-"
            if (g[8], g[9], g[10], g[11]) != ("0.0.0.0", "0", "0.0.0.0", "0"):
                for b, (i, p) in BE.items():
                    f = self.host(g[10], i)
                    if not f.startswith("wrong") and int(g[11]) == p:
                        broker = b
                        forms.append(f)
                        bc = k["b"]
                        # the broker's own view of the connection
                        if bc is None or bc.key != b or bc.pp != int(g[9]):
                            broker = "%s but not this connection" % b
                        else:
                            forms.append(self.host(g[8], "127.0.0.1"))
                if broker == "-":
                    broker = ":".join(g[8:12])
            forms = set(forms) - {"either"}
            old = self.ids.setdefault(g[0], (name, k["n"]))
            i = "ok" if old == (name, k["n"]) and k.setdefault("id", g[0]) == g[0] else "id %s" % g[0]
            over = g[2] == "Y"
            out.append(dict(k=name, v=g[1], over=over, paused=g[3] == "Y" and not over, denied=g[4] == "Y", rem=k["s"], loc=k["d"], broker=broker,
                            names=True if forms == {"name"} else False if forms == {"num"} else self.want_names if not forms else sorted(forms),
                            outw=[int(g[16]), int(g[15])], id=i))
            out[-1]["in"] = [int(g[13]), int(g[12])]
        return out

    def step(self, ev, want):
        w, op = self.w, ev["op"]
        k = self.c.get(ev.get("k"))
        self.want_names = bool(want and want[0]["names"]) if want else False
        if op == "Dial":
            cl = w.dial(src=self.ip(ADDR[ev["s"]]), dst=self.ip(ADDR[ev["d"]]))
            k = self.c[ev["k"]] = dict(cl=cl, s=ev["s"], d=ev["d"], port=cl.local_port(), b=None, tok=[], open=False, v="", n=len(self.ids), exp={})
            cl.send(amqp.HEADER)
            if not w.run(lambda: self.peers() or "start" in k["tok"] or cl.eof, self.wait):
                raise Infra("no Start")
        elif op == "Open":
            k["v"] = ev["v"]
            # the capability, so that a denial is told
            k["cl"].send(amqp.startok([], "PLAIN", b"\0u\0p"))
        elif op == "Pass":
            frm, to = ("cl", "b") if ev["d"] == "in" else ("b", "cl")
            f, n = ev["a"]
            r = random.Random(zlib.crc32(json.dumps([ev, k["exp"]], sort_keys=True).encode()))
            data = b"".join(make_frame(ev["k"] + ev["d"], i, 8) for i in range(f - 1)) + make_frame("x", f, n - 8 * (f - 1))
            if k["b"] is None:
                raise Infra("no broker connection known")
            k[frm].inb.clear()
            k[to].inb.clear()
            base = k[to].total
            first, total = True, len(data)
            while data:
                z = r.choice([1, 3, 7, 9, 100, 5000, 100000])
                k[frm].send(data[:z])
                data = data[z:]
                if r.random() < .3:
                    w.poll(0.001)
            if not w.run(lambda: k[to].total >= base + total, self.wait):
                raise Infra("traffic does not arrive")
            k[to].inb.clear()
        elif op in ("Pause", "Unpause"):
            w.ctl("VHOST %s %s" % (op.upper(), ev["v"]))
        elif op == "SPause":
            w.ctl("SESSION %s PAUSE" % k["id"])
        elif op == "End":
            h = ev["how"]
            if h in ("client", "rst"):
                k["cl"].close(rst=h == "rst")
            elif h == "server":
                k["b"].close()
            elif h == "force":
                w.ctl("SESSION %s FORCE_DISCONNECT" % k["id"])
            elif h == "clean":
                w.ctl("SESSION %s DISCONNECT_GRACEFUL" % k["id"])

                def go():
                    for x in (k["cl"], k["b"]):
                        fr, rest, ok = amqp.parse_frames(x.inb)
                        x.inb = bytearray(rest)
                        for t, ch, pl in fr:
                            if t == 1 and amqp.decode_method(pl)[0] == "close":
                                x.send(amqp.closeok())
                                x.done = True
                    return k["cl"].eof or k["b"].eof
                w.run(go, self.wait)
        elif op == "Sweep":
            self.sweep()
        elif op == "Names":
            w.ctl("MAPHOSTNAME DNS")
        key = lambda o: sorted(json.dumps(x, sort_keys=True) for x in o)

        def same():
            self.peers()
            if op == "Sweep":
                self.sweep()
            return key(self.listing()) == key(want)
        w.run(same, self.wait)
        w.quiet(self.settle)
        self.peers()
        return self.listing()


def record(beh, wait=3.0, settle=0.002):
    r = Listing(os.getpid() % 60, wait, settle, beh["pre"] == "named")
    try:
        r.begin()
        steps = []
        for s in in_time(beh["steps"]):
            steps.append({"ev": s["ev"], "out": r.step(s["ev"], s["out"])})
            if not r.w.alive():
                steps[-1]["out"] = [{"died": r.w.stderr_tail(500)}]
                break
        return {"pre": beh["pre"], "steps": steps}
    finally:
        r.w.stop()


def record_slow(beh):
    return record(beh, wait=8.0, settle=0.05)
