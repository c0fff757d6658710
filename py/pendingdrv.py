"""Drives the real proxy through behaviours of spec/Pending.tla."""
import os, re, socket, struct, time
import amqp
from sut import World, Listener, Infra, in_time, BPORT

ADDRS = {"b1": ["a1", "a2"], "b2": ["a3"]}


class Pending:
    def __init__(self, slot, wait, settle):
        self.w = World(slot, clock=True, env={"SHIM_GATE": ""})
        self.gate = os.path.join(self.w.dir, "gate")
        open(self.gate, "w").close()
        self.w.env["SHIM_GATE"] = self.gate
        self.wait, self.settle = wait, settle
        self.cl = {}
        self.bs = []
        self.fill = {}
        self.net = {}
        self.anon = []

    def ip(self, a):
        return self.w.ip(int(a[1:]))

    def begin(self):
        w = self.w
        w.start()
        self.hosts("ok")
        for b, n in (("b1", "n1"), ("b2", "n2")):
            w.ctl("BACKEND ADD_DNS %s dc %s %d" % (b, n, BPORT))
        w.ctl("FARM ADD fm round-robin b1 b2")
        w.ctl("MAP BACKEND v1 b1")
        w.ctl("MAP BACKEND v2 b2")
        w.ctl("MAP FARM vf fm")
        w.listen()
        for a in ("a1", "a2", "a3"):
            self.flip(a, "up")
        w.new_log()

    def hosts(self, r):
        self.w.set_hosts({"n%s" % b[1]: [self.ip(a) for a in l] if r == "ok" else [] for b, l in ADDRS.items()})

    def flip(self, a, n):
        w = self.w
        old = self.net.get(a, "down")
        self.net[a] = n
        if old == "up":
            w.broker_unlisten(a)
        elif old == "stuck":
            for s in self.fill.pop(a):
                s.close()
        if n == "up":
            w.broker_listen(a, self.ip(a), BPORT, self.accepted)
        elif n == "stuck":
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((self.ip(a), BPORT))
            s.listen(0)
            f = [s]
            for _ in range(2):
                x = socket.socket()
                x.setblocking(False)
                x.connect_ex((self.ip(a), BPORT))
                f.append(x)
            self.fill[a] = f
            time.sleep(0.01)

    def accepted(self, a, conn):
        conn.a, conn.owner, conn.said = a, None, 0
        self.bs.append(conn)

    def listed(self):
        """The sessions of CONN: client port -> (id, port of its broker connection)."""
        r = {}
        for l in self.w.ctl("CONN").split("\n"):
            m = re.search(r"\bid=(\d+) .*ingressRemote=\S+:(\d+) .*egressLocal=\S+:(\d+) ", l) or re.search(r"\bid=(\d+) .*ingressRemote=\S+:(\d+) ()", l)
            if m:
                r[int(m.group(2))] = (m.group(1), m.group(3), l)
        return r

    def drain(self, k):
        fr, rest, ok = amqp.parse_frames(k.inb)
        k.inb = bytearray(rest)
        for t, ch, pl in fr:
            nm = amqp.decode_method(pl)[0] if t == 1 else "?"
            if nm == "start":
                k.send(amqp.startok([], "PLAIN", b"\0u\0p"))
            elif nm == "tune":
                k.send(amqp.tuneok() + amqp.open_(k.v))
            else:
                k.tok.append(nm)
        if k.eof and not k.ended:
            k.ended = True
            k.tok.append("eof")

    def step(self, ev, want):
        w, op = self.w, ev["op"]
        for k in self.cl.values():
            k.tok = []
        c = self.cl.get(ev.get("c"))
        seen = {id(b): b.said for b in self.bs}
        if op == "Open":
            if c is not None:
                c.close()
            k = self.cl[ev["c"]] = w.dial()
            k.v, k.tok, k.ended = ev["v"], [], False
            k.port = k.local_port()
            k.send(amqp.HEADER)
            # until the proxy knows the virtual host
            w.run(lambda: self.drain(k) or k.eof or " vhost=%s " % k.v in self.listed().get(k.port, ("", "", ""))[2], self.wait)
        elif op == "Answer":
            self.hosts(ev["r"])
            with open(self.gate, "a") as f:
                f.write("x")
        elif op == "Leave":
            if ev["how"] == "half":
                c.half_close()
            elif ev["how"] == "junk":
                c.send(b"\x01\0\0\0\0\0\x02abXYZ" + b"\0" * 40)
            else:
                c.close(rst=ev["how"] == "rst")
                c.gone = True
        elif op == "Force":
            s = self.listed().get(c.port)
            w.ctl("SESSION %s FORCE_DISCONNECT" % (s[0] if s else "0"))
        elif op == "VForce":
            w.ctl("VHOST FORCE_DISCONNECT " + ev["v"])
        elif op in ("Pause", "Unpause"):
            w.ctl("VHOST %s %s" % (op.upper(), ev["v"]))
        elif op == "Broker":
            for b in self.bs:
                if b.owner == ev["c"] and not b.closed and not b.eof:
                    b.close()
        elif op == "Flip":
            self.flip(ev["a"], ev["n"])
        st = {}

        def got():
            for x in self.cl.values():
                if not x.closed:
                    self.drain(x)
            for b in self.bs:
                if not hasattr(b, "hdr") and len(b.inb) >= 8:
                    b.hdr = bytes(b.inb[:8]) == amqp.HEADER and len(b.inb) == 8
            br = {x: [] for x in want["br"]}
            for b in self.bs:
                if b.owner is None and not b.closed:
                    # whose is it?
                    port = b.peer_port() if not b.eof else 0
                    for p, (i, e, l) in self.listed().items():
                        if e == str(port):
                            for n, x in self.cl.items():
                                if x.port == p:
                                    b.owner = n
                if id(b) not in seen:
                    seen[id(b)] = 0
                toks = ["conn:" + b.a] + (["hdr" if b.hdr else "badhdr"] if hasattr(b, "hdr") else []) + (["eof"] if b.eof and not b.closed else [])
                br.setdefault(b.owner or "?", []).extend(toks[seen[id(b)]:])
                b.now = len(toks)
            st["br"] = br
            st["cl"] = {n: list(self.cl[n].tok) if n in self.cl else [] for n in want["cl"]}
            st["att"], st["look"] = att, look
            for l in w.new_log():
                f = l.split()
                if f[0] == "R":
                    look.append("b" + f[1][1:])
                elif f[0] == "C":
                    att.append(names.get(f[1], f[1]))
            return all(st[x] == want[x] for x in ("br", "cl", "att", "look"))
        names = {self.ip("a%d" % i): "a%d" % i for i in (1, 2, 3)}
        att, look = [], []
        w.run(got, self.wait)
        w.quiet(self.settle)
        got()
        for b in self.bs:
            b.said = b.now
        self.bs = [b for b in self.bs if not (b.eof or b.closed)]
        # clean-up and expiry of names
        ports = {x.port: n for n, x in self.cl.items()}

        def live():
            w.pass_ms(1000)
            time.sleep(0.008)
            st["live"] = sorted(ports.get(p, "?") for p in self.listed())
            return st["live"] == sorted(want["live"])
        live()
        w.run(live, self.wait)
        st["dial"] = self.dialing()
        if not w.alive():
            st["died"] = w.stderr_tail(500)
        return st

    def dialing(self):
        r = set()
        with open("/proc/net/tcp") as f:
            for l in f:
                x = l.split()
                if x[3] == "02" and int(x[2].split(":")[1], 16) == BPORT:
                    ip = socket.inet_ntoa(struct.pack("<I", int(x[2].split(":")[0], 16)))
                    for a, s in self.fill.items():
                        if self.ip(a) == ip and all(y.fileno() < 0 or y.getsockname()[1] != int(x[1].split(":")[1], 16) for y in s[1:]):
                            r.add(a)
        return sorted(r)


def record(beh, wait=3.0, settle=0.004):
    r = Pending(os.getpid() % 60, wait, settle)
    try:
        r.begin()
        steps = []
        for s in in_time(beh["steps"]):
            steps.append({"ev": s["ev"], "out": r.step(s["ev"], s["out"])})
            o = steps[-1]["out"]
            # another choice than the generator's was made (or a wrong one): what follows was not meant for it
            if "died" in o or any(o[x] != s["out"][x] for x in ("br", "cl", "att", "look")):
                break
        return {"pre": beh["pre"], "steps": steps}
    finally:
        for f in r.fill.values():
            for s in f:
                s.close()
        r.w.stop()


def record_slow(beh):
    return record(beh, wait=8.0, settle=0.05)
