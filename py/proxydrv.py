"""Drives the real proxy through behaviours of spec/Proxy.tla and records what
the peers observe, in the vocabulary of the specification."""
import json, re, time, zlib
import amqp, pbuf
from sut import World, Conn, Infra, BPORT, in_time

CONTROL = {"BAdd", "BDel", "FAdd", "FPart", "FDel", "Map", "Unmap", "Dflt", "NoDflt", "DcSet",
           "Pause", "Unpause", "VForce", "VBack", "Bad"}
SLOW = None
OPENING = {"Dial", "Go", "AuthReply", "Unpause"}

# The names the specification's virtual hosts, farms and backends have in an execution: besides
# plain ones, names that are prefixes of each other, differ in case only, or coincide across kinds.
VNAMES = [("v1", "v2"), ("vh", "vh/a"), ("Aa", "aA"), ("/", "//"), ("v", "v1"), ("vh1", "vh"), ("a.b", "a-b")]
FNAMES = [("f1", "f2"), ("farm", "farm1"), ("Ff", "fF"), ("n1", "n2"), ("ff", "f")]
BNAMES = [("b1", "b2", "b3", "b4", "b5"), ("b", "b1", "b10", "B", "bb"), ("n1", "n2", "n3", "n4", "n5"),
          ("Bb", "bB", "BB", "b", "B"), ("back", "backend", "bac", "ba", "b")]


def naming(key):
    """Names for one execution, determined by a number."""
    n = {}
    for group, first in ((VNAMES, "v"), (FNAMES, "f"), (BNAMES, "b")):
        t = group[key % len(group)]
        key //= len(group)
        n.update({"%s%d" % (first, i + 1): x for i, x in enumerate(t)})
    return n


class Client:
    def __init__(self, name):
        self.name = name
        self.conn = None        # our side of the client connection
        self.bconn = None       # the broker connection made for it
        self.stage = 0          # how far the client goes by itself
        self.bs = 4
        self.n = self.m = 0
        self.v = ""
        self.cap = False
        self.authconn = None


class Driver:
    def __init__(self, slot, build="plain", wait=3.0, settle=0.004, tail=0.05):
        self.w = World(slot, build=build)
        self.wait, self.settle, self.tail = wait, settle, tail
        self.cl = {}
        self.un = []            # broker connections not yet attributed
        self.allb = []
        self.owner = None       # who the next broker connection is for
        self.N = naming(0)
        self.reset()

    def reset(self):
        self.o_cl = {c: [] for c in self.cl}
        self.o_br = {c: [] for c in self.cl}
        self.o_au = []
        self.o_x = []

    # -- names -----------------------------------------------------------
    def back(self, kind, real):
        """The specification's name of something."""
        for k, r in self.N.items():
            if k[0] == kind and r == real:
                return k
        return "?" + real

    def vback(self, real):
        return self.back("v", real) if real else ""

    def addr(self, a):
        return self.w.ip(int(a[1]), 1 if a.endswith("x") else 0)

    def aname(self, ip):
        for i in range(1, 8):
            for alt in (0, 1):
                if self.w.ip(i, alt) == ip:
                    return "b%d%s" % (i, "x" if alt else "")
        return None

    # -- set-up ----------------------------------------------------------
    def begin(self, beh):
        cfg = beh["cfg"]
        first = beh["steps"][0]["out"]["cl"]
        self.cl = {c: Client(c) for c in sorted(first)}
        self.N = naming(zlib.crc32(json.dumps([s["ev"] for s in beh["steps"]], sort_keys=True).encode()))
        self.reset()
        w = self.w
        w.start()
        self.authport = BPORT + 8
        w.broker_listen("auth", w.ip(0), self.authport, self.on_auth)
        for a in beh["up"]:
            w.broker_listen(a, self.addr(a), BPORT, self.on_broker)
        self.vh = sorted(cfg["map"])
        self.dc = cfg["dc"]
        if cfg["dc"] != "d0":
            w.ctl("DATACENTER SET " + cfg["dc"])
        for b in sorted(cfg["bk"]):
            k = cfg["bk"][b]
            if k["ex"]:
                self.badd(b, k["dc"], k["px"], k["ad"])
        for f in sorted(cfg["fm"]):
            k = cfg["fm"][f]
            if k["ex"]:
                w.ctl("FARM ADD %s round-robin %s" % (self.N[f], " ".join(self.N[b] for b in sorted(k["mem"]))))
                if k["aff"]:
                    w.ctl("FARM PARTITION %s datacenter-affinity" % self.N[f])
        for v in sorted(cfg["map"]):
            if cfg["map"][v] != "none":
                self.map_(v, cfg["map"][v])
        if cfg["dflt"] != "none":
            w.ctl("MAP DEFAULT " + self.N[cfg["dflt"]])
        for v in cfg["paused"]:
            w.ctl("VHOST PAUSE " + self.N[v])
        for v, x in cfg["lim"].items():
            if x != "none":
                self.limit("VHOST " + self.N[v], x)
        if cfg["dlim"] != "none":
            self.limit("DEFAULT", cfg["dlim"])
        if cfg["auth"] != "off":
            self.auth(cfg["auth"])
        w.listen()
        w.new_log()

    def badd(self, b, dc, px, ad):
        return self.w.ctl("BACKEND ADD %s %s %s %d%s" % (
            self.N[b], dc, self.addr(b + ("x" if ad else "")), BPORT, " SEND-PROXY" if px else ""))

    def map_(self, v, t):
        return self.w.ctl("MAP %s %s %s" % ("FARM" if t[0] == "f" else "BACKEND", self.N[v], self.N[t]))

    def limit(self, who, x):
        if x == "none":
            return self.w.ctl("LIMIT DISABLE CONN_RATE " + who)
        return self.w.ctl("LIMIT CONN_RATE %s 0" % who)

    def auth(self, x):
        if x == "off":
            return self.w.ctl("AUTH ALWAYS_ALLOW")
        return self.w.ctl("AUTH SERVICE %s %d /authorize" % (self.w.ip(0), self.authport if x == "on" else BPORT + 9))

    # -- peers -----------------------------------------------------------
    def on_broker(self, key, conn):
        conn.addr = key
        conn.toks = ["conn:" + key]
        conn.who = None
        conn.got_hdr = False
        conn.ended = False
        conn.bs = 4
        self.allb.append(conn)
        if self.owner is not None:
            self.claim(conn, self.owner)
        else:
            self.un.append(conn)

    def claim(self, conn, c):
        k = self.cl[c]
        if k.bconn is not None:
            self.o_x.append("second broker connection for " + c)
            return
        conn.who = c
        conn.bs = k.bs
        k.bconn = conn
        self.o_br[c] += conn.toks
        conn.toks = []

    def btok(self, conn, t):
        if conn.who:
            self.o_br[conn.who].append(t)
        else:
            conn.toks.append(t)

    def props(self, c):
        k = self.cl[c]
        p = [("product", ("S", b"verif")), ("connection_name", ("S", c.encode()))]
        caps = [("authentication_failure_close", ("t", True)), ("basic.nack", ("t", True))] if k.cap else [
            ("basic.nack", ("t", True))]
        return p + [("capabilities", ("F", caps))]

    def cred(self, c):
        return ("PLAIN", b"\0user-" + c.encode() + b"\0pw-" + c.encode())

    def alt(self, c):
        return ("AMQPLAIN", b"alt-" + c.encode())

    def tunes(self, c):
        i = int(c[1:])
        return dict(ch=100 + i, fm=100000 + i, hb=20 + i)

    # client side input
    def client_input(self, k):
        c = k.name
        conn = k.conn
        if conn is None:
            return
        frames, rest, ok = amqp.parse_frames(conn.inb)
        conn.inb = bytearray(rest)
        for t, ch, pl in frames:
            tok = self.ctoken(k, t, ch, pl)
            if tok == "start" and k.stage >= 3:
                m, r = self.cred(c)
                conn.send(amqp.startok(self.props(c), m, r))
            elif tok == "tune" and k.stage >= 4:
                conn.send(amqp.tuneok(**self.tunes(c)))
                if k.stage >= 5:
                    conn.send(amqp.open_(self.N[k.v]))
            self.o_cl[c].append(tok)
        if not ok:
            self.o_cl[c].append("garbage")
            conn.inb.clear()
        if conn.eof and not conn.ended:
            conn.ended = True
            self.o_cl[c].append("eof")

    def ctoken(self, k, t, ch, pl):
        c = k.name
        if t == 8:
            return "beat"
        if t == 3:
            m = re.match(rb"B:(c\d+):(\d+):", pl)
            return "d:%s:%d" % (m.group(1).decode(), int(m.group(2))) if m else "body?"
        if t == 1:
            try:
                name, f = amqp.decode_method(pl)
            except ValueError:
                return "bad-method"
            if name == "close":
                code, text = f["code"], f["text"].decode("latin1")
                if code == 403:
                    want = getattr(k, "reason", None)
                    return "close:403" if want is None or text == want[:255] else "close:403:" + text[:20]
                if code == 506:
                    hit = [x for x in self.N if x[0] == "v" and
                           re.search(r"(?<![\w/.-])%s(?![\w/.-])" % re.escape(self.N[x]), text)]
                    return "close:506:" + (hit[0] if len(hit) == 1 else "?" + text)
                if code == 320:
                    return "close:320:" + text
                return "close:%d" % code
            if name == "openok" or name == "closeok" or name == "start" or name == "tune":
                return name
            return name
        return "frame-%d" % t

    # broker side input
    def broker_input(self, conn):
        if not conn.got_hdr:
            b = conn.inb
            if b.startswith(b"PROXY") or b"PROXY".startswith(bytes(b[:5])) and len(b) < 5:
                i = b.find(b"\r\n")
                if i < 0:
                    if conn.eof and not conn.ended:
                        conn.ended = True
                        self.btok(conn, "eof")
                    return
                self.btok(conn, "proxy")
                del b[:i + 2]
            if len(b) >= 8:
                self.btok(conn, "hdr" if bytes(b[:8]) == amqp.HEADER else "badhdr")
                del b[:8]
                conn.got_hdr = True
                if conn.bs >= 2:
                    conn.send(amqp.start([("product", ("S", b"fake"))], "PLAIN AMQPLAIN"))
        if conn.got_hdr:
            frames, rest, ok = amqp.parse_frames(conn.inb)
            conn.inb = bytearray(rest)
            for t, ch, pl in frames:
                self.broker_frame(conn, t, ch, pl)
            if not ok:
                self.btok(conn, "garbage")
                conn.inb.clear()
        if conn.eof and not conn.ended:
            conn.ended = True
            self.btok(conn, "eof")

    def broker_frame(self, conn, t, ch, pl):
        if t == 3:
            m = re.match(rb"C:(c\d+):(\d+):", pl)
            return self.btok(conn, "d:%s:%d" % (m.group(1).decode(), int(m.group(2))) if m else "body?")
        if t == 8:
            return self.btok(conn, "beat")
        if t != 1:
            return self.btok(conn, "frame-%d" % t)
        try:
            name, f = amqp.decode_method(pl)
        except ValueError:
            return self.btok(conn, "bad-method")
        if name == "startok":
            c = dict(f["props"]).get(b"connection_name", (0, b"?"))[1].decode("latin1")
            if conn.who is None and c in self.cl and self.many and conn in self.un:
                self.un.remove(conn)
                self.claim(conn, c)
            mr = (f["mech"].decode("latin1"), f["resp"])
            s = "?"
            if c in self.cl:
                s = "own" if mr == self.cred(c) else "alt" if mr == self.alt(c) else "?"
                have = [(n, v) for n, v in f["props"] if not n.startswith(b"amqpprox_")]
                if have != [(n.encode(), norm(v)) for n, v in self.props(c)]:
                    s += "-props"
            self.btok(conn, "startok:%s:%s" % (c, s))
            if conn.bs >= 3:
                conn.send(amqp.tune())
        elif name == "tuneok":
            c = conn.who
            ok = c is not None and {x: f[x] for x in ("ch", "fm", "hb")} == self.tunes(c)
            self.btok(conn, "tuneok" if ok else "tuneok?")
        elif name == "open":
            self.btok(conn, "open:" + self.vback(f["vhost"].decode("latin1")))
            if conn.bs >= 4:
                conn.send(amqp.openok())
        elif name == "close":
            self.btok(conn, "close:%d" % f["code"])
        else:
            self.btok(conn, name)

    # auth service
    def on_auth(self, key, conn):
        conn.done = False
        self.auths.append(conn)

    auths = None
    many = False

    def auth_input(self, conn):
        if conn.done:
            return
        i = conn.inb.find(b"\r\n\r\n")
        if i < 0:
            return
        head = bytes(conn.inb[:i]).decode("latin1")
        m = re.search(r"content-length:\s*(\d+)", head, re.I)
        n = int(m.group(1)) if m else 0
        if len(conn.inb) < i + 4 + n:
            return
        body = bytes(conn.inb[i + 4:i + 4 + n])
        conn.done = True
        try:
            q = pbuf.parse(body)
            d = pbuf.parse(q.get(2, b""))
            c = q.get(4, b"").decode("latin1")
            v = self.vback(q.get(1, b"").decode("latin1"))
            ok = c in self.cl and (d.get(1, b"").decode("latin1"), d.get(2, b"")) == self.cred(c)
            ok = ok and head.startswith("POST /authorize ")
        except ValueError:
            c, v, ok = "?", "?", False
        self.o_au.append(("req:%s:%s" if ok else "req?:%s:%s") % (c, v))
        if c in self.cl:
            self.cl[c].authconn = conn

    def pump(self):
        for k in self.cl.values():
            self.client_input(k)
        for b in self.allb:
            if not b.closed:
                self.broker_input(b)
        for a in self.auths:
            if not a.closed:
                self.auth_input(a)

    # -- one step --------------------------------------------------------
    def step(self, ev, want):
        w = self.w
        op = ev["op"]
        self.reset()
        self.many = want["att"] == ["*"]
        c = ev.get("c")
        k = self.cl.get(c)
        self.owner = c if op in ("Dial", "Go", "AuthReply") else None
        if op == "Unpause" and not self.many:
            who = [x for x in self.cl if want["br"][x] and want["br"][x][0].startswith("conn:")]
            self.owner = who[0] if len(who) == 1 else None
        if self.many:
            for x in self.cl.values():
                if x.bconn is None and x.v == ev["v"] and x.stage == 5:
                    x.bs = 4
        ctl, q = "", []
        ans = self.perform(op, ev, k)
        if op in CONTROL:
            ctl = "ok" if ans.strip() == "" else "err"
        size = lambda s: len([t for t in s if t != "proxy"])

        def done():
            self.pump()
            return all(size(self.o_cl[x]) >= size(want["cl"][x]) and size(self.o_br[x]) >= size(want["br"][x])
                       for x in self.cl) and len(self.o_au) >= len(want["au"])
        t0 = time.monotonic()
        w.run(done, self.wait)
        if time.monotonic() - t0 > 1 and SLOW is not None:
            SLOW(ev, want, dict(cl=self.o_cl, br=self.o_br, au=self.o_au))
        w.quiet(self.tail if op == "End" else self.settle)
        self.pump()
        if op in ("Conns", "Prints", "Bad"):
            fn = self.conns if op == "Conns" else self.prints
            # which backend was chosen is up to the proxy (the specification judges it)
            blur = (lambda s: re.sub(r"\|b\d+x?", "|b", s)) if op == "Conns" else (lambda s: s)
            wq = sorted(map(blur, want["q"]))
            t0 = time.monotonic()
            while True:
                q = fn()
                if sorted(map(blur, q)) == wq or time.monotonic() - t0 > min(self.wait, 2.0):
                    break
                w.quiet(0.01)
        # connection attempts
        att = []
        for l in w.new_log():
            f = l.split()
            if f[0] == "C" and f[2] == str(BPORT):
                att.append(self.aname(f[1]) or f[1])
            elif f[0] == "C" and f[1].startswith("127.") and int(f[2]) not in (self.authport, BPORT + 9):
                att.append(f[1] + ":" + f[2])
        if self.many:
            att = ["*"]
        for b in self.un:
            self.o_x += b.toks
            b.toks = []
        if not w.alive():
            self.o_x.append("proxy died")
        out = dict(cl=self.o_cl, br=self.o_br, att=att, au=sorted(self.o_au), q=sorted(q), x=list(self.o_x), ctl=ctl)
        self.after()
        return out

    def after(self):
        """Let go of connections that ended."""
        for k in self.cl.values():
            if k.conn is not None and k.conn.ended:
                k.conn.close()
                k.conn = None
            if k.bconn is not None and k.bconn.ended:
                k.bconn.close()
                k.bconn = None
        for b in list(self.un):
            if b.ended:
                b.close()
                self.un.remove(b)
        self.allb = [b for b in self.allb if not b.closed]

    def perform(self, op, ev, k):
        w = self.w
        if op == "BAdd":
            return self.badd(ev["b"], ev["d"], ev["px"], ev["ad"])
        if op == "BDel":
            return w.ctl("BACKEND DELETE " + self.N[ev["b"]])
        if op == "FAdd":
            return w.ctl("FARM ADD %s round-robin %s" % (self.N[ev["f"]], " ".join(self.N[b] for b in ev["mem"])))
        if op == "FPart":
            return w.ctl("FARM PARTITION %s datacenter-affinity" % self.N[ev["f"]])
        if op == "FDel":
            return w.ctl("FARM DELETE " + self.N[ev["f"]])
        if op == "Map":
            return self.map_(ev["v"], ev["t"])
        if op == "Unmap":
            return w.ctl("MAP UNMAP " + self.N[ev["v"]])
        if op == "Dflt":
            return w.ctl("MAP DEFAULT " + self.N[ev["f"]])
        if op == "NoDflt":
            return w.ctl("MAP REMOVE_DEFAULT")
        if op == "Bad":
            return w.ctl(" ".join(self.N.get(t, t) for t in ev["t"]))
        if op == "DcSet":
            return w.ctl("DATACENTER SET " + ev["d"])
        if op == "Lim":
            return self.limit("VHOST " + self.N[ev["v"]], ev["x"])
        if op == "DLim":
            return self.limit("DEFAULT", ev["x"])
        if op == "Auth":
            return self.auth(ev["x"])
        if op in ("Pause", "Unpause"):
            self.reaped()
            return w.ctl("VHOST %s %s" % (op.upper(), self.N[ev["v"]]))
        if op in ("VForce", "VBack"):
            return w.ctl("VHOST %s %s" % ("FORCE_DISCONNECT" if op == "VForce" else "BACKEND_DISCONNECT", self.N[ev["v"]]))
        if op in ("Force", "Graceful"):
            sid = self.session(k)
            return w.ctl("SESSION %s %s" % (sid, "FORCE_DISCONNECT" if op == "Force" else "DISCONNECT_GRACEFUL"))
        if op == "Up":
            return w.broker_listen(ev["a"], self.addr(ev["a"]), BPORT, self.on_broker)
        if op == "Down":
            return w.broker_unlisten(ev["a"])
        if op == "Dial":
            if k.conn is not None:
                k.conn.close()
            k.v, k.stage, k.bs, k.cap, k.n, k.m = ev["v"], ev["k"], ev["bs"], ev["cap"], 0, 0
            k.reason = None
            k.conn = w.dial()
            k.conn.ended = False
            if k.stage >= 2:
                k.conn.send(amqp.HEADER)
            return
        if op == "Go":
            st, k.stage = k.stage, 5
            if k.conn is None:
                return
            if st == 1:
                k.conn.send(amqp.HEADER)
            elif st == 2:
                m, r = self.cred(k.name)
                k.conn.send(amqp.startok(self.props(k.name), m, r))
            elif st == 3:
                k.conn.send(amqp.tuneok(**self.tunes(k.name)) + amqp.open_(self.N[k.v]))
            elif st == 4:
                k.conn.send(amqp.open_(self.N[k.v]))
            return
        if op in ("Conns", "Prints", "End"):
            return
        # the rest act on existing connections; if one is gone unexpectedly there is nothing to do
        if op in ("CSend", "CBeat", "CClose", "CCloseOk"):
            if k.conn is None:
                return
            if op == "CSend":
                k.n += 1
                k.conn.send(amqp.frame(3, 1, b"C:%s:%d:" % (k.name.encode(), k.n) + b"x" * (13 * k.n)))
            elif op == "CBeat":
                k.conn.send(amqp.HEARTBEAT)
            elif op == "CClose":
                k.conn.send(amqp.close(200, "bye"))
            else:
                k.conn.send(amqp.closeok())
            return
        if op == "CEof":
            if k.conn is None:
                return
            if ev["k"] == "half":
                k.conn.half_close()
            else:
                k.conn.close(rst=ev["k"] == "rst")
                k.conn = None
            return
        b = k.bconn
        if op == "AuthReply":
            return self.auth_reply(k, ev["r"])
        if b is None:
            return
        if op == "BGo":
            st, b.bs = b.bs, 4
            b.send({1: amqp.start([("product", ("S", b"fake"))], "PLAIN AMQPLAIN"), 2: amqp.tune(), 3: amqp.openok()}[st])
        elif op == "BSend":
            k.m += 1
            b.send(amqp.frame(3, 1, b"B:%s:%d:" % (k.name.encode(), k.m) + b"y" * (17 * k.m)))
        elif op == "BClose":
            b.send(amqp.close(320, "T-" + k.name))
        elif op == "BCloseOk":
            b.send(amqp.closeok())
        elif op == "BEof":
            if ev["k"] == "half":
                b.half_close()
            else:
                b.close(rst=ev["k"] == "rst")
                k.bconn = None
        else:
            raise Infra("unknown op " + op)

    def auth_reply(self, k, r):
        a, k.authconn = k.authconn, None
        if a is None:
            return
        if r == "cut":
            a.close()
            return
        status = 200
        k.reason = None
        if r == "allow":
            body = pbuf.fld(1, 0) + pbuf.fld(2, "welcome")
        elif r == "alt":
            m, resp = self.alt(k.name)
            body = pbuf.fld(1, 0) + pbuf.fld(3, pbuf.fld(1, m) + pbuf.fld(2, resp))
        elif r in ("deny", "long"):
            k.reason = "no-" + k.name if r == "deny" else "L" * 400
            body = pbuf.fld(1, 1) + pbuf.fld(2, k.reason)
        elif r in ("500", "404"):
            status = int(r)
            body = pbuf.fld(1, 0) + pbuf.fld(2, "welcome")
        elif r == "junk":
            body = b"\x0a\xff\xff\xff\xff\x0f junk"
        elif r == "unknown":
            body = pbuf.fld(1, 7)
        else:
            raise Infra(r)
        a.send(b"HTTP/1.1 %d X\r\nContent-Type: application/octet-stream\r\nContent-Length: %d\r\n\r\n" % (
            status, len(body)) + body)

    def reaped(self):
        """Wait until sessions of departed clients are gone (a held one is not distinguished from
        a live one until the next clean-up pass)."""
        t0 = time.monotonic()
        while time.monotonic() - t0 < 1.0 and any(q.startswith("?") for q in self.conns()):
            self.w.quiet(0.005)

    # -- queries ---------------------------------------------------------
    def session(self, k):
        if k.conn is None:
            return "999999"
        port = k.conn.local_port()
        for l in self.w.ctl("CONN").split("\n"):
            m = re.search(r"\bid=(\d+) .*ingressRemote=\S+:(\d+) ", l)
            if m and int(m.group(2)) == port:
                return m.group(1)
        return "999999"

    def conns(self):
        ports = {k.conn.local_port(): c for c, k in self.cl.items() if k.conn is not None and not k.conn.closed}
        q = []
        for l in self.w.ctl("CONN").split("\n"):
            m = re.search(r"\bid=(\d+) vhost=(\S*) disconnected=(.) paused=(.).*ingressRemote=\S+:(\d+) .*egressRemote=(\S+):(\d+)", l)
            if not m:
                continue
            c = ports.get(int(m.group(5)), "?")
            b = "-" if m.group(7) == "0" else self.aname(m.group(6)) or m.group(6)
            q.append("%s|%s|%s%s%s" % (c, self.vback(m.group(2)), b, "|P" if m.group(4) == "Y" else "", "|X" if m.group(3) == "Y" else ""))
        return q

    def prints(self):
        w = self.w
        q = []
        for l in w.ctl("BACKEND PRINT").split("\n"):
            m = re.match(r"(\S+) \((\S*)\): (\S+) (\S+):(\d+)(.*)$", l)
            if m:
                a = self.aname(m.group(4)) or m.group(4)
                q.append("B|%s|%s|%s%s" % (self.back("b", m.group(1)), m.group(2), a, "|P" if "PROXY" in m.group(6) else ""))
        for l in w.ctl("FARM PRINT").split("\n"):
            m = re.match(r"(\S+): (.*)$", l)
            if m:
                f = self.back("f", m.group(1))
                q.append("F|" + f)
                q += ["F|%s|%s" % (f, self.back("b", b)) for b in m.group(2).split()]
        for l in w.ctl("MAP PRINT").split("\n"):
            m = re.match(r'"(\S+)" => (Farm|Backend):(\S+)', l)
            if m:
                q.append("M|%s|%s" % (self.vback(m.group(1)), self.back("f" if m.group(2) == "Farm" else "b", m.group(3))))
        q.append("D|" + (w.ctl("DATACENTER PRINT").strip() or "d0"))
        for l in w.ctl("VHOST PRINT").split("\n"):
            m = re.match(r"(\S+) = (\S+)", l)
            if m and m.group(2).upper().startswith(("Y", "P")):
                q.append("P|" + self.vback(m.group(1)))
        for v in self.vh:
            t = w.ctl("LIMIT PRINT " + self.N[v])
            m = re.search(r"^For vhost %s, [Aa]llow average (\d+)" % re.escape(self.N[v]), t, re.M)
            if m:
                q.append("L|%s|%s" % (v, m.group(1)))
        return q

    def stop(self):
        return self.w.stop()


def norm(fv):
    t, v = fv
    if t == "F":
        return ("F", [(n.encode() if isinstance(n, str) else n, norm(x)) for n, x in v])
    if t == "A":
        return ("A", [norm(x) for x in v])
    return (t, v)


def record(beh, slot, build="plain", wait=3.0, settle=0.004):
    """Runs one behaviour; returns {pre, steps} as observed."""
    d = Driver(slot, build=build, wait=wait, settle=settle)
    d.auths = []
    try:
        d.begin(beh)
        steps = []
        for s in in_time(beh["steps"]):
            out = d.step(s["ev"], s["out"])
            steps.append({"ev": s["ev"], "out": out})
            if "proxy died" in out["x"]:
                break
        if "proxy died" not in steps[-1]["out"]["x"] and len(steps) == len(beh["steps"]):
            empty = {c: [] for c in d.cl}
            steps.append({"ev": {"op": "End"}, "out": d.step(
                {"op": "End"}, dict(cl=empty, br=empty, att=[], au=[], q=[]))})
        return {"pre": beh["pre"], "steps": steps}
    finally:
        d.stop()
