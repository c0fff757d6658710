"""Drives the real proxy through behaviours of spec/Handshake.tla."""
import os, random, re, socket, struct
import amqp
from sut import World, Conn, Listener, Infra, BPORT, in_time
from tlsconn import TlsConn, CERT, KEY

R = random.Random(7)
S = [b"", b"abc", bytes(range(255)), bytes(range(256)), R.randbytes(60000), R.randbytes(120000)]
SAMPLES = {
    "t": [False, True], "b": [0, 127, -128, -1], "B": [0, 1, 255, 128], "s": [0, 32767, -32768, -2], "U": [0, 32767, -32768, -2],
    "u": [0, 1, 65535, 0x8001], "I": [0, 2**31 - 1, -2**31, -3], "i": [0, 1, 2**32 - 1, 2**31 + 1],
    "L": [0, 2**63 - 1, -2**63, -4], "l": [0, 2**63 - 1, 2**63, 2**64 - 5], "T": [0, 1, 2**64 - 1, 2**63 + 1],
    "f": [b"\0\0\0\0", b"\x7f\xc0\0\1", b"\xff\xff\xff\xff", b"\x3f\x80\0\0"],
    "d": [b"\0" * 8, b"\x7f\xf8\0\0\0\0\0\1", b"\xff" * 8, b"\x40\x09\x21\xfb\x54\x44\x2d\x18"],
    "D": [(0, 0), (255, -1), (2, 2**31 - 1), (128, -2**31)], "S": S, "x": S, "V": [None]}
NAMES = {"n0": b"product", "n1": b"", "n2": bytes(range(255)), "n3": "n\u00e4me \u2603".encode(), "n4": b"Product", "n5": b"x.y", "caps": b"capabilities"}
MECH = {"m0": b"PLAIN", "m1": b"AMQPLAIN", "m2": b"", "m3": b"M" * 255}
RESP = {"r0": b"", "r1": b"\0user\0pass", "r2": bytes(range(256)), "r3": R.randbytes(9000)}
LOC = {"l0": b"en_US", "l1": b"", "l2": b"L" * 255}
TUNE = {"t0": (2047, 131072, 60), "t1": (0, 0, 0), "t2": (65535, 2**32 - 1, 65535), "t3": (1, 4096, 1)}
VH = {"v0": b"/", "v1": b"", "v2": b"V" * 255, "v3": "v\u00f6/\u2603".encode(), "v4": b"\xff \x01z\x7f"}


def to_value(v):
    t = v["t"]
    if t == "A":
        return ("A", [to_value(x) for x in list(v["v"])])
    if t == "F":
        return ("F", to_table(v["v"]))
    if t == "N":
        return nest(v["k"], to_value(v["v"]))
    return (t, SAMPLES[t][v["i"]])


def nest(k, v):
    for i in range(1, k + 1):
        v = ("A", [v]) if i % 2 == 0 else ("F", [(NAMES["n0"], v)])
    return v


def unnest(fv):
    """(k, value) if fv is nest(k, value)."""
    k, v = 0, fv
    while v[0] in "AF" and len(v[1]) == 1:
        v = v[1][0] if v[0] == "A" else v[1][0][1]
        k += 1
    return (k, v) if k >= 8 and nest(k, v) == fv else (0, fv)


def to_table(ps):
    return [(NAMES.get(p["n"], p["n"].encode()), to_value(p["v"])) for p in (ps or [])]


def back(table, x):
    for k, v in table.items():
        if v == x:
            return k
    return "?" + repr(x)[:60]


def from_value(fv):
    k, x = unnest(fv)
    if k:
        return dict(t="N", k=k, v=from_value(x))
    t, v = fv
    if t == "A":
        return dict(t="A", v=[from_value(x) for x in v])
    if t == "F":
        return dict(t="F", v=from_table(v))
    try:
        return dict(t=t, i=SAMPLES[t].index(v))
    except (KeyError, ValueError):
        return dict(t=t, i="?" + repr(v)[:60])


def from_table(tab):
    return [dict(n=back(NAMES, n), v=from_value(v)) for n, v in tab]


# what the broker says of itself: nothing, something, much, and more than a pool buffer
STARTS = {"s0": ([], "", ""),
          "s1": ([("product", ("S", b"fake")), ("deep", ("A", [("F", [("x", ("D", (1, 2)))]), ("V", None), ("l", 5)]))], "PLAIN AMQPLAIN", "en_US fr"),
          "s2": ([("capabilities", ("F", [("c%d" % i, ("t", True)) for i in range(40)])), ("cluster_name", ("S", b"r" * 300))], "PLAIN " * 60, "en_US"),
          "s3": ([("information", ("S", b"i" * 100000))], "EXTERNAL", "x" * 1000)}
OKS = {"k0": b"", "k1": b"a:5672", "k2": b"h" * 100, "k3": b"k" * 255}


def openok(hosts):
    return amqp.method(10, 41, amqp.shortstr(hosts))


def skip_proxy(conn, raw):
    """The clear text in front of the TLS handshake."""
    if getattr(conn, "past", False):
        return raw
    conn.clear += raw
    if conn.clear[:1] == b"P":
        i = conn.clear.find(b"\r\n")
        if i < 0:
            return b""
        rest = bytes(conn.clear[i + 2:])
        del conn.clear[i + 2:]
    else:
        rest = bytes(conn.clear)
        conn.clear.clear()
    if rest[:1] == b"P":
        conn.more = rest        # a second line: never TLS
        return b""
    if rest:
        conn.past = True
    return rest


class Hand:
    def __init__(self, slot, pre, wait, settle):
        self.w = World(slot)
        self.pre, self.wait, self.settle = pre, wait, settle
        self.newb = []

    def begin(self):
        w = self.w
        w.start()
        lis, farm = self.pre.split("/")
        self.secure = lis == "s"
        if self.secure:
            w.ctl("TLS INGRESS CERT_CHAIN_FILE " + CERT)
            w.ctl("TLS INGRESS KEY_FILE " + KEY)
        names = []
        for i, k in enumerate(farm.split(","), 1):
            up = not k.startswith("D")
            k = k.lstrip("D")
            opts = (" TLS" if "t" in k else "") + (" SEND-PROXY" if "x" in k else "")
            dns = "n" in k
            if dns:
                w.set_hosts({"bhost%d" % i: [w.ip(i)]})
            w.ctl("BACKEND ADD%s b%d dc1 %s %d%s" % ("_DNS" if dns else "", i, "bhost%d" % i if dns else w.ip(i), BPORT, opts))
            names.append("b%d" % i)
            if up:
                def acc(l, sock, addr, tls="t" in k, i=i):
                    c = TlsConn(w, sock, "broker", True, skip=skip_proxy) if tls else Conn(w, sock, "broker")
                    c.clear = getattr(c, "clear", bytearray())
                    c.ip = w.ip(i)
                    w.conns.append(c)
                    self.newb.append(c)
                w.listeners["b%d" % i] = Listener(w, w.ip(i), BPORT, acc)
        w.ctl("FARM ADD f round-robin " + " ".join(names))
        w.ctl("MAP DEFAULT f")
        w.listen(secure=self.secure)

    def dial(self, i):
        w = self.w
        c = w.dial(src="127.0.0.%d" % (10 + i))
        if self.secure:
            w.sel.unregister(c.s)
            w.conns.remove(c)
            c = TlsConn(w, c.s, "client", False)
            w.conns.append(c)
        c.toks, c.i = [], i
        return c

    def put(self, c, data, seg, r):
        if seg == "whole":
            c.send(data)
        elif seg == "bytes":
            k = min(len(data), 150)
            for i in range(k):
                c.send(data[i:i + 1])
                self.w.poll(0.0003)
            c.send(data[k:])
        else:
            n = r.randint(2, 4)
            cuts = sorted(r.randint(0, len(data)) for _ in range(n - 1))
            for a, b in zip([0] + cuts, cuts + [len(data)]):
                c.send(data[a:b])
                self.w.quiet(0.001)

    def client_in(self, c, e, r):
        fr, rest, ok = amqp.parse_frames(c.inb)
        c.inb = bytearray(rest)
        for t, ch, pl in fr:
            if t == 8:
                c.toks.append("beat")
                continue
            try:
                nm = amqp.decode_method(pl)[0] if t == 1 else "frame%d" % t
            except ValueError:
                nm = "bad"
            if nm == "openok" and pl != openok(OKS[e["bok"]])[7:-1]:
                nm = "another openok"
            c.toks.append(nm)
            if nm == "start":
                m, rs, l = MECH[e["mech"]], RESP[e["resp"]], LOC[e["loc"]]
                props = to_table(e["props"]) + [(b"vid", ("S", b"%d" % c.i))]
                tail = amqp.tuneok(*TUNE[e["tune"]]) + amqp.open_(VH[e["vh"]])
                if e["seg"] == "eager":     # everything at once, without waiting for Tune
                    self.put(c, amqp.startok(props, m, rs, l) + tail, "whole", r)
                else:
                    self.put(c, amqp.startok(props, m, rs, l), e["seg"], r)
            elif nm == "tune" and e["seg"] != "eager":
                self.put(c, amqp.tuneok(*TUNE[e["tune"]]) + amqp.open_(VH[e["vh"]]), e["seg"], r)
        if not ok:
            c.toks.append("garbage")
            c.inb.clear()

    def broker_in(self, b, e, r, upto=3):
        if not hasattr(b, "st"):
            b.st, b.toks, b.who, b.before, b.got = 0, [], 0, [], {}
        if b.st == 0:
            while True:
                src = b.clear if isinstance(b, TlsConn) else b.inb
                if src[:1] != b"P":
                    break
                i = src.find(b"\r\n")
                if i < 0:
                    break
                b.before.append(bytes(src[:i + 2]))
                del src[:i + 2]
            if len(b.inb) >= 8 and b.inb[:1] != b"P":
                b.toks.append("hdr" if bytes(b.inb[:8]) == amqp.HEADER else "badhdr")
                del b.inb[:8]
                b.st = 1
                if upto >= 2:
                    start = amqp.start(*STARTS[e["bst"]])
                    self.put(b, start, e["bseg"], r)
        if b.st == 0:
            return
        fr, rest, ok = amqp.parse_frames(b.inb)
        b.inb = bytearray(rest)
        for t, ch, pl in fr:
            if t == 8:
                b.toks.append("beat")
                continue
            try:
                nm, f = amqp.decode_method(pl) if t == 1 and ch == 0 else ("frame%d" % t, {})
            except ValueError:
                nm, f = "bad", {}
            if f.get("rest") and nm != "open":
                nm += "+rest"
            b.toks.append(nm)
            if nm == "startok":
                p = f["props"]
                vid = [v for n, v in p if n == b"vid"]
                b.who = int(vid[-1][1]) if len(vid) == 1 and vid[0][0] == "S" else 0
                b.got = dict(props=from_table([x for x in p if x[0] not in (b"vid", b"amqpprox_client", b"amqpprox_host")]),
                             mech=back(MECH, f["mech"]), resp=back(RESP, f["resp"]), loc=back(LOC, f["locale"]),
                             client=[v for n, v in p if n == b"amqpprox_client"], host=[v for n, v in p if n == b"amqpprox_host"])
                if upto >= 3:
                    self.put(b, amqp.tune(*TUNE[e["btu"]]), e["bseg"], r)
            elif nm == "tuneok":
                b.got["tune"] = back(TUNE, (f["ch"], f["fm"], f["hb"]))
            elif nm == "open":
                b.got["vh"] = back(VH, f["vhost"]) if f["rest"] == b"\0\0" else "?rest"
        if not ok:
            b.toks.append("garbage")
            b.inb.clear()

    def connect(self, e, nth):
        w, r = self.w, random.Random(nth * 31 + len(str(e)))
        self.newb = []
        cl = [self.dial(i) for i in range(1, e["clients"] + 1)]
        ends = {c.s.getsockname(): c.i for c in cl}
        for c in cl:
            self.put(c, amqp.HEADER if e["hdr"] == "091" else b"AMQP\x01\x01\x00\x09", e["seg"], r)

        def pump():
            for c in cl:
                self.client_in(c, e, r)
            for b in self.newb:
                self.broker_in(b, e, r)
        done = lambda: pump() or (len(self.newb) >= len(cl) and all(len(b.toks) >= 4 for b in self.newb) and all(len(c.toks) >= 2 for c in cl))
        w.run(done, self.wait)
        w.quiet(self.settle)
        pump()
        for c in cl:
            c.early, c.toks = c.toks, []
        for b in self.newb:
            b.opened, b.toks = b.toks, []
            self.put(b, openok(OKS[e["bok"]]) + amqp.HEARTBEAT, e["bseg"], r)
        w.run(lambda: pump() or all(len(c.toks) >= 2 for c in cl), self.wait)
        w.quiet(self.settle)
        pump()
        for c in cl:
            c.late = c.toks
            c.send(amqp.HEARTBEAT)
        w.run(lambda: pump() or all(b.toks for b in self.newb), self.wait)
        w.quiet(self.settle)
        pump()
        who = []
        for c in cl:
            bs = [b for b in self.newb if b.who == c.i]
            if len(bs) != 1:
                who.append(dict(brokers=len(bs), seen=[getattr(b, "opened", []) for b in self.newb], early=c.early, late=c.late))
                continue
            b = bs[0]
            before = []
            for l in b.before + ([b.more] if hasattr(b, "more") else []):
                m = re.fullmatch(rb"PROXY TCP4 (\S+) (\S+) (\d+) (\d+)\r\n", l)
                i = m and ends.get((m.group(1).decode(), int(m.group(3))))
                good = i and m.group(2).decode() == b.ip and int(m.group(4)) == BPORT
                before.append("proxy:%d" % i if good else "proxy?" + repr(l))
            # each field must be a long string
            client = []
            for t, v in b.got.pop("client"):
                m = re.fullmatch(r"(\S+):(\d+)( TLS)?", v.decode("latin1")) if t == "S" else None
                i = m and ends.get((m.group(1), int(m.group(2))))
                client.append("%d%s" % (i, m.group(3) or "") if i else "?%s" % (v,))
            want = "(:%d) %s:%d" % (w.ports["main"], socket.gethostname(), b.peer_port())
            host = ["listener,broker-port" if (t, v) == ("S", want.encode()) else "?%s" % (v,) for t, v in b.got.pop("host")]
            who.append(dict(b.got, before=before, br=b.opened, client=client, host=host, early=c.early, late=c.late, after=b.toks))
        for c in cl + self.newb:
            c.close()
        out = dict(who=who)
        if not w.alive():
            out["died"] = w.stderr_tail(500)
        return out

    def forge(self, e):
        w, r = self.w, random.Random(1)
        base = dict(props=[], mech="m0", resp="r1", loc="l0", tune="t0", vh="v0", seg="whole", bseg="whole", bst="s1", btu="t0", bok="k0")
        self.newb = []
        c = self.dial(1)
        c.send(amqp.HEADER)

        def pump():
            self.client_in(c, base, r)
            for b in self.newb:
                self.broker_in(b, base, r, e["stage"])
        n = {1: 1, 2: 2, 3: 4}[e["stage"]]
        w.run(lambda: pump() or (self.newb and len(self.newb[0].toks) >= n), self.wait)
        w.quiet(self.settle)
        ms = dict(start=amqp.start([]), tune=amqp.tune(), openok=amqp.openok(), closeok=amqp.closeok())
        for m in (["start", "tune", "openok"] if e["m"] == "all" else [e["m"]]):
            c.send(ms[m])
            w.quiet(0.01)
            pump()
        w.quiet(max(self.settle, 0.02))
        pump()
        out = dict(who=[], early=c.toks, gone=c.eof, br=self.newb[0].toks if len(self.newb) == 1 else ["?%d" % len(self.newb)])
        for x in [c] + self.newb:
            x.close()
        if not w.alive():
            out["died"] = w.stderr_tail(500)
        return out


def record(beh, wait=4.0, settle=0.003):
    h = Hand(os.getpid() % 60, beh["pre"], wait, settle)
    try:
        h.begin()
        steps = []
        for n, s in enumerate(in_time(beh["steps"])):
            e = s["ev"]
            steps.append({"ev": e, "out": h.forge(e) if e["op"] == "Forge" else h.connect(e, n)})
            if "died" in steps[-1]["out"]:
                break
        return {"pre": beh["pre"], "steps": steps}
    finally:
        h.w.stop()


def record_slow(beh):
    return record(beh, wait=12.0, settle=0.03)
