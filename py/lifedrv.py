"""Starts, ends and restarts real proxy processes after behaviours of spec/Lifecycle.tla."""
import os, signal, socket, subprocess, time
import amqp
from sut import World, Infra, in_time

VH = {"v1": "v1", "a b": "a b", "long": "x" * 200}


class Life:
    def __init__(self, slot, insts, wait):
        self.w = World(slot)        # only for its directory, selector and addresses
        w = self.w
        self.wait = wait
        self.insts = insts
        self.proc = {i: None for i in insts}
        self.port = {i: w.free_port() for i in insts}
        self.occ = {}
        self.cons = {}
        self.bs = []
        self.ip = w.ip(1)
        self.dport = 5672
        w.broker_listen("d", self.ip, self.dport, lambda k, c: self.bs.append(c))
        w.set_hosts({"dest.example": [self.ip]})

    def ctlpath(self, i):
        return os.path.join(self.w.dir, "ctl-" + i)

    def ctl(self, i, cmd):
        self.w.ctlpath = self.ctlpath(i)
        return self.w.ctl(cmd, timeout=self.wait)

    def args(self, i, a):
        p, d = ["--listenPort", str(self.port[i])], ["--destinationDNS", "dest.example"]
        q = ["--destinationPort", str(self.dport)]
        return {"none": [], "simple": p + d + q, "nolisten": d + q, "noport": p + d, "nodns": p + q, "unknown": ["--noSuchOption", "1"],
                "verbosity": ["-v", "6"], "verbose": ["-v", "2"], "help": ["--help"]}[a]

    def start(self, i, a, kill=None):
        w = self.w
        with open(os.path.join(w.dir, "err-" + i), "wb") as f:
            pr = self.proc[i] = subprocess.Popen(
                [w.bin, "--logDirectory", os.path.join(w.dir, "logs-" + i), "--controlSocket", self.ctlpath(i), "--cleanupIntervalMs", "25"]
                + self.args(i, a), stdin=subprocess.DEVNULL, stdout=f, stderr=f, env=w.env, cwd=w.dir)
        if kill is not None:
            time.sleep(kill / 1000)
            pr.kill()
            return self.ended(i)
        end = time.time() + self.wait * 4
        while time.time() < end:
            if pr.poll() is not None:
                self.proc[i] = None
                return str(pr.returncode)
            s = socket.socket(socket.AF_UNIX)
            try:
                s.connect(self.ctlpath(i))
                if a == "simple":
                    # commands of the simplified mode have been carried out once its farm exists
                    self.settle(lambda: "default" in self.ctl(i, "FARM PRINT"))
                    time.sleep(0.03)
                return "running"
            except OSError:
                time.sleep(0.005)
            finally:
                s.close()
        return "stuck"

    def settle(self, pred):
        end = time.time() + self.wait
        while time.time() < end:
            self.w.poll(0.0)
            if pred():
                return True
            time.sleep(0.01)
        return False

    def accepts(self, i):
        s = socket.socket()
        s.settimeout(1)
        try:
            s.connect(("127.0.0.1", self.port[i]))
            s.settimeout(0.05)
            return True
        except OSError:
            return False
        finally:
            s.close()

    def connect(self, i, k, v):
        w = self.w
        n0 = len(self.bs)
        w.ports["main"] = self.port[i]
        try:
            cl = w.dial(self.port[i])
        except (OSError, Infra):
            return "closed"
        cl.send(amqp.HEADER)
        st = {"ok": False, "close": False, "v": None}

        def go():
            fr, rest, ok = amqp.parse_frames(cl.inb)
            cl.inb = bytearray(rest)
            for t, ch, pl in fr:
                nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                if nm == "start":
                    cl.send(amqp.startok([], "PLAIN", b"\0u\0p"))
                elif nm == "tune":
                    cl.send(amqp.tuneok() + amqp.open_(VH[v]))
                elif nm == "openok":
                    st["ok"] = True
                elif nm == "close":
                    st["close"] = True
            for b in self.bs[n0:]:
                if not getattr(b, "hdr", False) and len(b.inb) >= 8:
                    del b.inb[:8]
                    b.hdr = True
                    b.send(amqp.start([]))
                if getattr(b, "hdr", False):
                    fr, rest, ok = amqp.parse_frames(b.inb)
                    b.inb = bytearray(rest)
                    for t, ch, pl in fr:
                        nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                        if nm == "startok":
                            b.send(amqp.tune())
                        elif nm == "open":
                            b.send(amqp.openok())
            return st["ok"] or cl.eof or st["close"]
        w.run(go, self.wait)
        if st["ok"] and len(self.bs) == n0 + 1:
            self.cons[k] = (i, cl, self.bs[-1])
            return "open"
        w.run(lambda: cl.eof, self.wait)
        cl.close()
        return "refused" if st["close"] else "closed" if cl.eof and not cl.total else "other"

    def live(self):
        """Connections on which a message gets through in both directions; both legs of the others must have ended."""
        w = self.w
        r = []
        for k, (i, cl, b) in list(self.cons.items()):
            if b is None:
                if cl.eof:
                    cl.close()
                    del self.cons[k]
                else:
                    r.append(dict(i=i, k=k))
                continue
            if cl.eof or b.eof:
                w.run(lambda: cl.eof and b.eof, self.wait)
                if not (cl.eof and b.eof):
                    r.append(dict(i=i, k=k + " half"))
                cl.close()
                b.close()
                del self.cons[k]
                continue
            n, m = cl.total, b.total
            cl.send(amqp.HEARTBEAT)
            b.send(amqp.HEARTBEAT)
            if w.run(lambda: cl.total > n and b.total > m, self.wait):
                r.append(dict(i=i, k=k))
            else:
                r.append(dict(i=i, k=k + " stuck"))
        return r

    def conf(self, i):
        if self.proc[i] is None:
            return "-"
        b, f, m = (self.ctl(i, x + " PRINT").strip() for x in ("BACKEND", "FARM", "MAP"))
        if "extra" in b:
            return "extra"
        if not b and not f and not m:
            return "empty"
        if b.startswith("default-backend ") and b.count("\n") == 0 and f == "default: default-backend" and not m:
            return "simple"
        return "odd %s|%s|%s" % (b, f, m)

    def step(self, ev, want):
        w, op, i = self.w, ev["op"], ev.get("i")
        rc, said = "-", ""
        if op == "Start":
            rc = self.start(i, ev["a"])
        elif op == "Abort":
            rc = self.start(i, "simple", kill=ev["d"])
        elif op == "Half":
            cl = w.dial(self.port[i])
            cl.send(amqp.HEADER)
            if w.run(lambda: amqp.parse_frames(cl.inb)[0], self.wait):
                said = "start"
            self.cons[ev["k"]] = (i, cl, None)
        elif op == "Exit":
            said = self.ctl(i, "EXIT").strip()
            rc = self.ended(i)
        elif op == "Crash":
            self.proc[i].send_signal(signal.SIGKILL)
            rc = self.ended(i)
        elif op == "Conn":
            said = self.connect(i, ev["k"], ev["v"])
        elif op == "Close":
            j, cl, b = self.cons.pop(ev["k"])
            cl.close()
            if b:
                w.run(lambda: b.eof, self.wait)
                if not b.eof:
                    said = "the broker's leg stays"
                b.close()
        elif op == "Occupy":
            if i in self.occ:
                self.occ.pop(i).close()
            else:
                s = self.occ[i] = socket.socket()
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                for n in range(100):
                    try:
                        s.bind(("0.0.0.0", self.port[i]))
                        break
                    except OSError:
                        time.sleep(0.02)
                else:
                    raise Infra("port")
                s.listen(5)
        elif op == "Configure":
            self.ctl(i, "BACKEND ADD extra dc 127.0.0.1 9")
        elif op == "Listen":
            self.ctl(i, "LISTEN START %d" % self.port[i])
        for j, pr in self.proc.items():
            if pr is not None and pr.poll() is not None:
                self.proc[j] = None
        wi = want["inst"]
        self.settle(lambda: all(j in self.occ or self.accepts(j) == (wi[j]["port"] == "proxy") for j in self.insts))
        self.settle(lambda: {k for k, (j, c, b) in self.cons.items() if not c.eof} == {c["k"] for c in want["con"]})
        inst = {j: dict(run=self.proc[j] is not None, sock=os.path.exists(self.ctlpath(j)), conf=self.conf(j),
                        port="other" if j in self.occ else "proxy" if self.accepts(j) else "closed") for j in self.insts}
        return dict(rc=rc, said=said, inst=inst, con=self.live())

    def ended(self, i):
        try:
            r = str(self.proc[i].wait(self.wait * 4))
            self.proc[i] = None
            return r
        except subprocess.TimeoutExpired:
            return "running"

    def stop(self):
        for p in self.proc.values():
            if p is not None:
                p.kill()
                p.wait()
        for s in self.occ.values():
            s.close()
        self.w.stop()


def record(beh, wait=4.0):
    r = Life(os.getpid() % 60, ["i1", "i2"] if "i2" in beh["steps"][0]["out"]["inst"] else ["i1"], wait)
    try:
        steps = []
        for s in in_time(beh["steps"]):
            o = r.step(s["ev"], s["out"])
            steps.append({"ev": s["ev"], "out": o})
            if o["rc"] != s["out"]["rc"] or any(o["inst"][i][f] != x[f] for i, x in s["out"]["inst"].items() for f in ("run", "port", "conf")):
                break
        return {"pre": beh["pre"], "steps": steps}
    finally:
        r.stop()


def record_slow(beh):
    return record(beh, wait=10.0)
