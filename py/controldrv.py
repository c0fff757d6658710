"""Drives the real proxy's control channel through behaviours of spec/Control.tla."""
import json, os, select, socket, subprocess, time
import amqp
from sut import World, Infra, in_time

PER = 350          # names in a group; with 250 bytes each a group's listing is about 100 KB
CROWD = 220        # connections of the preset "crowd": a full report is beyond what one write to the socket takes


def name(g, i):
    return "%s-%04d-" % (g, i) + "n" * 240


class Ctl:
    def __init__(self, path):
        self.s = socket.socket(socket.AF_UNIX)
        self.s.connect(path)
        self.s.setblocking(False)
        self.b = bytearray()
        self.eof = False

    def read(self, most=1 << 30):
        n = 0
        while n < most:
            try:
                d = self.s.recv(min(most, 65536))
            except BlockingIOError:
                break
            except OSError:
                d = b""
            if not d:
                self.eof = True
                break
            self.b += d
            n += len(d)
        return n

    def until_eof(self, wait):
        end = time.time() + wait
        while not self.eof and time.time() < end:
            select.select([self.s], [], [], 0.05)
            self.read()
        return self.eof


class Control:
    def __init__(self, slot, wait):
        self.w = World(slot, cleanup_ms=60)
        self.wait = wait
        self.con, self.read, self.want = {}, {}, {}
        self.maps = set()
        self.peers = []
        self.crowd = 0

    def begin(self, pre):
        w = self.w
        w.start()
        self.ip = w.ip(1)
        w.ctl("BACKEND ADD b d %s 5672" % self.ip)
        if pre == "crowd":
            self.gather(CROWD)

    def gather(self, n):
        w = self.w
        w.ctl("FARM ADD f round-robin b")
        w.ctl("MAP DEFAULT f")
        port = w.listen()
        bs = []
        w.broker_listen("b", self.ip, 5672, lambda k, c: bs.append(c))
        for i in range(n):
            c = w.dial()
            self.peers.append(c)
            c.send(amqp.HEADER)
            c.nm = "w%04d" % i + "x" * 240

        def go():
            for c in self.peers:
                fr, rest, ok = amqp.parse_frames(c.inb)
                c.inb = bytearray(rest)
                for t, ch, pl in fr:
                    nm = amqp.decode_method(pl)[0] if t == 1 else "?"
                    if nm == "start":
                        c.send(amqp.startok([], "PLAIN", b"\0u\0p"))
                    elif nm == "tune":
                        c.send(amqp.tuneok() + amqp.open_(c.nm))
            return len(bs) >= n
        if not w.run(go, 20):
            raise Infra("the crowd did not gather")
        w.ctl("MAP REMOVE_DEFAULT")
        self.crowd = n

    def printed(self, text):
        """The groups a MAP PRINT answer lists completely; None if anything is not as it should be."""
        rows = [l for l in text.split("\n") if l.strip()]
        got = {}
        for l in rows:
            if not (l.startswith('"') and l.endswith('" => Backend:b')):
                return None
            v = l[1:-14]
            p = v.split("-")
            if len(p) != 3 or p[2] != "n" * 240:
                return None
            got.setdefault(p[0], []).append(int(p[1]))
        if any(sorted(x) != list(range(PER)) for x in got.values()):
            return None
        return sorted(got)

    def answer(self, c):
        """(kind, groups) of an answer that has been read."""
        if not c.eof:
            return "unfinished", []
        return self.told(bytes(c.b).decode("latin1"))

    def told(self, t):
        if "HELP" in t and "BACKEND" in t and "LISTEN" in t:
            return "help", []
        g = self.printed(t)
        return ("print", g) if g is not None else ("garbled %d %s" % (len(t), t[:60]), [])

    def feed(self, secs):
        end = time.time() + secs
        while time.time() < end:
            for k, c in self.con.items():
                if self.read.get(k):
                    c.read()
            time.sleep(0.01)

    def step(self, ev, want):
        w, op = self.w, ev["op"]
        k = ev.get("k")
        out = dict(ans="none", snap=[], fed=[], bad=[])
        if op == "Fill":
            g = ev["g"]
            add = g not in self.maps
            ok = 0
            for i in range(PER):
                a = w.ctl("MAP BACKEND %s b" % name(g, i) if add else "MAP UNMAP %s" % name(g, i))
                ok += a == ""
            (self.maps.add if add else self.maps.discard)(g)
            out["ans"] = "all" if ok == PER else "%d of %d: %s" % (ok, PER, a)
        elif op in ("Ask", "Odd"):
            cmd = b"MAP PRINT\n"
            how = ev.get("how")
            if how in ("prog", "prog1"):
                # the project's own client program
                r = subprocess.run([w.bin + "_ctl", w.ctlpath] + (["MAP", "PRINT"] if how == "prog" else ["MAP PRINT"]), stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
                out["ans"], out["snap"] = self.told(r.stdout.decode("latin1")) if (r.returncode, r.stderr) == (0, b"") else ("exit %s %s" % (r.returncode, r.stderr[:60]), [])
                return out
            c = Ctl(w.ctlpath)
            if op == "Odd":
                cmd = b"map print\n" if ev["t"] == "small" else b"NOSUCH THING\n"
            c.s.setblocking(True)
            if how == "bytes":
                for i in range(len(cmd)):
                    c.s.sendall(cmd[i:i + 1])
                    time.sleep(0.001)
            elif how == "crlf":
                c.s.sendall(cmd[:-1] + b"\r\n")
            elif how == "spaces":
                c.s.sendall(b"MAP   PRINT  \n")
            else:
                c.s.sendall(cmd)
            if how == "half":
                c.s.shutdown(socket.SHUT_WR)
            c.s.setblocking(False)
            c.until_eof(self.wait)
            out["ans"], out["snap"] = self.answer(c)
            c.s.close()
        elif op == "Slow":
            c = self.con[k] = Ctl(w.ctlpath)
            c.s.sendall(b"MAP PRINT\n")
            # until its answer has begun to arrive, or there can be none
            select.select([c.s], [], [], self.wait)
        elif op == "Late":
            c = self.con.pop(k)
            c.until_eof(self.wait)
            out["ans"], out["snap"] = self.answer(c)
            c.s.close()
        elif op == "Drop":
            self.con.pop(k).s.close()
            self.read.pop(k, None)
        elif op == "Listen":
            c = self.con[k] = Ctl(w.ctlpath)
            c.s.sendall(("STAT LISTEN json %s\n" % ev["f"]).encode())
            self.read[k] = True
            self.want[k] = ev["f"]
        elif op == "Hold":
            self.read[k] = not self.read[k]
        elif op == "Pass":
            marks = {k: len(self.con[k].b) for k in self.read if self.read[k]}
            self.feed(0.25)
            t0 = time.time()
            while any(b"\n" not in self.con[k].b[m:] for k, m in marks.items()) and time.time() - t0 < self.wait:
                self.feed(0.05)
            for k, m in marks.items():
                if b"\n" in self.con[k].b[m:]:
                    out["fed"].append(k)
        for k in list(self.read):
            bad = self.garbled(k)
            if bad:
                out["bad"].append([k, bad])
        if not w.alive():
            out["died"] = w.stderr_tail(500)
        return out

    def garbled(self, k):
        c, f = self.con[k], self.want[k]
        ls = bytes(c.b).split(b"\n")
        c.b = bytearray(ls[-1])
        if c.eof:
            return "ended"
        for l in ls[:-1]:
            try:
                j = json.loads(l)
            except ValueError:
                return "%d bytes %s...%s" % (len(l), l[:30].decode("latin1"), l[-30:].decode("latin1"))
            if f == "all" and self.crowd:
                n = sum(1 for v, s in j.get("vhosts", {}).items() if len(v) == 245)
                if n != self.crowd:
                    return "%d of %d virtual hosts" % (n, self.crowd)
            if f == "overall" and j.get("activeConnectionCount") != self.crowd:
                return "%s of %d connections" % (j.get("activeConnectionCount"), self.crowd)
        return None


def record(beh, wait=4.0):
    r = Control(os.getpid() % 60, wait)
    try:
        r.begin(beh["pre"])
        steps = []
        for s in in_time(beh["steps"]):
            steps.append({"ev": s["ev"], "out": r.step(s["ev"], s["out"])})
            if "died" in steps[-1]["out"] or steps[-1]["out"]["ans"] != s["out"]["ans"]:
                break
        return {"pre": beh["pre"], "steps": steps}
    finally:
        for c in r.con.values():
            c.s.close()
        for c in r.peers:
            c.close()
        r.w.stop()


def record_slow(beh):
    return record(beh, wait=12.0)
