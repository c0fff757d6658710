"""Self-contained helpers for the demonstrations: a real proxy, fake brokers, blocking clients."""
import os, random, re, shutil, socket, struct, subprocess, sys, tempfile, threading, time

HEADER = b"AMQP\x00\x00\x09\x01"


def ss(s):
    s = s.encode() if isinstance(s, str) else s
    return bytes([len(s)]) + s


def ls(s):
    s = s.encode() if isinstance(s, str) else s
    return struct.pack(">I", len(s)) + s


def frame(t, ch, p):
    return struct.pack(">BHI", t, ch, len(p)) + p + b"\xce"


def method(c, m, a=b""):
    return frame(1, 0, struct.pack(">HH", c, m) + a)


def table(b=b""):
    return struct.pack(">I", len(b)) + b


def startok(name="demo", props=b"", mech="PLAIN", resp=b"\0u\0p", caps=False):
    body = ss("connection_name") + b"S" + ls(name) + props
    if caps:
        body += ss("capabilities") + b"F" + table(ss("authentication_failure_close") + b"t\x01")
    return method(10, 11, table(body) + ss(mech) + ls(resp) + ss("en_US"))


def tuneok(ch=100, fm=131072, hb=60):
    return method(10, 31, struct.pack(">HIH", ch, fm, hb))


def open_(v):
    return method(10, 40, ss(v) + ss("") + b"\0")


def close(code=200, text="bye"):
    return method(10, 50, struct.pack(">H", code) + ss(text) + struct.pack(">HH", 0, 0))


def closeok():
    return method(10, 51)


START = method(10, 10, b"\x00\x09" + table() + ls("PLAIN AMQPLAIN") + ls("en_US"))
TUNE = method(10, 30, struct.pack(">HIH", 2047, 131072, 60))
OPENOK = method(10, 41, ss(""))
BEAT = frame(8, 0, b"")


def split(buf):
    out, i = [], 0
    while len(buf) - i >= 8:
        t, ch, n = struct.unpack_from(">BHI", buf, i)
        if len(buf) - i < n + 8:
            break
        out.append((t, ch, bytes(buf[i + 7:i + 7 + n])))
        i += n + 8
    return out, buf[i:]


def mid(f):
    return struct.unpack(">HH", f[2][:4]) if f[0] == 1 and len(f[2]) >= 4 else None


class Stream:
    def __init__(self, s):
        self.s, self.buf, self.eof = s, bytearray(), False
        self.frames = []

    def send(self, b):
        try:
            self.s.sendall(b)
            return True
        except OSError:
            return False

    def more(self, timeout):
        self.s.settimeout(max(timeout, 0.001))
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            return False
        except OSError:
            d = b""
        if not d:
            self.eof = True
            return False
        self.buf += d
        return True

    def frame(self, timeout=5.0):
        """Next frame, or None at end of stream / after the timeout."""
        end = time.time() + timeout
        while True:
            fs, rest = split(self.buf)
            if fs:
                t, ch, p = fs[0]
                del self.buf[:len(p) + 8]
                return fs[0]
            if self.eof or time.time() > end:
                return None
            self.more(end - time.time())

    def ended(self, timeout=5.0):
        """True if the peer closes within the timeout."""
        end = time.time() + timeout
        while not self.eof and time.time() < end:
            self.more(end - time.time())
        return self.eof

    def shut(self):
        try:
            self.s.close()
        except OSError:
            pass


class Proxy:
    def __init__(self, extra=(), env=None):
        self.dir = tempfile.mkdtemp(prefix="demo.")
        self.path = os.path.join(self.dir, "ctl")
        self.err = open(os.path.join(self.dir, "err"), "wb")
        e = dict(os.environ)
        e.update(env or {})
        self.p = subprocess.Popen([os.path.join(os.getcwd(), "_build/bin/amqpprox"), "--logDirectory",
                                   os.path.join(self.dir, "logs"), "--controlSocket", self.path,
                                   "--cleanupIntervalMs", "50"] + list(extra),
                                  stdout=self.err, stderr=self.err, cwd=self.dir, env=e)
        for _ in range(1000):
            try:
                s = socket.socket(socket.AF_UNIX)
                s.connect(self.path)
                s.close()
                break
            except OSError:
                time.sleep(0.01)
        self.port = None

    def ctl(self, *cmds):
        out = ""
        for c in cmds:
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(10)
            try:
                s.connect(self.path)
                s.sendall(c.encode() + b"\n")
                while True:
                    d = s.recv(65536)
                    if not d:
                        break
                    out += d.decode("latin1")
            except OSError:
                out += "<control failed>"
            s.close()
        return out

    def listen(self, secure=False):
        while True:
            p = random.randint(20000, 32000)
            s = socket.socket()
            try:
                s.bind(("0.0.0.0", p))
            except OSError:
                continue
            finally:
                s.close()
            self.ctl("LISTEN START%s %d" % ("_SECURE" if secure else "", p))
            for _ in range(200):
                s = socket.socket()
                try:
                    s.connect(("127.0.0.1", p))
                    s.close()
                    self.port = p
                    time.sleep(0.2)
                    return p
                except OSError:
                    s.close()
                    time.sleep(0.02)

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


class Broker:
    """Accepts connections; `auto` answers the handshake."""
    _n = 0

    def __init__(self, auto=True, on=None):
        Broker._n += 1
        self.ip = "127.%d.%d.%d" % (100 + os.getpid() % 100, os.getpid() // 100 % 250, Broker._n)
        self.port = 5672
        self.auto, self.on = auto, on
        self.conns = []
        self.up()

    def up(self):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind((self.ip, self.port))
        self.l.listen(50)
        threading.Thread(target=self._acc, args=(self.l,), daemon=True).start()

    def down(self):
        try:
            self.l.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.l.close()
        time.sleep(0.05)

    def _acc(self, l):
        while True:
            try:
                s, a = l.accept()
            except OSError:
                return
            c = Stream(s)
            c.peer = a
            c.vhost = c.startok = c.tuneok = None
            c.proxy = None
            c.opened = threading.Event()
            self.conns.append(c)
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        while len(c.buf) < 8 or c.buf[:5] == b"PROXY":
            if c.buf[:5] == b"PROXY" and b"\r\n" in c.buf:
                i = c.buf.index(b"\r\n")
                c.proxy = bytes(c.buf[:i])
                del c.buf[:i + 2]
                continue
            if c.eof:
                return
            c.more(30)
        del c.buf[:8]
        if self.on:
            self.on(c)
            return
        if not self.auto:
            return
        c.send(START)
        c.startok = c.frame(30)
        if not c.startok:
            return
        c.send(TUNE)
        c.tuneok = c.frame(30)
        o = c.frame(30)
        if not o:
            return
        c.vhost = o[2][5:5 + o[2][4]].decode("latin1")
        c.send(OPENOK)
        c.opened.set()


class Client(Stream):
    def __init__(self, port, src=None):
        s = socket.socket()
        s.settimeout(5)
        if src:
            s.bind((src, 0))
        s.connect(("127.0.0.1", port))
        Stream.__init__(self, s)

    def shake(self, vhost, upto="open", timeout=5.0, **kw):
        """Handshake; returns 'openok', ('close', code, text), 'eof' or 'timeout'."""
        self.send(HEADER)
        if not self.frame(timeout):
            return "eof" if self.eof else "timeout"
        self.send(startok(**kw))
        if upto == "startok":
            return
        if not self.frame(timeout):
            return "eof" if self.eof else "timeout"
        self.send(tuneok())
        if upto == "tuneok":
            return
        self.send(open_(vhost))
        return self.result(timeout)

    def result(self, timeout=5.0):
        f = self.frame(timeout)
        if f is None:
            return "eof" if self.eof else "timeout"
        m = mid(f)
        if m == (10, 41):
            return "openok"
        if m == (10, 50):
            return ("close", struct.unpack(">H", f[2][4:6])[0], f[2][7:7 + f[2][6]].decode("latin1"))
        return f


def body(s, ch=1):
    return frame(3, ch, s if isinstance(s, bytes) else s.encode())


def wait(pred, timeout=5.0):
    end = time.time() + timeout
    while time.time() < end:
        if pred():
            return True
        time.sleep(0.01)
    return bool(pred())


def main(fn):
    """Runs the demonstration; exit 0 if it returns True."""
    p = None
    try:
        p = Proxy()
        ok = fn(p)
        if not p.alive():
            print("the proxy is gone")
            ok = False
    finally:
        if p:
            p.stop()
    print("holds" if ok else "BROKEN")
    sys.stdout.flush()
    os._exit(0 if ok else 1)
