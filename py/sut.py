"""System under test: the real amqpprox binary plus fake peers on loopback.

Everything runs in a scratch directory that is removed afterwards.  A World
owns one proxy process, its control socket, the fake brokers (one loopback
address per backend), an optional fake auth service and the clients, all
driven from one thread with a selector loop.
"""
import errno, mmap, os, selectors, shutil, signal, socket, struct, subprocess, tempfile, time
import amqp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BPORT = 5672


DEADLINE = [None]       # recordings end (after the step they are at) when this time has come


def late():
    return DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]


def in_time(steps):
    for i, x in enumerate(steps):
        if i and late():
            return
        yield x


class Infra(Exception):
    """The harness itself could not work (not a verdict about the code)."""


class Conn:
    """One accepted or dialled TCP connection of the driver."""

    def __init__(self, world, sock, kind):
        self.w, self.s, self.kind = world, sock, kind
        self.inb = bytearray()      # everything received so far, unparsed part
        self.total = 0
        self.outb = bytearray()
        self.eof = False            # peer closed (FIN or RST)
        self.reading = True
        self.closed = False
        self.tls = None
        sock.setblocking(False)
        try:
            sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        except OSError:
            pass
        self._reg()

    def _reg(self):
        ev = 0
        if self.reading and not self.eof:
            ev |= selectors.EVENT_READ
        if self.outb:
            ev |= selectors.EVENT_WRITE
        sel = self.w.sel
        try:
            if ev:
                try:
                    sel.modify(self.s, ev, self)
                except KeyError:
                    sel.register(self.s, ev, self)
            else:
                sel.unregister(self.s)
        except (KeyError, ValueError):
            pass

    def send(self, data):
        if self.closed:
            return
        self.outb += data
        self._flush()

    def _flush(self):
        while self.outb:
            try:
                n = self.s.send(self.outb)
                del self.outb[:n]
            except (BlockingIOError, InterruptedError):
                break
            except OSError:
                self.outb.clear()
                break
        if not self.closed:
            self._reg()

    def stall(self, on):
        self.reading = not on
        self._reg()

    def ready(self, mask):
        if mask & selectors.EVENT_WRITE:
            self._flush()
        if mask & selectors.EVENT_READ:
            for _ in range(64):
                try:
                    d = self.s.recv(262144)
                except (BlockingIOError, InterruptedError):
                    break
                except OSError:
                    d = b""
                if not d:
                    self.eof = True
                    self._reg()
                    break
                self.inb += d
                self.total += len(d)

    def close(self, rst=False):
        if self.closed:
            return
        self.closed = True
        try:
            self.w.sel.unregister(self.s)
        except (KeyError, ValueError):
            pass
        if rst:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()

    def half_close(self):
        try:
            self.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def local_port(self):
        return self.s.getsockname()[1]

    def peer_port(self):
        return self.s.getpeername()[1]


class Listener:
    def __init__(self, world, ip, port, on_accept):
        self.w, self.ip, self.port, self.cb = world, ip, port, on_accept
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        for i in range(200):
            try:
                s.bind((ip, port))
                break
            except OSError as e:
                if e.errno != errno.EADDRINUSE or i == 199:
                    raise Infra("bind %s:%d %s" % (ip, port, e))
                time.sleep(0.02)
        s.listen(64)
        s.setblocking(False)
        self.s = s
        world.sel.register(s, selectors.EVENT_READ, self)

    def ready(self, mask):
        while True:
            try:
                c, a = self.s.accept()
            except (BlockingIOError, OSError):
                return
            self.cb(self, c, a)

    def close(self):
        self.w.sel.unregister(self.s)
        self.s.close()


class World:
    _n = 0

    def __init__(self, slot, build="plain", cleanup_ms=25, env=None, scratch=None, clock=False):
        self.slot = slot
        self.sel = selectors.DefaultSelector()
        self.dir = tempfile.mkdtemp(prefix="amqpv.", dir=scratch)
        self.bin = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build")), build, "bin", "amqpprox")
        self.log = os.path.join(self.dir, "shim.log")
        open(self.log, "w").close()
        self.hosts = os.path.join(self.dir, "hosts")
        open(self.hosts, "w").close()
        self.log_pos = 0
        self.cleanup_ms = cleanup_ms
        self.env = dict(os.environ)
        self.env.update(SHIM_LOG=self.log, SHIM_HOSTS=self.hosts,
                        LD_PRELOAD=os.path.join(os.path.dirname(os.path.dirname(self.bin)), "shim.so"))
        if build == "asan":
            self.env["ASAN_OPTIONS"] = "verify_asan_link_order=0:detect_leaks=0:abort_on_error=0:exitcode=77"
            self.env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=78"
        if clock:
            # the proxy's monotonic clock stands still except when pass_ms is called
            path = os.path.join(self.dir, "clock")
            self.now = time.clock_gettime_ns(time.CLOCK_MONOTONIC) // 10**9 * 10**9
            with open(path, "wb") as f:
                f.write(struct.pack("<q", self.now) + b"\0" * 4088)
            with open(path, "r+b") as f:
                self.clock = mmap.mmap(f.fileno(), 4096)
            self.env["SHIM_CLOCK"] = path
        if env:
            self.env.update(env)
        self.proc = None
        self.ports = {}
        self.conns = []
        self.listeners = {}

    # -- addresses -------------------------------------------------------
    def ip(self, i, alt=0):
        """Loopback address of backend number i for this world."""
        base = (os.getpid() * 61 + self.slot * 7) & 0xFFFF
        return "127.%d.%d.%d" % (16 + (base >> 8) % 200, base & 0xFF, 1 + i + 32 * alt)

    def free_port(self):
        import random
        for _ in range(500):
            p = random.randint(10000, 30000)
            s = socket.socket()
            try:
                s.bind(("0.0.0.0", p))
                return p
            except OSError:
                continue
            finally:
                s.close()
        raise Infra("no free port")

    # -- proxy -----------------------------------------------------------
    def start(self, extra=()):
        self.ctlpath = os.path.join(self.dir, "ctl")
        self.errfile = open(os.path.join(self.dir, "stderr"), "wb")
        self.proc = subprocess.Popen(
            [self.bin, "--logDirectory", os.path.join(self.dir, "logs"), "--controlSocket", self.ctlpath,
             "--cleanupIntervalMs", str(self.cleanup_ms)] + list(extra),
            stdin=subprocess.DEVNULL, stdout=self.errfile, stderr=self.errfile, env=self.env, cwd=self.dir)
        t0 = time.time()
        while time.time() - t0 < 20:
            if self.proc.poll() is not None:
                raise Infra("proxy exited at start: %s" % self.stderr_tail())
            try:
                s = socket.socket(socket.AF_UNIX)
                s.connect(self.ctlpath)
                s.close()
                return
            except OSError:
                time.sleep(0.005)
            finally:
                s.close()
        raise Infra("proxy did not start")

    def stderr_tail(self, n=3000):
        try:
            with open(os.path.join(self.dir, "stderr"), "rb") as f:
                return f.read()[-n:].decode("latin1")
        except OSError:
            return ""

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def ctl(self, cmd, timeout=10.0):
        """One control command; returns its answer (until the proxy closes)."""
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(timeout)
        try:
            s.connect(self.ctlpath)
            s.sendall(cmd.encode("latin1") + b"\n")
            out = b""
            while True:
                d = s.recv(65536)
                if not d:
                    break
                out += d
            return out.decode("latin1")
        except OSError:
            return "<control failed>"
        finally:
            s.close()

    def listen(self, secure=False, name="main"):
        """LISTEN START on a fresh port, waiting until it accepts."""
        for _ in range(20):
            p = self.free_port()
            self.ctl("LISTEN START%s %d" % ("_SECURE" if secure else "", p))
            t0 = time.time()
            while time.time() - t0 < 5:
                s = socket.socket()
                try:
                    s.connect(("127.0.0.1", p))
                    s.close()
                    self.ports[name] = p
                    return p
                except OSError:
                    time.sleep(0.005)
                finally:
                    s.close()
            if not self.alive():
                raise Infra("proxy died while starting to listen")
        raise Infra("could not listen")

    def pass_ms(self, ms):
        self.now += ms * 10**6
        self.clock[0:8] = struct.pack("<q", self.now)

    # -- peers -----------------------------------------------------------
    def dial(self, port=None, src=None, dst="127.0.0.1"):
        s = socket.socket()
        if src:
            s.bind((src, 0))
        s.settimeout(5)
        s.connect((dst, port or self.ports["main"]))
        c = Conn(self, s, "client")
        self.conns.append(c)
        return c

    def broker_listen(self, key, ip, port, cb):
        def acc(l, sock, addr):
            c = Conn(self, sock, "broker")
            c.key = key
            self.conns.append(c)
            cb(key, c)
        self.listeners[key] = Listener(self, ip, port, acc)

    def broker_unlisten(self, key):
        l = self.listeners.pop(key, None)
        if l:
            l.close()

    # -- loop ------------------------------------------------------------
    def poll(self, timeout=0.0):
        n = 0
        for k, m in self.sel.select(timeout):
            k.data.ready(m)
            n += 1
        return n

    def run(self, pred, timeout):
        """Poll until pred() or timeout; returns pred()'s last value."""
        t0 = time.monotonic()
        while True:
            self.poll(0)
            if pred():
                return True
            left = t0 + timeout - time.monotonic()
            if left <= 0:
                return False
            if not self.alive() and left > 0.3:
                t0 = time.monotonic() - timeout + 0.3
            self.poll(min(left, 0.02))

    def quiet(self, secs):
        """Poll until nothing arrived for `secs`."""
        end = time.monotonic() + secs
        while True:
            left = end - time.monotonic()
            if left <= 0:
                return
            if self.poll(left):
                end = time.monotonic() + secs

    def new_log(self):
        with open(self.log) as f:
            f.seek(self.log_pos)
            d = f.read()
            cut = d.rfind("\n") + 1
            self.log_pos += len(d[:cut].encode())
            return d[:cut].split("\n")[:-1]

    def set_hosts(self, table):
        tmp = self.hosts + ".new"
        with open(tmp, "w") as f:
            for k, v in table.items():
                f.write("%s %s\n" % (k, " ".join(v) if v else "FAIL"))
        os.rename(tmp, self.hosts)

    def stop(self):
        rc = None
        try:
            for c in self.conns:
                c.close()
            for l in list(self.listeners.values()):
                l.close()
            if self.proc:
                if self.proc.poll() is None:
                    self.proc.kill()
                rc = self.proc.wait()
                self.errfile.close()
            self.sel.close()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        return rc
