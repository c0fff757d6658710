"""A small independent AMQP 0-9-1 codec used by the fake clients and brokers."""
import struct

HEADER = b"AMQP\x00\x00\x09\x01"
FRAME_END = 0xCE


def frame(ftype, channel, payload):
    return struct.pack(">BHI", ftype, channel, len(payload)) + payload + b"\xce"


def shortstr(s):
    if isinstance(s, str):
        s = s.encode()
    assert len(s) < 256
    return bytes([len(s)]) + s


def longstr(s):
    if isinstance(s, str):
        s = s.encode()
    return struct.pack(">I", len(s)) + s


# A field value is (type, value); a table is a list of (name, (type, value)).
_FIX = {"t": ">?", "b": ">b", "B": ">B", "s": ">h", "U": ">h", "u": ">H", "I": ">i",
        "i": ">I", "L": ">q", "l": ">Q", "f": ">f", "d": ">d", "T": ">Q"}


def enc_value(fv):
    t, v = fv
    if t in "fd" and isinstance(v, bytes):
        return t.encode() + v
    if t in _FIX:
        return t.encode() + struct.pack(_FIX[t], v)
    if t in ("S", "x"):
        return t.encode() + longstr(v)
    if t == "V":
        return b"V"
    if t == "D":
        return b"D" + struct.pack(">Bi", v[0], v[1])
    if t == "F":
        return b"F" + enc_table(v)
    if t == "A":
        b = b"".join(enc_value(x) for x in v)
        return b"A" + struct.pack(">I", len(b)) + b
    raise ValueError(t)


def enc_table(tab):
    b = b"".join(shortstr(n) + enc_value(v) for n, v in tab)
    return struct.pack(">I", len(b)) + b


class Rd:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise ValueError("short")
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def u(self, f):
        return struct.unpack(f, self.take(struct.calcsize(f)))[0]

    def short(self):
        return self.take(self.u(">B"))

    def long(self):
        return self.take(self.u(">I"))

    def value(self):
        t = chr(self.u(">B"))
        if t in "fd":
            return (t, self.take(4 if t == "f" else 8))
        if t in _FIX:
            return (t, self.u(_FIX[t]))
        if t in ("S", "x"):
            return (t, self.long())
        if t == "V":
            return ("V", None)
        if t == "D":
            return ("D", (self.u(">B"), self.u(">i")))
        if t == "F":
            return ("F", self.table())
        if t == "A":
            r = Rd(self.long())
            out = []
            while r.i < len(r.b):
                out.append(r.value())
            return ("A", out)
        raise ValueError("field type %r" % t)

    def table(self):
        r = Rd(self.long())
        out = []
        while r.i < len(r.b):
            n = r.short()
            out.append((n, r.value()))
        return out


def method(cls, mid, args=b"", channel=0):
    return frame(1, channel, struct.pack(">HH", cls, mid) + args)


def start(props=None, mechs="PLAIN", locales="en_US"):
    return method(10, 10, bytes([0, 9]) + enc_table(props or []) + longstr(mechs) + longstr(locales))


def startok(props, mech, resp, locale="en_US"):
    return method(10, 11, enc_table(props) + shortstr(mech) + longstr(resp) + shortstr(locale))


def tune(ch=2047, fm=131072, hb=60):
    return method(10, 30, struct.pack(">HIH", ch, fm, hb))


def tuneok(ch=2047, fm=131072, hb=60):
    return method(10, 31, struct.pack(">HIH", ch, fm, hb))


def open_(vhost):
    return method(10, 40, shortstr(vhost) + shortstr("") + b"\x00")


def openok():
    return method(10, 41, shortstr(""))


def close(code, text, c=0, m=0):
    return method(10, 50, struct.pack(">H", code) + shortstr(text) + struct.pack(">HH", c, m))


def closeok():
    return method(10, 51)


HEARTBEAT = frame(8, 0, b"")


def parse_frames(buf):
    """Splits complete frames off buf: returns ([(type, channel, payload)], rest, ok)."""
    out, i = [], 0
    while len(buf) - i >= 8:
        t, ch, n = struct.unpack_from(">BHI", buf, i)
        if len(buf) - i < n + 8:
            if n > 10_000_000:
                return out, buf[i:], False
            break
        if buf[i + 7 + n] != FRAME_END:
            return out, buf[i:], False
        out.append((t, ch, bytes(buf[i + 7:i + 7 + n])))
        i += n + 8
    return out, buf[i:], True


def decode_method(payload):
    """Connection-class method -> (name, fields dict)."""
    r = Rd(payload)
    cls, mid = r.u(">H"), r.u(">H")
    if cls != 10:
        return ("method-%d-%d" % (cls, mid), {})
    if mid == 10:
        return ("start", dict(maj=r.u(">B"), min=r.u(">B"), props=r.table(), mechs=r.long(), locales=r.long(), rest=r.b[r.i:]))
    if mid == 11:
        return ("startok", dict(props=r.table(), mech=r.short(), resp=r.long(), locale=r.short(), rest=r.b[r.i:]))
    if mid in (30, 31):
        return ("tune" if mid == 30 else "tuneok", dict(ch=r.u(">H"), fm=r.u(">I"), hb=r.u(">H"), rest=r.b[r.i:]))
    if mid == 40:
        return ("open", dict(vhost=r.short(), rest=r.b[r.i:]))
    if mid == 41:
        return ("openok", dict(rest=r.b[r.i:]))
    if mid == 50:
        return ("close", dict(code=r.u(">H"), text=r.short(), cls=r.u(">H"), mid=r.u(">H"), rest=r.b[r.i:]))
    if mid == 51:
        return ("closeok", dict(rest=r.b[r.i:]))
    return ("method-%d-%d" % (cls, mid), {})
