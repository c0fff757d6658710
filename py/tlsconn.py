"""TLS on top of a driver connection (memory BIOs, so the selector loop stays in charge)."""
import os, ssl
from sut import Conn, VERIF

CERT = os.path.join(VERIF, "harness", "tls", "cert.pem")
KEY = os.path.join(VERIF, "harness", "tls", "key.pem")


def context(server):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER if server else ssl.PROTOCOL_TLS_CLIENT)
    if server:
        c.load_cert_chain(CERT, KEY)
    else:
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
    return c


class TlsConn(Conn):
    """Same interface as Conn; inb is plaintext, raw the bytes seen on the wire."""

    def __init__(self, world, sock, kind, server, skip=None, ctx=None):
        self.bi, self.bo = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.ssl = (ctx or context(server)).wrap_bio(self.bi, self.bo, server_side=server)
        self.shook = False
        self.plain_out = bytearray()
        self.tls_error = None
        self.clear = bytearray()     # what came before the TLS handshake (a PROXY line)
        self.skip = skip
        super().__init__(world, sock, kind)
        self._work()

    def _work(self):
        try:
            if not self.shook:
                self.ssl.do_handshake()
                self.shook = True
            while self.plain_out:
                n = self.ssl.write(bytes(self.plain_out[:16000]))
                del self.plain_out[:n]
            while True:
                d = self.ssl.read(262144)
                if not d:
                    self.tls_eof()
                    break
                self.inb += d
                self.total += len(d)
        except ssl.SSLWantReadError:
            pass
        except ssl.SSLZeroReturnError:
            self.tls_eof()
        except ssl.SSLError as e:
            self.tls_error = str(e)
        d = self.bo.read()
        if d:
            Conn.send(self, d)

    def peer_cert(self):
        return self.ssl.getpeercert(binary_form=True)

    def tls_eof(self):
        self.notified = True

    def send(self, data):
        if self.closed:
            return
        self.plain_out += data
        self._work()

    def ready(self, mask):
        inb, self.inb = self.inb, bytearray()
        total = self.total
        super().ready(mask)
        raw, self.inb = self.inb, inb
        self.total = total
        if self.skip is not None and raw:
            raw = self.skip(self, raw)
        if raw:
            self.bi.write(bytes(raw))
        if raw or not self.shook:
            self._work()

    def half_close(self):
        try:
            self.ssl.unwrap()
        except ssl.SSLError:
            pass
        d = self.bo.read()
        if d:
            Conn.send(self, d)
        if self.outb:
            self.fin_after = True
        else:
            super().half_close()

    fin_after = False

    def _flush(self):
        super()._flush()
        if self.fin_after and not self.outb:
            self.fin_after = False
            super().half_close()
