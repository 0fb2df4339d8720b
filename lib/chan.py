"""Shared helpers for the channel checks (C03 to C07)."""
from __future__ import annotations

import os
import shutil
import socket
import tempfile
import threading
import time

from vf import HarnessError, Violation

from ansibug import dap
from ansibug import _mp_queue as mpq


class Rec(mpq.MPProtocol):
    """Records what the owner of a channel is told."""

    def __init__(self, hook=None):
        self.got = []
        self.closed = []
        self.cond = threading.Condition()
        self.hook = hook

    def on_msg_received(self, msg):
        if self.hook:
            self.hook(msg)
        with self.cond:
            self.got.append(msg)
            self.cond.notify_all()

    def connection_closed(self, exp):
        with self.cond:
            self.closed.append(exp)
            self.cond.notify_all()

    def wait(self, pred, timeout):
        with self.cond:
            return self.cond.wait_for(pred, timeout)


class Bg:
    """Runs fn in a daemon thread and keeps its result."""

    def __init__(self, fn):
        self.value = self.error = None
        self.ended_at = None
        self.done = threading.Event()

        def run():
            try:
                self.value = fn()
            except BaseException as e:
                self.error = e
            finally:
                self.ended_at = time.monotonic()
                self.done.set()

        self.thread = threading.Thread(target=run, daemon=True)
        self.thread.start()

    def wait(self, timeout):
        return self.done.wait(timeout)

    def result(self, timeout, what):
        if not self.done.wait(timeout):
            raise Violation(f"{what}: still blocked after {timeout} s")
        if self.error:
            raise self.error
        return self.value


class Scratch:
    """A fresh directory, removed on exit."""

    def __init__(self, base=None):
        self.base = base

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c", dir=self.base or os.environ.get("VF_WORK") or None)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def msg(text):
    return dap.OutputEvent(category="console", output=text)


def quiet_stop(*queues):
    """Stops channels without letting a broken stop() hang the harness."""
    for q in queues:
        if q is None:
            continue
        b = Bg(q.stop)
        b.wait(20)


_tls_cache = {}


def tls_pair():
    """(server context, client context) for a throw-away self signed certificate."""
    if "pair" not in _tls_cache:
        import datetime
        import ssl

        from cryptography import x509
        from cryptography.hazmat.primitives import hashes, serialization
        from cryptography.hazmat.primitives.asymmetric import ec

        key = ec.generate_private_key(ec.SECP256R1())
        name = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, "vf")])
        now = datetime.datetime.now(datetime.timezone.utc)
        cert = (
            x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(key.public_key()).serial_number(1)
            .not_valid_before(now - datetime.timedelta(days=1)).not_valid_after(now + datetime.timedelta(days=30)).sign(key, hashes.SHA256())
        )
        fd, path = tempfile.mkstemp(suffix=".pem", dir=os.environ.get("VF_WORK") or None)
        with os.fdopen(fd, "wb") as f:
            f.write(key.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption()))
            f.write(cert.public_bytes(serialization.Encoding.PEM))
        server = ssl.create_default_context(ssl.Purpose.CLIENT_AUTH)
        server.load_cert_chain(path)
        client = ssl.create_default_context(ssl.Purpose.SERVER_AUTH)
        client.check_hostname = False
        client.verify_mode = ssl.CERT_NONE
        _tls_cache["pair"] = (server, client)
    return _tls_cache["pair"]


class Proxy:
    """Forwards one connection, re-cutting the byte stream.

    chunks: cycle of (size, pause) for the writes of both directions.
    cut: None or (direction, offset, how) ending the connection once that many
    bytes of that direction (0: client to server) were forwarded."""

    def __init__(self, target, chunks, cut=None, path=None):
        self.target, self.chunks, self.cut = target, chunks, cut
        self.counts = [0, 0]
        self.cut_done = threading.Event()
        if isinstance(target, str):
            self.lsock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            self.lsock.bind(path)
            self.address = "uds:" + path
        else:
            self.lsock = socket.create_server(("127.0.0.1", 0))
            self.address = "tcp://127.0.0.1:%d" % self.lsock.getsockname()[1]
        self.lsock.listen(1)
        self.socks = []
        self.threads = []
        t = threading.Thread(target=self._run, daemon=True)
        t.start()
        self.threads.append(t)

    def _run(self):
        try:
            c, _ = self.lsock.accept()
            fam = socket.AF_UNIX if isinstance(self.target, str) else socket.AF_INET
            s = socket.socket(fam, socket.SOCK_STREAM)
            s.connect(self.target)
            for x in (c, s):
                if fam == socket.AF_INET:
                    x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.socks = [c, s]
            for d, (a, b) in enumerate(((c, s), (s, c))):
                t = threading.Thread(target=self._pump, args=(d, a, b), daemon=True)
                t.start()
                self.threads.append(t)
        except OSError:
            pass

    def _pump(self, d, a, b):
        i = 0
        try:
            while True:
                data = a.recv(65536)
                if not data:
                    break
                pos = 0
                while pos < len(data):
                    size, pause = self.chunks[i % len(self.chunks)]
                    i += 1
                    part = data[pos : pos + size]
                    if self.cut and self.cut[0] == d and self.counts[d] + len(part) >= self.cut[1]:
                        part = part[: max(0, self.cut[1] - self.counts[d])]
                        if part:
                            b.sendall(part)
                        self.counts[d] += len(part)
                        self._kill(self.cut[2])
                        return
                    b.sendall(part)
                    self.counts[d] += len(part)
                    pos += len(part)
                    if pause:
                        time.sleep(pause)
            b.shutdown(socket.SHUT_WR)
        except OSError:
            try:
                b.shutdown(socket.SHUT_WR)
            except OSError:
                pass

    def _kill(self, how):
        for s in self.socks:
            try:
                if how == "reset" and s.family == socket.AF_INET:
                    import struct

                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    # A thread may be blocked in recv on it.
                    s.shutdown(socket.SHUT_RD)
                    s.close()
                else:
                    s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
        self.cut_done.set()

    def close(self):
        for s in [self.lsock] + self.socks:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
        for t in self.threads:
            t.join(5)
        for s in [self.lsock] + self.socks:
            try:
                s.close()
            except OSError:
                pass
