"""C04: stop, cancel and timeouts always end a blocked channel operation."""
from __future__ import annotations

import os
import socket
import ssl
import struct
import sys
import threading
import time

from vf import HarnessError, Recorder, REPO, Test, Violation, guard, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import _mp_queue as mpq
from ansibug._socket_helper import CancelledError, SocketCancellationToken, parse_addr_string
from chan import Bg, Rec, Scratch, msg, quiet_stop, tls_pair

PROPERTY = "C04"
TECHNIQUE = "property-based testing with schedule injection: blocked real channel operations are stopped or cancelled at generated moments, down to a chosen line of the running operation"
LEVEL_NOTE = "Random search over scenario, moment and action; the moment is either a delay or the n-th source line executed by the blocked operation. A verdict of 'still blocked' takes 15 s of real time."
RULE = (
    "A case is a blocked operation, the action that must end it and the moment of the action (delay or n-th line); or a timeout with an arrival time; or a way of closing an established channel. "
    "Non-trivial: the action fell inside the operation (not before its start), or a timeout that expired or met a connection, or any closing case."
)
ASSUMPTIONS = ["'Promptly' is taken as within 15 s.", "A connection still being set up may be ended by its own error instead, when its peer really went away."]
BUDGET_S = {"quick": 60, "thorough": 900}
PROMPT = 15
SRC = os.path.realpath(str(REPO / "src")) + "/"

SCEN = [
    "accept", "accept", "accept-cancelq", "srv-tls-silent", "srv-tls-partial", "cli-connect", "cli-backlog", "cli-tls-silent", "cli-tls-partial", "cli-tls-byte",
    "srv-recv", "cli-recv", "srv-recv-mid", "srv-send", "cli-send",
]
moment = st.one_of(
    st.tuples(st.just("delay"), st.sampled_from([0, 0.0005, 0.002, 0.01, 0.03])),
    st.tuples(st.just("line"), st.integers(0, 70)),
    st.tuples(st.just("line"), st.integers(0, 25)),
)
actions = st.sampled_from(["stop", "cancel"])
blocked = st.tuples(st.sampled_from(SCEN), st.sampled_from(["uds", "tcp"]), st.booleans(), actions, moment)


class AtLine:
    """Runs `action` when the traced thread reaches its n-th line of /repo code.

    The traced thread waits for the action a short while only: the action may
    itself have to wait for a lock the traced thread holds."""

    def __init__(self, n, action):
        self.n, self.action, self.count, self.fired = n, action, 0, None

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            if self.count == self.n and self.fired is None:
                self.fired = Bg(self.action)
                self.fired.wait(0.05)
            self.count += 1
        return self.local

    def wrap(self, fn):
        def run():
            sys.settrace(self.trace)
            try:
                return fn()
            finally:
                sys.settrace(None)

        return run


def client_hello():
    _, cctx = tls_pair()
    inc, out = ssl.MemoryBIO(), ssl.MemoryBIO()
    o = cctx.wrap_bio(inc, out, server_hostname="x")
    try:
        o.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return out.read()


class Ctx:
    def __init__(self):
        self.keep = []

    def close(self):
        for s in self.keep:
            try:
                s.close()
            except OSError:
                pass


def raw_connect(addr, ctx):
    fam = socket.AF_UNIX if isinstance(addr, str) else socket.AF_INET6 if ":" in addr[0] else socket.AF_INET
    s = socket.socket(fam, socket.SOCK_STREAM)
    ctx.keep.append(s)
    s.settimeout(20)
    s.connect(addr)
    return s


def raw_listen(uds, base, ctx, backlog=5):
    if uds:
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.bind(base + "/raw")
        addr = f"uds:{base}/raw"
    else:
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        s.bind(("127.0.0.1", 0))
        addr = "tcp://127.0.0.1:%d" % s.getsockname()[1]
    s.listen(backlog)
    ctx.keep.append(s)
    return s, addr


def make(scen, uds, tls, base, ctx):
    """Returns (queue, operation, recorder, path, established, ready): `ready`
    is called once the operation runs, to bring it to its blocking point."""
    sctx, cctx = tls_pair()
    r = Rec()
    token = SocketCancellationToken()
    path = base + "/s" if uds else None
    saddr = f"uds:{path}" if uds else "tcp://127.0.0.1:0"
    nothing = lambda: None
    if scen in ("accept", "accept-cancelq"):
        q = mpq.ServerMPQueue(saddr, lambda: r, ssl_context=sctx if tls else None, cancel_token=token)
        other = None
        if scen == "accept-cancelq":
            other = mpq.ServerMPQueue(f"uds:{base}/cancelq", mpq.MPProtocol)
            ctx.keep.append(other._socket) if hasattr(other, "_socket") else None
        return q, token, (lambda: q.start(timeout=60, cancel_queue=other) if other else q.start()), r, path, False, nothing
    if scen in ("srv-tls-silent", "srv-tls-partial"):
        q = mpq.ServerMPQueue(saddr, lambda: r, ssl_context=sctx, cancel_token=token)
        s = raw_connect(parse_addr_string(q.address), ctx)
        if scen == "srv-tls-partial":
            s.sendall(client_hello()[:50])
        return q, token, q.start, r, path, False, nothing
    if scen == "cli-connect":
        # A TCP listener whose queue is full: the connection stays pending.
        ls, addr = raw_listen(False, base, ctx, backlog=0)
        for _ in range(4):
            s = socket.socket()
            s.setblocking(False)
            try:
                s.connect(ls.getsockname())
            except BlockingIOError:
                pass
            ctx.keep.append(s)
        q = mpq.ClientMPQueue(addr, lambda: r, cancel_token=token)
        return q, token, (lambda: q.start(timeout=60)), r, None, False, nothing
    if scen in ("cli-backlog", "cli-tls-silent", "cli-tls-partial", "cli-tls-byte"):
        ls, addr = raw_listen(uds, base, ctx)
        q = mpq.ClientMPQueue(addr, lambda: r, ssl_context=cctx if "tls" in scen or tls else None, cancel_token=token)
        if scen != "cli-backlog":
            def serve():
                c, _ = ls.accept()
                ctx.keep.append(c)
                if scen == "cli-tls-partial":
                    c.sendall(b"\x16\x03\x03\x00\x50\x02")
                elif scen == "cli-tls-byte":
                    w = sctx.wrap_socket(c, server_side=True)
                    ctx.keep.append(w)
            Bg(serve)
        return q, token, (lambda: q.start(timeout=60)), r, None, False, nothing

    # Established channels with a raw peer.
    server_side = scen.startswith("srv")
    if server_side:
        q = mpq.ServerMPQueue(saddr, lambda: r, ssl_context=sctx if tls else None, cancel_token=token)
        peer = {}

        def conn():
            s = raw_connect(parse_addr_string(q.address), ctx)
            if tls:
                s = cctx.wrap_socket(s)
                ctx.keep.append(s)
            s.recv(1)
            peer["s"] = s

        b = Bg(conn)
        Bg(q.start).result(20, "establishing")
        b.result(20, "establishing")
        if scen == "srv-recv-mid":
            # Half of a frame captured from a real sender.
            peer["s"].sendall(half_frame())
    else:
        ls, addr = raw_listen(uds, base, ctx)
        q = mpq.ClientMPQueue(addr, lambda: r, ssl_context=cctx if tls else None, cancel_token=token)

        def serve():
            c, _ = ls.accept()
            ctx.keep.append(c)
            if tls:
                c = sctx.wrap_socket(c, server_side=True)
                ctx.keep.append(c)
            c.sendall(b"\x00")

        b = Bg(serve)
        Bg(q.start).result(20, "establishing")
        b.result(20, "establishing")
    if scen.endswith("send"):
        big = msg("x" * 8_000_000)
        return q, token, (lambda: q.send(big)), r, path, True, nothing
    return q, token, (lambda: r.wait(lambda: r.closed, PROMPT) or None), r, path, True, nothing


_frame = []


def half_frame():
    if not _frame:
        a, b = socket.socketpair()
        from ansibug._socket_helper import SocketHelper

        q = mpq.MPQueue(SocketHelper("x", a), mpq.MPProtocol)
        q.send(msg("half"))
        data = b.recv(65536)
        a.close()
        b.close()
        _frame.append(data[: len(data) // 2])
    return _frame[0]


def t_blocked(case, rec: Recorder):
    scen, kind, tls, action, (how, when) = case
    uds = kind == "uds"
    ctx = Ctx()
    q = None
    with Scratch("/tmp") as base:
        try:
            try:
                q, token, op, r, path, established, ready = make(scen, uds, tls, base, ctx)
            except OSError as e:
                raise HarnessError(f"set up of {case}: {e!r}")
            what = f"{scen} over {kind}{' with TLS' if tls else ''}, {action} at {how} {when}"

            def act():
                if action == "stop":
                    q.stop()
                else:
                    token.cancel()

            waits_recv = scen.endswith("recv") or scen.endswith("recv-mid")
            if how == "line" and not waits_recv:
                gate = AtLine(when, act)
                b = Bg(gate.wrap(op))
                # The blocking point comes first: act then.
                deadline = time.monotonic() + 0.15
                while gate.fired is None and not b.done.is_set() and time.monotonic() < deadline:
                    time.sleep(0.005)
                a = gate.fired or Bg(act)
                rec.tag("at a line" if gate.fired else "when blocked")
                if gate.fired or not b.done.is_set():
                    rec.nontrivial()
            else:
                b = Bg(op)
                time.sleep(when if how == "delay" else 0.02)
                if not b.done.is_set():
                    rec.nontrivial()
                a = Bg(act)
                rec.tag("after a delay")
            acted = time.monotonic()
            if not a.wait(PROMPT):
                raise Violation(f"{what}: {action} itself is still blocked after {PROMPT} s")
            if a.error:
                raise Violation(f"{what}: {action} failed with {a.error!r}")
            if not b.wait(PROMPT):
                raise Violation(f"{what}: the operation is still blocked {PROMPT} s after it")
            require(b.ended_at - acted < PROMPT, f"{what}: took {b.ended_at - acted:.1f} s")
            if not waits_recv:
                if not isinstance(b.error, CancelledError):
                    raise Violation(f"{what}: the operation ended with {b.error!r} instead of being cancelled")
            # From now on everything is refused.
            for name, fn in (("send", lambda: q.send(msg("late"))), ("start", lambda: q.start(timeout=1))):
                if name == "start" and established:
                    continue
                late = Bg(fn)
                if not late.wait(PROMPT):
                    raise Violation(f"{what}: a later {name} blocks")
                if not isinstance(late.error, CancelledError):
                    raise Violation(f"{what}: a later {name} gave {late.error!r} instead of being refused as cancelled")
            if action == "cancel":
                s = Bg(q.stop)
                if not s.wait(PROMPT):
                    raise Violation(f"{what}: stop after it is still blocked after {PROMPT} s")
                if s.error:
                    raise Violation(f"{what}: stop after it failed with {s.error!r}")
            if established:
                # Told before stop() returned, since stop ends the receiver.
                require(r.wait(lambda: r.closed, PROMPT), f"{what}: the owner was not told that the channel closed")
                time.sleep(0.002)
                require(len(r.closed) == 1, f"{what}: the owner was told {len(r.closed)} times: {r.closed}")
                require(not r.got, f"{what}: an invented message was delivered: {r.got}")
            else:
                require(not r.got and not r.closed, f"{what}: told {r.closed} {r.got} about a channel that was never established")
            if path:
                require(not os.path.lexists(path), f"{what}: the socket file is still there after stop")
        finally:
            if q is not None:
                quiet_stop(q)
            ctx.close()
    rec.tag(scen)


# Timeouts -------------------------------------------------------------------

timeouts = st.tuples(
    st.sampled_from(["none", "none-connect", "in-time", "idle-after", "idle-after", "cancelq"]),
    st.sampled_from(["uds", "tcp"]),
    st.booleans(),
    st.sampled_from([0.05, 0.1, 0.2, 0.3]),
)


def t_timeout(case, rec: Recorder):
    scen, kind, tls, limit = case
    uds = kind == "uds"
    sctx, cctx = tls_pair() if tls else (None, None)
    ctx = Ctx()
    server = client = cancelq = None
    what = f"{case}"
    with Scratch("/tmp") as base:
        try:
            if scen == "none-connect":
                client, token, _, r, _, _, _ = make("cli-connect", False, False, base, ctx)
                start = time.monotonic()
                b = Bg(lambda: client.start(timeout=limit))
                if not b.wait(limit + PROMPT):
                    raise Violation(f"{what}: connecting ignores its timeout")
                if not isinstance(b.error, TimeoutError):
                    raise Violation(f"{what}: ended with {b.error!r} instead of a timeout error")
                require(b.ended_at - start >= limit - 0.005, f"{what}: timed out after {b.ended_at - start:.3f} s already")
                rec.nontrivial()
                rec.tag(scen)
                return
            srec, crec = Rec(), Rec()
            path = f"{base}/s"
            server = mpq.ServerMPQueue(f"uds:{path}" if uds else "tcp://127.0.0.1:0", lambda: srec, ssl_context=sctx)
            if scen in ("none", "cancelq"):
                if scen == "cancelq":
                    cancelq = mpq.ServerMPQueue(f"uds:{base}/q", mpq.MPProtocol)
                fire = Bg(lambda: None)
                start = time.monotonic()
                b = Bg(lambda: server.start(timeout=limit if scen == "none" else 60, cancel_queue=cancelq))
                if scen == "cancelq":
                    time.sleep(limit / 4)
                    require(not b.done.is_set(), f"{what}: the wait ended before anything happened: {b.error!r}")
                    raw_connect(f"{base}/q", ctx)
                if not b.wait(limit + PROMPT):
                    raise Violation(f"{what}: the wait does not end")
                want = TimeoutError if scen == "none" else CancelledError
                if not isinstance(b.error, want):
                    raise Violation(f"{what}: ended with {b.error!r} instead of {want.__name__}")
                if scen == "none":
                    require(b.ended_at - start >= limit - 0.005, f"{what}: timed out after {b.ended_at - start:.3f} s already")
                require(not srec.closed, f"{what}: told of the end of a channel that never was")
                Bg(server.stop).result(PROMPT, f"{what}: stop")
                require(not os.path.lexists(path), f"{what}: the socket file is still there after stop")
                rec.nontrivial()
                rec.tag(scen)
                return
            client = mpq.ClientMPQueue(server.address, lambda: crec, ssl_context=cctx)
            if scen == "in-time":
                # Far inside a generous timeout.
                b = Bg(lambda: server.start(timeout=60))
                time.sleep(limit)
                c = Bg(lambda: client.start(timeout=60))
            else:
                # The client is already waiting when the timed wait starts.
                c = Bg(lambda: client.start(timeout=60 if uds else limit + 30))
                time.sleep(0.05)
                b = Bg(lambda: server.start(timeout=limit))
            if not (b.wait(60) and c.wait(60)):
                raise Violation(f"{what}: the channel was not established")
            if scen != "in-time" and isinstance(b.error, TimeoutError):
                return  # the client thread was not scheduled in time
            if b.error or c.error:
                raise Violation(f"{what}: the channel was not established: {b.error!r} {c.error!r}")
            # Longer than the timeout without traffic.
            time.sleep(limit + 0.1)
            for a, x in ((server, crec), (client, srec)):
                require(not x.closed, f"{what}: the idle channel was closed: {x.closed}")
                n = len(x.got)
                a.send(msg("x" * 200000))
                if not x.wait(lambda: len(x.got) > n, PROMPT):
                    raise Violation(f"{what}: a message after an idle time longer than the timeout is lost, closed={x.closed}")
            rec.nontrivial()
            rec.tag(scen)
        finally:
            quiet_stop(client, server, cancelq)
            ctx.close()


# Closing --------------------------------------------------------------------

closing = st.tuples(
    st.sampled_from(["server", "client", "both", "peer-fin", "peer-rst", "peer-half", "peer-garbage", "handler", "twice", "unstarted", "failed-start"]),
    st.sampled_from(["uds", "tcp"]),
    st.booleans(),
    st.integers(0, 3),
    st.sampled_from([0, 0, 0.001]),
)


class Boom(Exception):
    pass


def t_closing(case, rec: Recorder):
    how, kind, tls, n, pause = case
    uds = kind == "uds"
    sctx, cctx = tls_pair() if tls else (None, None)
    ctx = Ctx()
    what = f"{case}"
    server = client = None
    with Scratch("/tmp") as base:
        path = f"{base}/s"
        keep = f"{base}/other"
        open(keep, "w").close()
        try:
            def hook(m):
                if how == "handler" and m.output == "boom":
                    raise Boom("from the owner")

            srec, crec = Rec(hook), Rec()
            server = mpq.ServerMPQueue(f"uds:{path}" if uds else "tcp://127.0.0.1:0", lambda: srec, ssl_context=sctx)
            if how == "unstarted":
                client = mpq.ClientMPQueue(server.address, lambda: crec, ssl_context=cctx)
                for q in (client, server):
                    guard(lambda: Bg(q.stop).result(PROMPT, f"{what}: stop"), f"{what}: stop")
                require(not srec.closed and not crec.closed, f"{what}: told of the end of a channel that never was")
            elif how == "failed-start":
                Bg(server.stop).result(PROMPT, f"{what}: stop")
                client = mpq.ClientMPQueue(f"uds:{path}" if uds else "tcp://127.0.0.1:1", lambda: crec, ssl_context=cctx)
                b = Bg(lambda: client.start(timeout=20))
                require(b.wait(30), f"{what}: connecting to nothing blocks")
                require(isinstance(b.error, OSError), f"{what}: connecting to nothing gave {b.error!r}")
                guard(lambda: Bg(client.stop).result(PROMPT, f"{what}: stop"), f"{what}: stop")
                require(not crec.closed, f"{what}: told of the end of a channel that never was")
            elif how.startswith("peer"):
                b = Bg(server.start)
                s = raw_connect(parse_addr_string(server.address), ctx)
                if tls:
                    s = cctx.wrap_socket(s)
                    ctx.keep.append(s)
                s.recv(1)
                b.result(PROMPT, f"{what}: accept")
                if how == "peer-half":
                    s.sendall(half_frame()[: 1 + n * 7])
                if how == "peer-garbage":
                    s.sendall(b"\x10\x00\x00\x00" + b"garbage that is no pickle" * 3)
                if how == "peer-rst" and not uds:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                s.close()
                require(srec.wait(lambda: srec.closed, PROMPT), f"{what}: the owner was not told that the peer went away")
                late = Bg(server.stop)
                require(late.wait(PROMPT) and not late.error, f"{what}: stop gave {late.error!r}")
                require(len(srec.closed) == 1, f"{what}: the owner was told {len(srec.closed)} times")
                require(not srec.got, f"{what}: an invented message was delivered")
                if how == "peer-fin":
                    require(srec.closed == [None], f"{what}: an orderly close was reported as {srec.closed}")
                if how == "peer-garbage":
                    require(srec.closed[0] is not None, f"{what}: a broken message was reported as an orderly close")
            else:
                client = mpq.ClientMPQueue(server.address, lambda: crec, ssl_context=cctx)
                b, c = Bg(server.start), Bg(lambda: client.start(timeout=20))
                b.result(20, f"{what}: accept")
                c.result(20, f"{what}: connect")
                for i in range(n):
                    server.send(msg(str(i)))
                    client.send(msg(str(i)))
                if n:
                    require(srec.wait(lambda: len(srec.got) == n, PROMPT) and crec.wait(lambda: len(crec.got) == n, PROMPT), f"{what}: messages are missing")
                if how == "handler":
                    client.send(msg("boom"))
                    require(srec.wait(lambda: srec.closed, PROMPT), f"{what}: a failure of the owner's handler was not reported")
                    require(len(srec.closed) == 1 and isinstance(srec.closed[0], Boom), f"{what}: reported as {srec.closed}")
                first, second = (client, server) if how == "client" else (server, client)
                frec, orec = (crec, srec) if how == "client" else (srec, crec)
                if how == "both":
                    x = Bg(client.stop)
                    time.sleep(pause)
                    y = Bg(server.stop)
                    for z in (x, y):
                        require(z.wait(PROMPT), f"{what}: stop is still blocked")
                        require(not z.error, f"{what}: stop gave {z.error!r}")
                else:
                    z = Bg(first.stop)
                    require(z.wait(PROMPT), f"{what}: stop is still blocked")
                    require(not z.error, f"{what}: stop gave {z.error!r}")
                    require(frec.closed, f"{what}: the end that stopped was not told")
                    require(orec.wait(lambda: orec.closed, PROMPT), f"{what}: the other end was not told")
                    if how in ("server", "client", "twice"):
                        require(frec.closed == [None] , f"{what}: the end that stopped was told {frec.closed}")
                        if kind == "uds" or not tls:
                            require(orec.closed == [None], f"{what}: the other end was told {orec.closed}")
                    z = Bg(second.stop)
                    require(z.wait(PROMPT) and not z.error, f"{what}: stop of the other end gave {z.error!r}")
                if how == "twice":
                    for q in (first, second):
                        z = Bg(q.stop)
                        require(z.wait(PROMPT) and not z.error, f"{what}: a second stop gave {z.error!r}")
                time.sleep(pause)
                for x in (srec, crec):
                    require(len(x.closed) == 1, f"{what}: an owner was told {len(x.closed)} times: {x.closed}")
            if uds:
                require(not os.path.lexists(path), f"{what}: the socket file is still there after stop")
            require(os.listdir(base) == ["other"], f"{what}: files after stop: {os.listdir(base)}")
        finally:
            quiet_stop(client, server)
            ctx.close()
    rec.tag(how)
    rec.nontrivial()


TESTS = [
    Test("blocked", lambda: blocked, t_blocked, quick=2400, thorough=40000, case_timeout=300, confirm=1),
    Test("timeout", lambda: timeouts, t_timeout, quick=240, thorough=2000, case_timeout=300, confirm=1),
    Test("closing", lambda: closing, t_closing, quick=1600, thorough=20000, case_timeout=300, confirm=1),
]
