"""C03: the adapter-debuggee channel delivers every message once and in order."""
from __future__ import annotations

import os
import threading
import time

from vf import HarnessError, Recorder, Test, Violation, guard, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import dap
from ansibug import _mp_queue as mpq
from ansibug._socket_helper import parse_addr_string
from chan import Bg, Proxy, Rec, Scratch, quiet_stop, tls_pair

PROPERTY = "C03"
TECHNIQUE = "property-based testing: generated traffic over real channels through a proxy that re-cuts the stream, against the list of messages sent"
LEVEL_NOTE = "Random search over transports, message sizes, cuts of the byte stream, concurrent senders and connection losses; thread interleavings are those the scheduler produces under the generated delays."
RULE = (
    "A case is a transport, a list of messages for each of up to two sender threads per end, the chunk sizes and pauses of a proxy between the ends, slow receivers, and how it ends (drained, one end stops right away, cut after N bytes). "
    "Non-trivial: both directions used, or more than one chunk per message, or a cut inside the traffic."
)
ASSUMPTIONS = [
    "A channel that is cut or stopped may lose messages that were on their way, so then only 'a prefix, nothing partial' is required; a stop after all sends with nothing unread must still deliver them on a plain transport.",
]
BUDGET_S = {"quick": 60, "thorough": 900}
WAIT = 40

fill = st.one_of(
    st.integers(0, 300),
    st.sampled_from([0, 1, 200, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 4090, 4096, 8192, 65535, 65536, 70000, 300000, 1200000]),
)
bodies = st.sampled_from(["a", "\u00e9", "\U0001f600", "\x00", "\r\n"])
message = st.tuples(fill, bodies, st.sampled_from(["output", "output", "evaluate", "variables", "error", "nested"]))
chunk = st.tuples(st.sampled_from([1, 1, 2, 3, 5, 100, 1000, 4096, 65536]), st.sampled_from([0, 0, 0, 0.0003, 0.001]))
stream = st.lists(message, max_size=6)
senders = st.lists(stream, min_size=1, max_size=2)
ends = st.one_of(
    st.just(("drain", 0)), st.just(("drain", 1)), st.just(("drain", 1)),
    st.just(("stop", 0)), st.just(("stop", 1)),
    st.tuples(st.just("cut"), st.integers(0, 1), st.integers(0, 1000), st.sampled_from(["fin", "reset"])),
)
cases = st.tuples(
    st.sampled_from(["uds", "tcp", "uds-tls", "tcp-tls"]), senders, senders, st.lists(chunk, min_size=1, max_size=4),
    st.tuples(st.sampled_from([0, 0, 0.002]), st.sampled_from([0, 0, 0.002])), ends,
)


def build(m, who, i):
    size, body, kind = m
    text = f"{who}:{i}:" + body * (size // len(body.encode()))
    if kind == "output":
        return dap.OutputEvent(category="console", output=text)
    if kind == "evaluate":
        return dap.EvaluateRequest(expression=text, frame_id=i, context="repl")
    if kind == "error":
        return dap.ErrorResponse(command=dap.Command.EVALUATE, request_seq=i, message=text)
    if kind == "variables":
        return dap.VariablesResponse(request_seq=i, variables=[dap.Variable(name=str(k), value=text if k == 0 else "v") for k in range(3)])
    return dap.OutputEvent(category="x", output=f"{who}:{i}", data={"a": [1, None, 2.5, {"b": text}], "c": True})


def same(a, b):
    return type(a) is type(b) and a == b and repr(a) == repr(b)


def total(s):
    return sum(len(repr(m)) + m[0] for stream in s for m in stream)


def check_received(got, sent, exact, what):
    """got: messages received; sent: list of lists (per sender thread)."""
    nexts = [0] * len(sent)
    for g in got:
        for k, lst in enumerate(sent):
            if nexts[k] < len(lst) and same(lst[nexts[k]], g):
                nexts[k] += 1
                break
        else:
            where = [(k, lst.index(g)) for k, lst in enumerate(sent) if g in lst]
            raise Violation(f"{what}: received {str(g)[:200]} which is {'message %s of a sender, out of order or again' % where if where else 'not a message that was sent'}; before it {nexts} per sender had arrived")
    if exact:
        require(nexts == [len(lst) for lst in sent], f"{what}: only {nexts} of {[len(x) for x in sent]} messages arrived")


def t_traffic(case, rec: Recorder):
    transport, c2s, s2c, chunks, slow, end = case
    uds, tls = transport.startswith("uds"), transport.endswith("tls")
    # Keep single byte chunks to small traffic.
    size = total(c2s) + total(s2c)
    if size > 20000:
        chunks = [(max(n, 1000) if size < 400000 else max(n, 20000), p if size < 100000 else 0) for n, p in chunks]
    with Scratch("/tmp") as base:
        srec = Rec(lambda m: slow[0] and time.sleep(slow[0]))
        crec = Rec(lambda m: slow[1] and time.sleep(slow[1]))
        sctx, cctx = tls_pair() if tls else (None, None)
        server = client = proxy = None
        try:
            server = mpq.ServerMPQueue(f"uds:{base}/s" if uds else "tcp://127.0.0.1:0", lambda: srec, ssl_context=sctx)
            target = parse_addr_string(server.address)
            cut = None
            est = [total(c2s), total(s2c)]
            if end[0] == "cut":
                # Past the connection set up, somewhere in the traffic.
                cut = (end[1], (0 if not tls else (600 if end[1] == 0 else 1200)) + 10 + end[2] * max(est[end[1]], 50) // 1000, end[3])
            proxy = Proxy(target, chunks, cut, path=f"{base}/p")
            client = mpq.ClientMPQueue(proxy.address, lambda: crec, ssl_context=cctx)
            accepted = Bg(lambda: server.start(timeout=30))
            started = Bg(lambda: client.start(timeout=30))
            if not (accepted.wait(WAIT) and started.wait(WAIT)):
                if cut:
                    return
                raise Violation("the channel was not established")
            if accepted.error or started.error:
                if cut:
                    return
                raise Violation(f"the channel was not established: {accepted.error!r} {started.error!r}")

            sent = {"c": [[build(m, f"c{k}", i) for i, m in enumerate(s)] for k, s in enumerate(c2s)], "s": [[build(m, f"s{k}", i) for i, m in enumerate(s)] for k, s in enumerate(s2c)]}
            done = {"c": [0] * len(c2s), "s": [0] * len(s2c)}

            def run(who, k):
                q = client if who == "c" else server
                for m in sent[who][k]:
                    q.send(m)
                    done[who][k] += 1

            jobs = [Bg(lambda who=who, k=k: run(who, k)) for who in "cs" for k in range(len(sent[who]))]
            for j in jobs:
                if not j.wait(WAIT):
                    if cut:
                        break
                    raise Violation(f"sending is blocked although the other end reads ({transport})")
            if not cut:
                for j in jobs:
                    if j.error:
                        raise Violation(f"sending on an open channel failed: {j.error!r}")
            n_c, n_s = sum(map(len, sent["c"])), sum(map(len, sent["s"]))
            exact_s = exact_c = False
            if end[0] == "drain":
                if not (srec.wait(lambda: len(srec.got) >= n_c, WAIT) and crec.wait(lambda: len(crec.got) >= n_s, WAIT)):
                    check_received(list(srec.got), sent["c"], True, "client to server")
                    check_received(list(crec.got), sent["s"], True, "server to client")
                exact_s = exact_c = True
            if end[0] in ("drain", "stop"):
                first, other, orec = (client, server, srec) if end[1] == 0 else (server, client, crec)
                # Everything the stopping end did not read would reset the connection.
                if end[0] == "stop" and not tls:
                    mine, mrec = (n_s, crec) if end[1] == 0 else (n_c, srec)
                    if not mrec.wait(lambda: len(mrec.got) >= mine, WAIT):
                        check_received(list(mrec.got), sent["s" if end[1] == 0 else "c"], True, "to the end that stops")
                    exact_s = exact_c = True
                Bg(first.stop).result(WAIT, "stop")
                if not orec.wait(lambda: orec.closed, WAIT):
                    raise Violation("the other end was not told that the channel closed")
                Bg(other.stop).result(WAIT, "stop")
            else:
                proxy.cut_done.wait(0.5)
                for j in jobs:
                    j.wait(1)
                if proxy.cut_done.is_set():
                    for r, n in ((srec, "server"), (crec, "client")):
                        if not r.wait(lambda: r.closed, WAIT):
                            raise Violation(f"the {n} was not told that the connection was lost")
                    rec.tag("cut in traffic")
                Bg(client.stop).result(WAIT, "stop")
                Bg(server.stop).result(WAIT, "stop")
            check_received(list(srec.got), sent["c"], exact_s, "client to server")
            check_received(list(crec.got), sent["s"], exact_c, "server to client")
            for r, n in ((srec, "server"), (crec, "client")):
                require(len(r.closed) == 1, f"the {n} was told {len(r.closed)} times that the channel closed")
        finally:
            if proxy:
                proxy.close()
            quiet_stop(client, server)
    rec.tag(transport)
    rec.tag(end[0])
    if len(c2s) > 1 or len(s2c) > 1 or (n_c and n_s) or (n_c + n_s and any(c[0] < 1000 for c in chunks)) or end[0] == "cut":
        rec.nontrivial()


# Two threads of one end sending big messages to a slow reader.
contended = st.tuples(
    st.sampled_from(["uds", "tcp", "uds-tls", "tcp-tls"]),
    st.booleans(),
    st.lists(st.lists(st.sampled_from([10, 1000, 150000, 300000, 700000]), min_size=1, max_size=5), min_size=2, max_size=4),
    st.sampled_from([0, 0.001, 0.01]),
)


def t_contended(case, rec: Recorder):
    transport, from_client, plan, pause = case
    streams = [[(n, "a", "output") for n in p] for p in plan]
    return t_traffic(
        (transport, streams if from_client else [[]], [[]] if from_client else streams, [(100000, 0)], (pause, pause), ("drain", 0)), rec
    )


TESTS = [
    Test("traffic", lambda: cases, t_traffic, quick=1600, thorough=40000, case_timeout=300, confirm=0),
    Test("contended", lambda: contended, t_contended, quick=400, thorough=8000, case_timeout=300),
]
