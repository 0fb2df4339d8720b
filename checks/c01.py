"""C01: DAP framing is lossless under any chunking of the stream."""
from __future__ import annotations

import json

from vf import Recorder, Test, Violation, guard, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import dap
from ansibug.dap import DebugAdapterConnection

PROPERTY = "C01"
TECHNIQUE = "property-based testing: generated message streams and cuts against an independent framer"
LEVEL_NOTE = "Random search over message lists, wire formatting, chunkings and drain sizes; the framer and the expected list are written independently of the code."
RULE = (
    "A case is a list of messages, a way of writing each on the wire (header order, JSON whitespace, escapes), "
    "a list of cuts and of drain sizes. Non-trivial: at least two messages and at least one cut or drain inside a frame, "
    "or a refused frame after a delivered one."
)
ASSUMPTIONS = ["Header lines end in CRLF and use the exact name Content-Length, as the DAP specification writes them."]
BUDGET_S = {"quick": 30, "thorough": 600}

json_values = st.recursive(
    st.none() | st.booleans() | st.integers(-(2**53), 2**53) | st.text(max_size=12),
    lambda c: st.lists(c, max_size=3) | st.dictionaries(st.text(max_size=6), c, max_size=3),
    max_leaves=6,
)
texts = st.one_of(
    st.text(max_size=20),
    st.sampled_from(["\r\n\r\n", "Content-Length: 5\r\n\r\n", "\u2028", "\U0001f600" * 3, "é" * 50, "\x00", "{}", "a" * 5000]),
)
in_messages = st.one_of(
    st.tuples(st.just("evaluate"), texts),
    st.tuples(st.just("launch"), st.dictionaries(st.text(max_size=8), json_values, max_size=4)),
    st.tuples(st.just("threads"), st.just("")),
    st.tuples(st.just("runInTerminal"), st.integers(0, 10**6)),
)
styles = st.tuples(
    st.sampled_from(["ascii", "utf8"]),
    st.sampled_from(["compact", "plain", "indent", "crlf"]),
    st.sampled_from(["len", "type-len", "len-type", "note-len"]),
)


def wire_obj(m, seq):
    kind, v = m
    if kind == "evaluate":
        return {"seq": seq, "type": "request", "command": "evaluate", "arguments": {"expression": v, "context": "repl"}}
    if kind == "launch":
        return {"type": "request", "command": "launch", "arguments": v, "seq": seq}
    if kind == "threads":
        return {"seq": seq, "type": "request", "command": "threads"}
    return {"seq": seq, "type": "response", "request_seq": v, "success": True, "command": "runInTerminal", "body": {}}


def wire(obj, style):
    esc, layout, hdr = style
    kw = {"compact": {"separators": (",", ":")}, "plain": {}, "indent": {"indent": 2}, "crlf": {"indent": 1}}[layout]
    text = json.dumps(obj, ensure_ascii=esc == "ascii", **kw)
    if layout == "crlf":
        # Insignificant whitespace may be anything, a blank line included.
        text = "{\r\n\r\n" + text[1:-1] + "\r\n\r\n}"
    body = text.encode()
    length = b"Content-Length: %d\r\n" % len(body)
    ctype = b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"
    note = b"X-Note: sent: by a: test\r\n"
    head = {"note-len": note + length, "len": length, "type-len": ctype + length, "len-type": length + ctype}[hdr]
    return head + b"\r\n" + body


def check_in(m, seq, got):
    kind, v = m
    require(got.seq == seq, f"message {seq} was delivered with seq {got.seq}")
    if kind == "evaluate":
        require(isinstance(got, dap.EvaluateRequest) and got.expression == v, f"message {seq} came out as {got!r}")
    elif kind == "launch":
        require(isinstance(got, dap.LaunchRequest), f"message {seq} came out as {got!r}")
        require(got.arguments == v and repr(got.arguments) == repr(v), f"message {seq} arguments {got.arguments!r} != {v!r}")
    elif kind == "threads":
        require(isinstance(got, dap.ThreadsRequest), f"message {seq} came out as {got!r}")
    else:
        require(isinstance(got, dap.RunInTerminalResponse) and got.request_seq == v, f"message {seq} came out as {got!r}")


def t_incoming(case, rec: Recorder):
    msgs, cuts, as_type, eager = case
    frames = [wire(wire_obj(m, i + 1), s) for i, (m, s) in enumerate(msgs)]
    stream = b"".join(frames)
    ends, pos = [], 0
    for f in frames:
        pos += len(f)
        ends.append(pos)
    # Cut positions are given per mille of the stream plus an exact small offset.
    points = sorted({min(len(stream), a * len(stream) // 1000 + b) for a, b in cuts} | {len(stream)})
    conn = DebugAdapterConnection()
    delivered, fed = 0, 0
    inside = False
    for i, p in enumerate(points):
        chunk = stream[fed:p]
        fed = p
        inside = inside or p not in ends
        conn.receive_data({"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[as_type](chunk))
        if not eager and i % 2 and p != len(stream):
            continue
        complete = sum(1 for e in ends if e <= fed)
        while True:
            got = guard(conn.next_message, f"next_message with {fed} of {len(stream)} bytes")
            if got is None:
                break
            require(delivered < complete, f"a message was delivered before its last byte arrived (byte {fed})")
            check_in(msgs[delivered][0], delivered + 1, got)
            delivered += 1
        require(delivered == complete, f"{complete} messages are complete after byte {fed} but {delivered} were delivered")
    require(delivered == len(msgs), "not every message was delivered")
    rec.tag(f"messages={min(len(msgs), 4)}")
    rec.tag(f"cuts={min(len(points) - 1, 5)}")
    if len(msgs) >= 2 and inside:
        rec.nontrivial()


def t_every_cut(case, rec: Recorder):
    """Two messages, cut at every single byte position, fed byte by byte as well."""
    msgs = case
    frames = [wire(wire_obj(m, i + 1), s) for i, (m, s) in enumerate(msgs)]
    stream = b"".join(frames)
    if len(stream) > 600:
        return
    for cut in range(len(stream) + 1):
        conn = DebugAdapterConnection()
        got = []
        for part in (stream[:cut], stream[cut:]):
            conn.receive_data(part)
            while (m := guard(conn.next_message, f"cut at {cut}")) is not None:
                got.append(m)
            if part is stream[:cut] and len(got) != sum(1 for e in (len(frames[0]), len(stream)) if e <= cut):
                raise Violation(f"cut at {cut}: {len(got)} messages delivered early or late")
        require(len(got) == len(msgs), f"cut at {cut}: {len(got)} of {len(msgs)} messages")
        for i, m in enumerate(got):
            check_in(msgs[i][0], i + 1, m)
    conn = DebugAdapterConnection()
    got = []
    for i in range(len(stream)):
        conn.receive_data(stream[i : i + 1])
        while (m := guard(conn.next_message, f"byte {i}")) is not None:
            got.append(m)
    require(len(got) == len(msgs), "byte by byte: messages lost")
    rec.nontrivial()


def independent_parse(data: bytes):
    """Frames strictly as the DAP specification lays them out."""
    out = []
    while data:
        head, sep, rest = data.partition(b"\r\n\r\n")
        require(sep, f"bytes after the last frame: {data[:80]!r}")
        fields = {}
        for line in head.split(b"\r\n"):
            k, c, v = line.partition(b": ")
            require(c, f"bad header line {line!r}")
            fields[k] = v
        require(b"Content-Length" in fields and fields[b"Content-Length"].isdigit(), f"bad header {head!r}")
        n = int(fields[b"Content-Length"])
        require(len(rest) >= n, f"frame announces {n} bytes, {len(rest)} follow")
        try:
            out.append(json.loads(rest[:n].decode("utf-8")))
        except ValueError as e:
            raise Violation(f"frame of {n} bytes is not JSON ({e}): {rest[:n][:200]!r}")
        data = rest[n:]
    return out


out_messages = st.one_of(
    st.tuples(st.just("output"), texts),
    st.tuples(st.just("outdata"), json_values),
    st.tuples(st.just("error"), st.integers(0, 10**6), texts),
    st.tuples(st.just("threads"), st.integers(0, 10**6), st.lists(texts, max_size=3)),
)


def build_out(m):
    if m[0] == "output":
        return dap.OutputEvent(category="console", output=m[1])
    if m[0] == "outdata":
        return dap.OutputEvent(category="console", output="x", data=m[1])
    if m[0] == "error":
        return dap.ErrorResponse(command=dap.Command.LAUNCH, request_seq=m[1], message=m[2])
    return dap.ThreadsResponse(request_seq=m[1], threads=[dap.Thread(id=i, name=n) for i, n in enumerate(m[2])])


def check_out(m, seq, obj):
    require(obj.get("seq") == seq, f"outgoing message {seq} carries seq {obj.get('seq')}")
    if m[0] == "output":
        require(obj["type"] == "event" and obj["event"] == "output" and obj["body"]["output"] == m[1], f"message {seq}: {obj!r}")
    elif m[0] == "outdata":
        require(obj["body"]["data"] == m[1], f"message {seq}: {obj!r}")
    elif m[0] == "error":
        require(obj["request_seq"] == m[1] and obj["success"] is False and obj["message"] == m[2], f"message {seq}: {obj!r}")
    else:
        require(obj["request_seq"] == m[1] and [x["name"] for x in obj["body"]["threads"]] == m[2], f"message {seq}: {obj!r}")


ops = st.lists(
    st.one_of(
        st.tuples(st.just("q"), out_messages),
        st.tuples(st.just("d"), st.sampled_from([-1, 0, 1, 2, 3, 5, 17, 64, 100000]) | st.integers(0, 300)),
    ),
    min_size=1,
    max_size=14,
)


def t_outgoing(case, rec: Recorder):
    conn = DebugAdapterConnection()
    data = b""
    queued = []
    partial = False
    for op, arg in case:
        if op == "q":
            msg = build_out(arg)
            no = guard(lambda: conn.queue_msg(msg), "queue_msg")
            queued.append(arg)
            require(no == len(queued), f"message {len(queued)} was numbered {no}")
        else:
            part = conn.data_to_send() if arg == -1 else conn.data_to_send(arg)
            if arg != -1:
                require(len(part) <= arg, f"asked for {arg} bytes, got {len(part)}")
                partial = partial or 0 < len(part) == arg
            data += bytes(part)
    data += bytes(conn.data_to_send())
    require(not conn.data_to_send(), "bytes left after everything was drained")
    objs = independent_parse(data)
    require(len(objs) == len(queued), f"{len(queued)} messages queued, {len(objs)} frames came out")
    for i, (m, o) in enumerate(zip(queued, objs)):
        check_out(m, i + 1, o)
    if len(queued) >= 2 and partial:
        rec.nontrivial()
        rec.tag("partial drain")


def t_duplex(case, rec: Recorder):
    """Two connections back to back; each is a sender and a receiver at once."""
    ends = [DebugAdapterConnection(), DebugAdapterConnection()]
    sent = [[], []]
    seen = [0, 0]

    def read(side):
        while (m := guard(ends[side].next_message, "next_message")) is not None:
            src = sent[1 - side]
            require(seen[side] < len(src), "a message arrived that was never sent")
            want = src[seen[side]]
            seen[side] += 1
            require(m.seq == seen[side], f"seq {m.seq} arrived as message {seen[side]}")
            require(isinstance(m, dap.EvaluateRequest) and m.expression == want, f"{m!r} arrived instead of {want!r}")

    pipes = [b"", b""]
    for side, op, arg in case:
        if op == "q":
            msg = dap.EvaluateRequest(expression=arg)
            guard(lambda: ends[side].queue_msg(msg), "queue_msg")
            sent[side].append(arg)
        elif op == "d":
            pipes[side] += bytes(ends[side].data_to_send(arg))
        else:
            ends[1 - side].receive_data(pipes[side][:arg])
            pipes[side] = pipes[side][arg:]
            read(1 - side)
    for side in (0, 1):
        ends[1 - side].receive_data(pipes[side] + bytes(ends[side].data_to_send()))
        read(1 - side)
        require(seen[1 - side] == len(sent[side]), f"{len(sent[side])} sent, {seen[1 - side]} received")
    if sent[0] and sent[1]:
        rec.nontrivial()


duplex_ops = st.lists(
    st.tuples(st.sampled_from([0, 1]), st.just("q"), texts)
    | st.tuples(st.sampled_from([0, 1]), st.sampled_from(["d", "f"]), st.sampled_from([1, 2, 7, 40, 150, 5000])),
    min_size=2,
    max_size=20,
)


def t_refusal(case, rec: Recorder):
    good, kind, arg, style, cut = case
    conn = DebugAdapterConnection()
    for i, (m, s) in enumerate(good):
        conn.receive_data(wire(wire_obj(m, i + 1), s))
    n = len(good)
    if kind == "seq":
        bad_seq = arg if arg != n + 1 else n + 2
        data = wire(wire_obj(("threads", ""), bad_seq), style)
    elif kind == "reltseq":
        data = wire(wire_obj(("threads", ""), n + 1 + (arg % 5 + 1) * (-1 if arg % 2 else 1)), style)
    else:
        body = json.dumps(wire_obj(("threads", ""), n + 1)).encode()
        name = [b"Content-Type: %d", b"Content-Size: %d", b"Length: %d", b"X-Content-Length: %d"][arg % 4]
        data = name % len(body) + b"\r\n\r\n" + body
    k = len(data) * cut // 1000
    conn.receive_data(data[:k])
    for i, (m, s) in enumerate(good):
        got = guard(conn.next_message, f"good message {i + 1}")
        require(got is not None, f"good message {i + 1} was not delivered")
        check_in(m, i + 1, got)
    conn.receive_data(data[k:])
    try:
        got = conn.next_message()
    except Exception:
        rec.tag(kind)
        if good:
            rec.nontrivial()
        return
    raise Violation(f"{kind}: the bad frame {data[:200]!r} gave {got!r} instead of an error")


msgs = st.lists(st.tuples(in_messages, styles), min_size=1, max_size=8)
cuts = st.lists(st.tuples(st.integers(0, 1000), st.integers(0, 40)), max_size=10)

TESTS = [
    Test("incoming", lambda: st.tuples(msgs, cuts, st.sampled_from(["bytes", "bytearray", "memoryview"]), st.booleans()), t_incoming, 8000, 200000),
    Test("every_cut", lambda: st.lists(st.tuples(in_messages, styles), min_size=2, max_size=2), t_every_cut, 800, 20000),
    Test("outgoing", lambda: ops, t_outgoing, 8000, 200000),
    Test("duplex", lambda: duplex_ops, t_duplex, 6000, 150000),
    Test(
        "refusal",
        lambda: st.tuples(
            st.lists(st.tuples(in_messages, styles), max_size=4),
            st.sampled_from(["seq", "reltseq", "nolen"]),
            st.integers(-3, 20),
            styles,
            st.integers(0, 1000),
        ),
        t_refusal,
        4000,
        100000,
    ),
]
