"""C08: the adapter answers every request once and ends with one terminated event."""
from __future__ import annotations

import io
import json
import os
import pathlib
import random
import signal
import subprocess
import sys
import threading
import time
import traceback

from vf import HarnessError, Recorder, REPO, Test, Violation, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import dap
from ansibug import _mp_queue as mpq
from ansibug._debug_adapter import start_dap
from chan import Bg, Rec, Scratch, quiet_stop
from stub import make_stub, read_argv, wait_for

PROPERTY = "C08"
TECHNIQUE = "property-based testing with schedule injection: generated client/debuggee sessions against the real adapter over pipes and sockets, checked against a session model"
LEVEL_NOTE = "Random search over sessions, ways of ending and thread timings (pauses at chosen lines and random jitter in both adapter threads); the debuggee is a fake one speaking the real channel. Hang verdicts take 20 s of real time."
RULE = (
    "A case is a client session: how the debuggee is reached (or not), batches of requests and debuggee messages, the way the session ends and a schedule. "
    "Non-trivial: requests were outstanding at the end, or both sides were active at the same moment, or the debuggee was lost, or the session failed."
)
ASSUMPTIONS = [
    "Ending is taken as prompt within 20 s.",
    "Requests that follow a message that makes the session fail need not be answered.",
    "Debuggee messages still in flight when the client disconnects or ends its input may be discarded.",
    "A request that crosses with the loss of the debuggee may be answered with an error.",
]
BUDGET_S = {"quick": 50, "thorough": 900}
PROMPT = 20
SRC = os.path.realpath(str(REPO / "src")) + "/ansibug/_debug_adapter.py"

KINDS = {
    "evaluate": lambda text: dict(expression=text, context="repl"),
    "threads": lambda text: None,
    "next": lambda text: dict(threadId=len(text)),
    "variables": lambda text: dict(variablesReference=len(text)),
    "configurationDone": lambda text: {},
    "setBreakpoints": lambda text: dict(source=dict(path=text), breakpoints=[dict(line=len(text))]),
}


def check_forwarded(kind, text, m):
    if kind == "evaluate":
        return isinstance(m, dap.EvaluateRequest) and m.expression == text
    if kind == "threads":
        return isinstance(m, dap.ThreadsRequest)
    if kind == "next":
        return isinstance(m, dap.NextRequest) and m.thread_id == len(text)
    if kind == "variables":
        return isinstance(m, dap.VariablesRequest) and m.variables_reference == len(text)
    if kind == "configurationDone":
        return isinstance(m, dap.ConfigurationDoneRequest)
    if kind == "setBreakpoints":
        return isinstance(m, dap.SetBreakpointsRequest) and m.source.path == text and [b.line for b in m.breakpoints] == [len(text)]
    if kind == "disconnect":
        return isinstance(m, dap.DisconnectRequest)
    return False


def answer_for(m):
    if isinstance(m, dap.EvaluateRequest):
        return dap.EvaluateResponse(request_seq=m.seq, result=m.expression + "!", type="str")
    if isinstance(m, dap.ThreadsRequest):
        return dap.ThreadsResponse(request_seq=m.seq, threads=[dap.Thread(id=m.seq, name="t")])
    if isinstance(m, dap.NextRequest):
        return dap.NextResponse(request_seq=m.seq)
    if isinstance(m, dap.VariablesRequest):
        return dap.VariablesResponse(request_seq=m.seq, variables=[])
    if isinstance(m, dap.SetBreakpointsRequest):
        return dap.SetBreakpointsResponse(request_seq=m.seq, breakpoints=[])
    return dap.ConfigurationDoneResponse(request_seq=m.seq)


# -- the adapter, in a child process ----------------------------------------


class Jitter:
    def __init__(self, seed, pauses):
        self.seed, self.pauses = seed, {}
        for who, n, dur in pauses:
            self.pauses[(who, n)] = dur
        self.state = threading.local()

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != SRC:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            s = self.state
            if not hasattr(s, "n"):
                s.who = "main" if threading.current_thread() is threading.main_thread() else "recv"
                s.n = 0
                s.rng = random.Random(f"{self.seed}{s.who}")
            d = self.pauses.get((s.who, s.n), 0)
            s.n += 1
            if self.seed and s.rng.random() < 0.08:
                d += s.rng.random() * 0.004
            if d:
                time.sleep(d)
        return self.local


class Adapter:
    def __init__(self, work, jitter, level, executable, temp_dir, reader):
        in_r, self.in_w = os.pipe()
        self.out_r, out_w = os.pipe()
        self.err = os.path.join(work, "stderr")
        err = os.open(self.err, os.O_WRONLY | os.O_CREAT, 0o600)
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.dup2(in_r, 0)
                os.dup2(out_w, 1)
                os.dup2(err, 2)
                os.closerange(3, 512)
                sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, "r", closefd=False)), encoding="utf-8")
                sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), encoding="utf-8")
                sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), encoding="utf-8", errors="backslashreplace", write_through=True)
                sys.executable = executable
                if jitter:
                    threading.settrace(jitter.trace)
                    sys.settrace(jitter.trace)
                try:
                    start_dap(pathlib.Path(work) / "da.log" if level else None, level or "info", pathlib.Path(temp_dir) if temp_dir else None)
                    code = 0
                finally:
                    sys.settrace(None)
            except BaseException:
                try:
                    traceback.print_exc(file=sys.stderr)
                except BaseException:
                    pass
            finally:
                try:
                    threading._shutdown()
                finally:
                    os._exit(code)
        for fd in (in_r, out_w, err):
            os.close(fd)
        self.status = None
        self.cond = threading.Condition()
        self.frames = []
        self.raw = b""
        self.bad = None
        self.eof = False
        self.reader = reader
        self.on_frame = None
        self.thread = threading.Thread(target=self._read, daemon=True)
        self.thread.start()

    def _read(self):
        buf = b""
        size, pause = self.reader
        while True:
            try:
                data = os.read(self.out_r, size)
            except OSError:
                data = b""
            if not data:
                break
            buf += data
            while True:
                head, sep, rest = buf.partition(b"\r\n\r\n")
                if not sep:
                    break
                length = None
                for line in head.split(b"\r\n"):
                    k, _, v = line.partition(b":")
                    if k.strip().lower() == b"content-length":
                        length = int(v)
                if length is None:
                    self.bad = self.bad or f"a frame without a length: {head[:200]!r}"
                    length = 0
                if len(rest) < length:
                    break
                body, buf = rest[:length], rest[length:]
                try:
                    obj = json.loads(body)
                except ValueError:
                    self.bad = self.bad or f"a frame that is not JSON: {body[:200]!r}"
                    obj = {}
                obj["_at"] = time.monotonic()
                with self.cond:
                    self.frames.append(obj)
                    self.cond.notify_all()
            if pause:
                time.sleep(pause)
        with self.cond:
            if buf:
                self.bad = self.bad or f"the output ends inside a message: {buf[:200]!r}"
            self.eof = True
            self.cond.notify_all()

    def wait(self, pred, timeout=PROMPT):
        with self.cond:
            return self.cond.wait_for(lambda: pred(self.frames), timeout)

    def write(self, data, cuts=()):
        pos = 0
        try:
            for c in cuts:
                if pos >= len(data):
                    break
                os.write(self.in_w, data[pos : pos + c])
                pos += c
                time.sleep(0.001)
            while pos < len(data):
                pos += os.write(self.in_w, data[pos : pos + 65536])
        except BrokenPipeError:
            pass

    def close_in(self):
        if self.in_w is not None:
            os.close(self.in_w)
            self.in_w = None

    def close_out(self):
        # Only the reader thread uses the descriptor: have it see the end.
        if self.out_r is not None:
            os.close(self.out_r)
            self.out_r = None

    def ended(self, timeout):
        end = time.monotonic() + timeout
        while self.status is None:
            pid, status = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.status = status
                break
            if time.monotonic() > end:
                return False
            time.sleep(0.003)
        return True

    def stderr(self):
        try:
            with open(self.err, errors="backslashreplace") as f:
                return f.read()[-1500:]
        except OSError:
            return ""

    def close(self):
        self.close_in()
        if not self.ended(0.2):
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.status = -1
        self.thread.join(5)
        self.close_out()


# -- the fake debuggee -------------------------------------------------------


class Debuggee(Rec):
    def __init__(self, policies, on_disconnect):
        super().__init__()
        self.policies, self.on_disconnect = policies, on_disconnect
        self.lock = threading.Lock()
        self.sent = []
        self.held = []
        self.queue = None
        self.lost = False

    def send(self, m, tag):
        with self.lock:
            if self.lost:
                return False
            try:
                self.queue.send(m)
            except Exception:
                return False
            self.sent.append(tag)
            return True

    def event(self, text):
        return self.send(dap.OutputEvent(category="console", output=text), ("event", text))

    def reply(self, m, how):
        if how == "err":
            self.send(dap.ErrorResponse(command=m.command, request_seq=m.seq, message="no"), ("resp", m.seq))
        else:
            self.send(answer_for(m), ("resp", m.seq))

    def on_msg_received(self, m):
        super().on_msg_received(m)
        if not isinstance(m, dap.Request):
            return
        if isinstance(m, dap.DisconnectRequest):
            if "events" in self.on_disconnect:
                for i in range(3):
                    self.event(f"bye {i}")
            if "answer" in self.on_disconnect:
                self.send(dap.DisconnectResponse(request_seq=m.seq), ("resp", m.seq))
            if "close" in self.on_disconnect:
                Bg(self.queue.stop)
            return
        how = self.policies.get(m.seq, "ok")
        if how == "hold":
            return
        if how == "late":
            self.held.append(m)
            return
        self.reply(m, how)


# -- the session -------------------------------------------------------------


class Session:
    def __init__(self, adapter, rec):
        self.a, self.rec = adapter, rec
        self.seq = 0
        self.requests = {}  # seq: (command, must be answered)
        self.forwarded = []  # (seq, kind, text) meant for the debuggee
        self.policies = {}

    def frame(self, body, kind="request"):
        self.seq += 1
        obj = dict(seq=self.seq, type=kind, **body)
        data = json.dumps(obj, ensure_ascii=self.seq % 3 == 0).encode("utf-8")
        return b"Content-Length: %d\r\n\r\n" % len(data) + data

    def request(self, command, arguments, must=True):
        body = dict(command=command)
        if arguments is not None:
            body["arguments"] = arguments
        data = self.frame(body)
        self.requests[self.seq] = (command, must)
        return data

    def batch(self, specs):
        out = b""
        for kind, text, policy in specs:
            data = self.request(kind, KINDS[kind](text))
            self.forwarded.append((self.seq, kind, text))
            self.policies[self.seq] = policy
            out += data
        return out

    def responses(self, seq):
        return [f for f in self.a.frames if f.get("type") == "response" and f.get("request_seq") == seq]

    def wait_answer(self, seq, timeout=PROMPT):
        return self.a.wait(lambda fr: any(f.get("type") == "response" and f.get("request_seq") == seq for f in fr), timeout)


def terminated(frames):
    return [i for i, f in enumerate(frames) if f.get("type") == "event" and f.get("event") == "terminated"]


text = st.one_of(st.text(max_size=20), st.sampled_from(["é" * 3000, "x" * 9000, "日本語🎉", "a\r\n\r\nContent-Length: 4\r\n\r\nab"]))
reqspec = st.tuples(st.sampled_from(list(KINDS)), text, st.sampled_from(["ok", "ok", "ok", "err", "hold", "late"]))
reqs = st.lists(reqspec, min_size=1, max_size=5)
evts = st.lists(text, min_size=1, max_size=6)
cuts = st.lists(st.integers(1, 200), max_size=4)
op = st.one_of(
    st.tuples(st.just("req"), reqs, cuts),
    st.tuples(st.just("evt"), evts),
    st.tuples(st.just("both"), reqs, evts, st.sampled_from([0, 0.001, 0.003])),
    st.tuples(st.just("settle")),
    st.tuples(st.just("late")),
)
pauses = st.lists(st.tuples(st.sampled_from(["main", "recv"]), st.integers(0, 250), st.sampled_from([0.01, 0.04])), max_size=4)
sched = st.tuples(st.one_of(st.just(0), st.integers(1, 10**6)), pauses)
ends = st.sampled_from(
    [
        "disconnect", "disconnect", "eof", "loss", "loss", "loss-midmsg", "loss+disconnect", "loss+eof", "loss+req", "loss+disconnect", "garbage", "stdout-closed",
        "loss-event+disconnect", "garbage+loss",
    ]
)
gap = st.sampled_from([-0.004, -0.001, 0, 0, 0.0005, 0.002, 0.006])
on_disconnect = st.sampled_from(["", "close", "answer close", "events close", "events answer close", "events"])
reader = st.sampled_from([(65536, 0), (65536, 0), (65536, 0), (1, 0), (700, 0.001)])
settings = st.tuples(sched, st.sampled_from([None, None, "info", "debug"]), reader)
connected = st.tuples(st.sampled_from(["attach-uds", "attach-tcp", "launch"]), st.lists(op, max_size=6), ends, gap, reqs, on_disconnect, st.booleans(), settings)
light = st.tuples(
    st.sampled_from(
        [
            "eof", "init-eof", "init-disconnect", "disconnect", "early-request", "garbage", "attach-fail", "attach-invalid", "attach-timeout", "attach-refused", "launch-invalid", "launch-ended",
            "launch-ended-late", "launch-timeout", "launch-pending-disconnect", "launch-pending-eof", "launch-refused", "launch-pending-req", "half-message",
        ]
    ),
    cuts,
    settings,
)

GARBAGE = [b"Content-Length: 5\r\n\r\nhello", b"X: 1\r\n\r\n{}", b'Content-Length: 17\r\n\r\n{"seq":0,"type":1}']


def init(s):
    s.a.write(s.request("initialize", dict(adapterID="x", clientID="y")))
    if not s.wait_answer(s.seq):
        raise Violation(f"initialize is not answered within {PROMPT} s; {s.a.stderr()}")


def run_script(s, frame, env_extra=None):
    args = frame["arguments"]
    env = dict(os.environ)
    env.update(env_extra or {})
    return subprocess.Popen(args["args"], cwd=args.get("cwd") or None, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)


def wait_terminal(s):
    found = []

    def pred(frames):
        found[:] = [f for f in frames if f.get("command") == "runInTerminal" and f.get("type") == "request"]
        return found

    if not s.a.wait(pred):
        raise Violation(f"no runInTerminal request within {PROMPT} s of the launch request; {s.a.stderr()}")
    return found[0]


def in_terminal_response(s, frame, ok=True):
    body = dict(request_seq=frame["seq"], command="runInTerminal", success=ok)
    body["body"] = dict(processId=1) if ok else {}
    if not ok:
        body["message"] = "cannot"
    return s.frame(body, "response")


def verdict(s, what, *, dbg=None, complete=False, disconnect_seq=None, disconnect_first=False, forwarded_all=True, stdout_closed=False, allow_prefix_at=None):
    """The oracle, applied once the adapter has ended."""
    a = s.a
    a.thread.join(PROMPT)
    if not stdout_closed:
        if a.bad:
            raise Violation(f"{what}: {a.bad}")
        fr = a.frames
        seqs = [f.get("seq") for f in fr]
        require(seqs == list(range(1, len(fr) + 1)), lambda: f"{what}: messages are numbered {seqs[:60]}")
        t = terminated(fr)
        require(len(t) == 1, lambda: f"{what}: {len(t)} terminated events; messages {[(f.get('type'), f.get('command') or f.get('event')) for f in fr][-12:]}; {a.stderr()}")
        answered = {}
        for i, f in enumerate(fr):
            if f.get("type") == "response":
                r = f.get("request_seq")
                require(r in s.requests, lambda: f"{what}: an answer to request {r} which was never sent")
                require(r not in answered, lambda: f"{what}: request {r} ({s.requests[r][0]}) was answered twice")
                require(f.get("command") == s.requests[r][0], lambda: f"{what}: request {r} ({s.requests[r][0]}) was answered as {f.get('command')}")
                answered[r] = i
        missing = [(r, c) for r, (c, must) in s.requests.items() if must and r not in answered]
        require(not missing, lambda: f"{what}: never answered: {missing}; {a.stderr()}")
        if disconnect_seq is not None and disconnect_seq in answered:
            f = fr[answered[disconnect_seq]]
            require(f.get("success") is True, lambda: f"{what}: the disconnect request was answered with an error: {f}")
            if disconnect_first:
                require(answered[disconnect_seq] < t[0], lambda: f"{what}: the terminated event came before the answer to the disconnect request")
        if dbg:
            # Debuggee messages: in order, exactly once.
            seen = []
            for f in fr:
                if f.get("type") == "event" and f.get("event") == "output":
                    seen.append(("event", f["body"]["output"]))
                elif f.get("type") == "response" and ("resp", f["request_seq"]) in dbg.sent_set:
                    ok = f.get("success")
                    if f.get("command") == "evaluate" and ok:
                        want = next(x[2] for x in s.forwarded if x[0] == f["request_seq"]) + "!"
                        require(f["body"].get("result") == want, lambda: f"{what}: an answer of the debuggee was changed: {f}, expected {want!r}")
                    elif not ok and s.policies.get(f["request_seq"]) != "err":
                        continue  # the adapter's own answer: the debuggee's came too late
                    elif not ok and f.get("message") != "no":
                        continue
                    elif f.get("command") == "disconnect":
                        continue
                    seen.append(("resp", f["request_seq"]))
            want = [x for x in dbg.sent if x != ("resp", disconnect_seq)]
            if not complete:
                # The adapter may have answered some itself when it was ending.
                own = {f["request_seq"] for f in fr if f.get("type") == "response" and not f.get("success") and (s.policies.get(f["request_seq"]) != "err" or f.get("message") != "no")}
                want = [x for x in want if x[0] == "event" or x[1] not in own]
            require(seen == want[: len(seen)], lambda: f"{what}: the client saw the debuggee's messages as {short(seen)}, they were sent as {short(want)}")
            if complete:
                require(len(seen) == len(want), lambda: f"{what}: only {len(seen)} of the {len(want)} messages the debuggee had sent reached the client; missing {short(want[len(seen):])}; {a.stderr()}")
    if dbg:
        got = list(dbg.got)
        want = s.forwarded
        require(got and isinstance(got[0], dap.OutputEvent) or not dbg.need_config, lambda: f"{what}: the debuggee was not sent its configuration first but {got[:1]}")
        if got and isinstance(got[0], dap.OutputEvent):
            pm = [(p.local_root, p.remote_root) for p in got[0].data.path_mappings]
            require(pm == dbg.mappings, lambda: f"{what}: path mappings {pm}, expected {dbg.mappings}")
            got = got[1:]
        for i, m in enumerate(got):
            require(i < len(want), lambda: f"{what}: the debuggee got an unexpected {m}")
            seq, kind, tx = want[i]
            require(getattr(m, "seq", None) == seq and check_forwarded(kind, tx, m), lambda: f"{what}: the debuggee got {short(m)} as request number {i}, the client sent {kind} {short(tx)} with seq {seq}")
        if forwarded_all:
            require(len(got) == len(want), lambda: f"{what}: only {len(got)} of {len(want)} requests reached the debuggee")


def short(x):
    r = repr(x)
    return r if len(r) < 600 else r[:300] + " ... " + r[-300:]


def parallel(f, g, delay):
    def a():
        if delay > 0:
            time.sleep(delay)
        f()

    def b():
        if delay < 0:
            time.sleep(-delay)
        g()

    x, y = Bg(a), Bg(b)
    for t in (x, y):
        if not t.wait(60):
            raise HarnessError("a session step is stuck")
        if t.error:
            raise HarnessError(f"a session step failed: {t.error!r}")


def session(case, rec: Recorder):
    mode, ops, end, delay, last, ondisc, initfirst, (schedule, level, rd) = case
    jitter = Jitter(schedule[0], schedule[1]) if schedule[0] or schedule[1] else None
    what = f"{mode}, then {end}"
    with Scratch() as work:
        stub = make_stub(work)
        open(os.path.join(work, "hold"), "w").close()
        a = Adapter(work, jitter, level, stub, work, rd)
        s = Session(a, rec)
        dbg = Debuggee(s.policies, ondisc)
        dbg.sent_set = set()
        dbg.need_config = False
        script = None
        try:
            if initfirst:
                init(s)
            dbg.mappings = [("/l é", "/r"), ("/x", "")][: len(ops) % 3]
            pm = [dict(localRoot=x, remoteRoot=y) for x, y in dbg.mappings]
            if mode.startswith("attach"):
                dbg.queue = mpq.ServerMPQueue("uds://" if mode == "attach-uds" else "tcp://127.0.0.1:0", proto=lambda: dbg)
                started = Bg(lambda: dbg.queue.start(timeout=PROMPT))
                a.write(s.request("attach", dict(address=dbg.queue.address, connectTimeout=PROMPT, pathMappings=pm)))
            else:
                a.write(s.request("launch", dict(playbook="main.yml", connectTimeout=PROMPT, pathMappings=pm)))
                t = wait_terminal(s)
                script = run_script(s, t)
                if not wait_for(os.path.join(work, "argv"), PROMPT):
                    raise Violation(f"{what}: the terminal command started nothing")
                argv = [x.decode() for x in read_argv(work)]
                addr = argv[argv.index("--addr") + 1]
                dbg.queue = mpq.ClientMPQueue(addr, proto=lambda: dbg)
                started = Bg(lambda: dbg.queue.start(timeout=PROMPT))
                a.write(in_terminal_response(s, t))
            try:
                started.result(PROMPT + 5, "connect")
            except Exception as e:
                raise Violation(f"{what}: the debuggee could not be connected: {e!r}; {a.stderr()}")
            if not s.wait_answer(max(s.requests)):
                raise Violation(f"{what}: not answered within {PROMPT} s of the connection; {a.stderr()}")
            if not dbg.wait(lambda: dbg.got, PROMPT):
                raise Violation(f"{what}: the debuggee is not sent its configuration within {PROMPT} s; {a.stderr()}")
            require(isinstance(dbg.got[0], dap.OutputEvent), lambda: f"{what}: the debuggee was sent {dbg.got[0]} first")
            dbg.need_config = True

            def settle():
                want = len([x for x in dbg.sent])
                pending = [q for q, k, x in s.forwarded if s.policies[q] in ("ok", "err")]
                ok = a.wait(lambda fr: all(s.responses(q) for q in pending))
                require(ok, lambda: f"{what}: a request the debuggee answers is not answered within {PROMPT} s: {[q for q in pending if not s.responses(q)]}; {a.stderr()}")
                n = len([1 for x in dbg.sent if x[0] == "event"])
                ok = a.wait(lambda fr: len([1 for f in fr if f.get("event") == "output"]) >= n)
                require(ok, lambda: f"{what}: events of the debuggee do not reach the client within {PROMPT} s; {a.stderr()}")

            for o in ops:
                if o[0] == "req":
                    a.write(s.batch(o[1]), o[2])
                elif o[0] == "evt":
                    for x in o[1]:
                        dbg.event(x)
                elif o[0] == "both":
                    data = s.batch(o[1])
                    parallel(lambda: a.write(data), lambda: [dbg.event(x) for x in o[2]], o[3])
                    rec.nontrivial()
                elif o[0] == "settle":
                    settle()
                else:
                    held, dbg.held[:] = list(dbg.held), []
                    for m in held[::-1]:
                        dbg.reply(m, "ok")

            args = dict(end_ok=True)
            disc = None
            kw = {}

            def send_disconnect():
                return s.request("disconnect", dict(restart=False, terminateDebuggee=len(ops) % 2 == 0))

            outstanding = any(not s.responses(q) for q, _, _ in s.forwarded)
            if end == "disconnect":
                data = send_disconnect()
                disc = s.seq
                s.forwarded.append((disc, "disconnect", ""))
                if len(ops) % 3 == 0:
                    # Pipelined behind other requests.
                    s.forwarded.pop()
                    s.requests.pop(disc)
                    s.seq -= 1
                    data = s.batch(last)
                    data += send_disconnect()
                    disc = s.seq
                    s.forwarded.append((disc, "disconnect", ""))
                    outstanding = True
                a.write(data)
                kw = dict(disconnect_seq=disc, disconnect_first=True)
            elif end == "eof":
                a.close_in()
            elif end in ("loss", "loss-midmsg"):
                if end == "loss":
                    quiet_stop(dbg.queue)
                else:
                    with dbg.lock:
                        dbg.lost = True
                        dbg.queue._socket._sock.sendall(b"\xff\x00\x00\x00abc")
                    quiet_stop(dbg.queue)
                lost = time.monotonic()
                ok = a.wait(lambda fr: terminated(fr) and all(s.responses(q) for q in s.requests))
                require(
                    ok,
                    lambda: f"{what}: {PROMPT} s after the loss there are {len(terminated(a.frames))} terminated events and unanswered requests {[(q, c) for q, (c, _) in s.requests.items() if not s.responses(q)]}; {a.stderr()}",
                )
                kw = dict(complete=True, forwarded_all=False)
                if delay > 0:
                    a.write(s.batch(last[:1]))
                if delay >= 0:
                    a.close_in()
                else:
                    a.write(send_disconnect())
                    kw["disconnect_seq"] = s.seq
                rec.nontrivial()
            elif end in ("loss+disconnect", "loss-event+disconnect"):
                data = send_disconnect()
                disc = s.seq
                s.forwarded.append((disc, "disconnect", ""))

                def lose():
                    if "event" in end:
                        for i in range(4):
                            dbg.event(f"end {i}")
                    quiet_stop(dbg.queue)

                parallel(lambda: a.write(data), lose, delay)
                kw = dict(disconnect_seq=disc, forwarded_all=False)
                rec.nontrivial()
            elif end == "loss+eof":
                parallel(a.close_in, lambda: quiet_stop(dbg.queue), delay)
                kw = dict(forwarded_all=False)
                rec.nontrivial()
            elif end == "loss+req":
                data = s.batch(last)

                def lose():
                    for i in range(4):
                        dbg.event(f"end {i}")
                    quiet_stop(dbg.queue)

                parallel(lambda: a.write(data), lose, delay)
                ok = a.wait(lambda fr: terminated(fr))
                require(ok, lambda: f"{what}: no terminated event {PROMPT} s after the loss of the debuggee; {a.stderr()}")
                a.write(send_disconnect())
                # An adapter that has failed meanwhile cannot answer it.
                s.requests[s.seq] = ("disconnect", False)
                kw = dict(forwarded_all=False, complete=True, disconnect_seq=s.seq)
                rec.nontrivial()
            elif end in ("garbage", "garbage+loss"):
                g = GARBAGE[len(last) % 3]
                if "loss" in end:
                    parallel(lambda: a.write(g), lambda: quiet_stop(dbg.queue), delay)
                else:
                    a.write(g)
                kw = dict(forwarded_all="loss" not in end)
                rec.nontrivial()
            elif end == "stdout-closed":
                # The reader thread must not be inside a read of the descriptor.
                kill_reader(a)
                if delay >= 0:
                    dbg.event("into the void")
                    time.sleep(delay)
                a.close_in()
                kw = dict(stdout_closed=True, forwarded_all=False)
                rec.nontrivial()
            if outstanding:
                rec.nontrivial()
                rec.tag("outstanding at the end")
            rec.tag(end)
            if not a.ended(PROMPT):
                raise Violation(f"{what}: the adapter is still running {PROMPT} s after the end of the session; {a.stderr()}")
            if not dbg.wait(lambda: dbg.closed, PROMPT):
                raise Violation(f"{what}: the debuggee is not released")
            dbg.sent_set = set(dbg.sent)
            require(len(dbg.closed) == 1, f"{what}: closed {len(dbg.closed)} times")
            verdict(s, what, dbg=dbg, **kw)
        finally:
            try:
                os.unlink(os.path.join(work, "hold"))
            except OSError:
                pass
            quiet_stop(dbg.queue)
            a.close()
            if script:
                try:
                    script.wait(10)
                except subprocess.TimeoutExpired:
                    os.killpg(script.pid, signal.SIGKILL)
                    script.wait()


def kill_reader(a):
    """Ends reading the adapter's output, as a client that went away."""
    # The reader is blocked in read(); redirect its descriptor once it is idle.
    r, w = os.pipe()
    os.close(w)
    os.dup2(r, a.out_r)  # closes the read end of the adapter's output
    os.close(r)


def lifecycle(case, rec: Recorder):
    kind, cut, (schedule, level, rd) = case
    jitter = Jitter(schedule[0], schedule[1]) if schedule[0] or schedule[1] else None
    what = kind
    with Scratch() as work:
        stub = make_stub(work)
        hold = os.path.join(work, "hold")
        a = Adapter(work, jitter, level, stub, work, rd)
        s = Session(a, rec)
        script = None
        lst = None
        kw = {}
        try:
            rec.tag(kind)
            if kind != "eof" and kind != "disconnect":
                init(s)
            if kind in ("eof", "init-eof"):
                a.close_in()
            elif kind == "half-message":
                a.write(s.frame(dict(command="threads"))[:-3])
                a.close_in()
            elif kind in ("disconnect", "init-disconnect"):
                a.write(s.request("disconnect", dict()), cut)
                kw = dict(disconnect_seq=s.seq, disconnect_first=True)
                rec.nontrivial()
            elif kind == "early-request":
                a.write(s.request("threads", None), cut)
                rec.nontrivial()
            elif kind == "garbage":
                a.write(GARBAGE[len(cut) % 3])
            elif kind == "attach-fail":
                a.write(s.request("attach", dict(address="uds:" + work + "/none")), cut)
                rec.nontrivial()
            elif kind == "attach-refused":
                import socket

                p = socket.socket()
                p.bind(("127.0.0.1", 0))
                a.write(s.request("attach", dict(address="tcp://127.0.0.1:%d" % p.getsockname()[1])), cut)
                lst = p
                rec.nontrivial()
            elif kind == "attach-timeout":
                import socket

                lst = socket.socket(socket.AF_UNIX)
                lst.bind(work + "/silent")
                lst.listen()
                a.write(s.request("attach", dict(address="uds:" + work + "/silent", connectTimeout=0.3)), cut)
                rec.nontrivial()
            elif kind == "attach-invalid":
                a.write(s.request("attach", dict(processId=2**31 - 5)), cut)
                rec.nontrivial()
            elif kind == "launch-invalid":
                a.write(s.request("launch", dict()), cut)
                rec.nontrivial()
            else:
                timeout = 0.6 if kind == "launch-timeout" else 600
                if kind in ("launch-timeout", "launch-ended-late"):
                    open(hold, "w").close()
                a.write(s.request("launch", dict(playbook="p.yml", connectTimeout=timeout)), cut)
                t = wait_terminal(s)
                rec.nontrivial()
                if kind in ("launch-ended", "launch-ended-late", "launch-timeout"):
                    script = run_script(s, t)
                    if kind == "launch-ended" and len(cut) % 2:
                        script.wait()
                    a.write(in_terminal_response(s, t))
                    if kind == "launch-ended-late":
                        time.sleep(0.05)
                        os.unlink(hold)
                    # Both end the wait for the debuggee long before a
                    # forgotten timeout would.
                    ok = a.wait(lambda fr: terminated(fr) and all(s.responses(q) for q in s.requests))
                    require(ok, lambda: f"{what}: {PROMPT} s later there are {len(terminated(a.frames))} terminated events and unanswered requests {[c for q, (c, _) in s.requests.items() if not s.responses(q)]}; {a.stderr()}")
                    if kind != "launch-timeout":
                        if len(cut) > 1:
                            a.close_in()
                        else:
                            a.write(s.request("disconnect", dict()))
                            kw = dict(disconnect_seq=s.seq)
                elif kind == "launch-refused":
                    a.write(in_terminal_response(s, t, ok=False))
                elif kind == "launch-pending-disconnect":
                    a.write(s.request("disconnect", dict(terminateDebuggee=True)))
                    kw = dict(disconnect_seq=s.seq, disconnect_first=True)
                elif kind == "launch-pending-req":
                    a.write(s.request("threads", None))
                    require(s.wait_answer(s.seq), lambda: f"{what}: a request sent while the launch is pending is not answered; {a.stderr()}")
                    a.write(s.request("disconnect", dict(terminateDebuggee=True)))
                    s.requests[s.seq] = ("disconnect", False)
                elif kind == "launch-pending-eof":
                    a.close_in()
            if not a.ended(PROMPT):
                raise Violation(f"{what}: the adapter is still running {PROMPT} s later; {a.stderr()}")
            verdict(s, what, **kw)
        finally:
            if os.path.exists(hold):
                os.unlink(hold)
            if lst:
                lst.close()
            a.close()
            if script:
                try:
                    script.wait(10)
                except subprocess.TimeoutExpired:
                    os.killpg(script.pid, signal.SIGKILL)
                    script.wait()


TESTS = [
    Test("session", lambda: connected, session, quick=1600, thorough=60000, case_timeout=240, shrink_s=40, confirm=3),
    Test("lifecycle", lambda: light, lifecycle, quick=600, thorough=12000, case_timeout=240, shrink_s=40, confirm=3),
]
TESTS[0].share = 2.0
TESTS[1].share = 1.0
