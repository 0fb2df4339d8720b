"""Real ansible-playbook runs, plain and under the debugger (C13, C15 to C20, C22)."""
from __future__ import annotations

import json
import os
import pathlib
import select
import shutil
import signal
import subprocess
import tempfile
import threading
import time

from vf import HarnessError, PYTHON, REPO, VERIF, Violation, base_env

from ansibug import _debuggee as dbgm
from ansibug import _mp_queue as mpq
from ansibug import dap
from chan import Bg, Rec, quiet_stop

HANG = 40  # s without anything happening before a run counts as hanging
ANS = VERIF / "lib" / "ans"
_zygotes = {}


def zygote_env(debug):
    env = base_env()
    env.update(
        PYTHONPATH=str(REPO / "src"),
        ANSIBLE_STRATEGY_PLUGINS=str(ANS / "strategy"),
        ANSIBLE_CALLBACK_PLUGINS=str(ANS / "callback"),
        ANSIBLE_ACTION_PLUGINS=str(ANS / "action"),
        ANSIBLE_LOCALHOST_WARNING="false",
        ANSIBLE_INVENTORY_UNPARSED_WARNING="false",
        ANSIBLE_DEPRECATION_WARNINGS="false",
        ANSIBLE_RETRY_FILES_ENABLED="false",
        ANSIBLE_NOCOLOR="1",
        ANSIBLE_PYTHON_INTERPRETER=PYTHON,
        ANSIBLE_CONFIG=str(ANS / "ansible.cfg"),
        COLUMNS="80",
    )
    if debug:
        env.update(ANSIBLE_STRATEGY="ansibug.dap.debug", ANSIBLE_CALLBACKS_ENABLED="ansibug.dap.debug,vrec", ANSIBLE_COLLECTIONS_PATH=str(REPO / "src" / "ansibug"))
    else:
        env.update(ANSIBLE_STRATEGY="vrec", ANSIBLE_CALLBACKS_ENABLED="vrec", ANSIBLE_COLLECTIONS_PATH="/nonexistent")
    return env


class Zygote:
    def __init__(self, debug):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        home = os.environ.get("VF_WORK") or tempfile.gettempdir()
        self.err = open(os.path.join(home, "zygote-%d.err" % debug), "w+")
        self.proc = subprocess.Popen(
            [PYTHON, str(VERIF / "lib" / "zygote.py"), str(r1), str(w2)],
            pass_fds=(r1, w2), env=zygote_env(debug), stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, cwd=home,
        )
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.buf = b""

    def send(self, job):
        os.write(self.w, (json.dumps(job) + "\n").encode())

    def read(self, timeout):
        """The next reply, or None after `timeout` seconds."""
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if not select.select([self.r], [], [], max(0, left))[0]:
                return None
            data = os.read(self.r, 65536)
            if not data:
                self.err.seek(0)
                raise HarnessError("the run server has ended: " + self.err.read()[-2000:])
            self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def close(self):
        for fd in (self.w, self.r):
            os.close(fd)
        try:
            self.proc.wait(5)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
        self.err.close()


def zygote(debug):
    if debug not in _zygotes:
        _zygotes[debug] = Zygote(debug)
    return _zygotes[debug]


def teardown():
    for z in list(_zygotes.values()):
        z.close()
    _zygotes.clear()


class Project:
    """The files of one case."""

    def __init__(self, files):
        base = os.environ.get("VF_WORK") or None
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="p", dir=base))
        for name, text in files.items():
            p = pathlib.Path(self.dir, name)
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(text)
        self.count = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def rel(self, path):
        return path[len(self.dir) + 1 :] if path and path.startswith(self.dir + "/") else path


class Run:
    """One ansible-playbook process."""

    def __init__(self, project, args, debug, env=None):
        self.project = project
        project.count += 1
        self.dir = os.path.join(project.dir, ".run%d" % project.count)
        os.makedirs(self.dir + "/tmp")
        self.out = self.dir + "/out"
        self.zygote = zygote(debug)
        e = dict(
            HOME=self.dir, TMPDIR=self.dir + "/tmp", VREC_TRACE=self.dir + "/trace", VREC_EVENTS=self.dir + "/events", VREC_EFFECTS=self.dir + "/effects",
            ANSIBLE_HOME=self.dir + "/home", VREC_PLAY="0", **(env or {}),
        )
        self.code = None
        self.zygote.send({"env": e, "cwd": project.dir, "out": self.out, "args": args})
        self.pid = self.zygote.read(HANG)["pid"]

    def poll(self, timeout=0):
        if self.code is None:
            m = self.zygote.read(timeout)
            if m:
                self.code = m["status"]
        return self.code is not None

    def kill(self):
        if self.code is None:
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            if not self.poll(20):
                raise HarnessError("a killed run does not end")
        else:
            # Whatever it left behind.
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass

    def text(self):
        try:
            return pathlib.Path(self.out).read_text(errors="replace")
        except FileNotFoundError:
            return ""

    def lines(self, name):
        try:
            data = pathlib.Path(self.dir, name).read_text()
        except FileNotFoundError:
            return []
        return [json.loads(x) for x in data.splitlines()]


class Plain:
    """The reference: what the plain linear strategy does with the playbook."""

    def __init__(self, project, args, conds=(), env=None):
        e = dict(env or {})
        if conds:
            e["VREC_CONDS"] = json.dumps(list(conds))
        run = Run(project, args, False, e)
        try:
            if not run.poll(120):
                raise HarnessError("the plain run does not end: " + run.text()[-1500:])
        finally:
            run.kill()
        self.code, self.text = run.code, run.text()
        self.trace, self.events, self.effects = run.lines("trace"), run.lines("events"), run.lines("effects")


class Debug:
    """A run under the debugger with this process as the debug adapter."""

    def __init__(self, project, args, mode="listen", env=None, wait=True, connect=True, extra_wait=0):
        self.project, self.mode = project, mode
        self.rec = Rec()
        self.seq = 0
        self.queue = None
        self.closed = False
        sock = tempfile.mktemp(prefix="s", dir=project.dir)
        addr = f"uds://{sock}"
        self.addr = addr
        e = dict(env or {}, ANSIBUG_MODE=mode, ANSIBUG_DEBUG_ADDR=addr)
        if not wait:
            e["ANSIBUG_NO_WAIT_FOR_CONFIG_DONE"] = "true"
        self.taken = 0  # messages looked at
        bg = None
        if mode == "connect":
            self.queue = mpq.ServerMPQueue(addr, proto=lambda: self.rec)
            bg = Bg(lambda: self.queue.start(timeout=HANG))
        try:
            self.run = Run(project, args, True, e)
        except BaseException:
            quiet_stop(self.queue)
            raise
        try:
            if mode == "connect":
                while not bg.wait(0.01):
                    if self.run.poll():
                        quiet_stop(self.queue)
                        return
                bg.result(1, "the debuggee connecting")
            elif connect:
                self.connect()
        except BaseException:
            self.close()
            raise

    @property
    def connected(self):
        return self.queue is not None

    def connect(self):
        path = self.addr[len("uds://") :]
        end = time.monotonic() + HANG
        while not os.path.exists(path):
            if self.run.poll(0.01):
                return False
            if time.monotonic() > end:
                raise Violation("the debugger has not listened on its address after %d s: %s" % (HANG, self.run.text()[-500:]))
        q = mpq.ClientMPQueue(self.addr, proto=lambda: self.rec)
        while True:
            try:
                q.start(timeout=HANG)
                break
            except (FileNotFoundError, ConnectionRefusedError):
                # Bound but not listening yet, or gone already.
                if self.run.poll(0.01):
                    return False
                if time.monotonic() > end:
                    raise Violation("the debugger does not accept a connection on its address")
                q = mpq.ClientMPQueue(self.addr, proto=lambda: self.rec)
        self.queue = q
        return True

    # -- messages ---------------------------------------------------------
    def post(self, req):
        self.seq += 1
        req.seq = self.seq
        self.queue.send(req)
        return self.seq

    def ask(self, req, timeout=HANG):
        """The answer to the request; None when the run ended without one."""
        seq = self.post(req)

        def find():
            return [m for m in self.rec.got if isinstance(m, dap.Response) and m.request_seq == seq]

        end = time.monotonic() + timeout
        while True:
            if self.rec.wait(lambda: find() or self.rec.closed, 0.5):
                r = find()
                return r[0] if r else None
            if time.monotonic() > end:
                raise Violation(f"no answer to {req!r} after {timeout} s: {self.run.text()[-500:]}")

    def configure(self, mappings=(), breakpoints=(), filters=()):
        """Goes through the start of a session: breakpoints is [(path, [line | (line, condition)])]."""
        conf = dbgm.DebugConfiguration(path_mappings=[dbgm.PathMapping(*m) for m in mappings])
        self.queue.send(dap.OutputEvent(category=dbgm.DebugConfiguration.OUTPUT_CATEGORY, output="", data=conf))
        if not self.rec.wait(lambda: self.rec.closed or any(isinstance(m, dap.InitializedEvent) for m in self.rec.got), HANG):
            raise Violation("no initialized event")
        answers = [self.set_breakpoints(path, lines) for path, lines in breakpoints]
        self.set_filters(filters)
        return answers

    def set_breakpoints(self, path, lines, modified=False):
        bps = []
        for x in lines:
            line, cond = x if isinstance(x, (tuple, list)) else (x, None)
            bps.append(dap.SourceBreakpoint(line=line, condition=cond))
        return self.ask(dap.SetBreakpointsRequest(source=dap.Source(path=path), lines=[b.line for b in bps], breakpoints=bps, source_modified=modified))

    def set_filters(self, filters):
        return self.ask(dap.SetExceptionBreakpointsRequest(filters=list(filters), filter_options=[], exception_options=[]))

    def done(self):
        return self.ask(dap.ConfigurationDoneRequest())

    def next_stop(self, timeout=HANG):
        """The next stopped event, or None when the run has ended."""
        end = time.monotonic() + timeout
        seen = self.taken

        def look():
            if len(self.rec.got) > self.taken or self.rec.closed:
                return True

        while True:
            while self.taken < len(self.rec.got):
                m = self.rec.got[self.taken]
                self.taken += 1
                if isinstance(m, dap.StoppedEvent):
                    return m
            if self.rec.closed and self.taken >= len(self.rec.got):
                return None
            if self.taken != seen:
                seen, end = self.taken, time.monotonic() + timeout
            if not self.rec.wait(look, 0.5) and time.monotonic() > end:
                raise Violation(f"the run neither stops nor ends ({timeout} s): {self.run.text()[-500:]}")

    def finish(self, timeout=HANG):
        """Waits for the process to end."""
        if not self.run.poll(timeout):
            raise Violation(f"the ansible-playbook process has not ended {timeout} s after it should have: {self.run.text()[-500:]}")
        return self.run.code

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            quiet_stop(self.queue)
        finally:
            run = getattr(self, "run", None)
            if run:
                run.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
