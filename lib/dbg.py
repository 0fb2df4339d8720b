"""A fresh debugger with a connected client, inside one process (C11 to C14)."""
from __future__ import annotations

import collections
import os
import sys
import threading
import time

from vf import HarnessError, REPO, Violation

from ansibug import _debuggee as dbgm
from ansibug import _mp_queue as mpq
from ansibug import dap
from chan import Bg, Rec, Scratch, quiet_stop

WAIT = 30
SRC = os.path.realpath(str(REPO / "src")) + "/"


def fresh():
    """A debugger of its own (the class is a singleton)."""
    d = dbgm.AnsibleDebugger.__new__(dbgm.AnsibleDebugger)
    d.__init__()
    return d


def numbered(m, seq):
    m.seq = seq
    return m


class Link:
    """A debugger that listens, and the client connected to it."""

    def __init__(self, config=None, connect=True):
        self.scratch = Scratch()
        path = self.scratch.__enter__()
        self.debugger = fresh()
        self.rec = Rec()
        self.seq = 100
        self.client = None
        try:
            addr = self.debugger.start(f"uds://{path}/s", "listen")
            self.client = mpq.ClientMPQueue(addr, proto=lambda: self.rec)
            Bg(lambda: self.client.start(timeout=WAIT)).result(WAIT + 5, "connecting to the debugger")
            if config is not None:
                self.configure(config)
        except BaseException:
            self.close()
            raise

    def configure(self, mappings):
        conf = dbgm.DebugConfiguration(path_mappings=[dbgm.PathMapping(*m) for m in mappings])
        self.client.send(dap.OutputEvent(category=dbgm.DebugConfiguration.OUTPUT_CATEGORY, output="", data=conf))
        self.wait(lambda: any(isinstance(m, dap.InitializedEvent) for m in self.rec.got), "the initialized event")

    def wait(self, pred, what, timeout=WAIT):
        if not self.rec.wait(pred, timeout):
            raise Violation(f"{what}: nothing after {timeout} s; received {[type(m).__name__ for m in self.rec.got[-6:]]}")

    def post(self, req):
        self.seq += 1
        self.client.send(numbered(req, self.seq))
        return self.seq

    def answer(self, seq, what="the answer"):
        def find():
            return [m for m in self.rec.got if isinstance(m, dap.Response) and m.request_seq == seq]

        self.wait(find, what)
        return find()[0]

    def ask(self, req):
        return self.answer(self.post(req), f"the answer to {req!r}")

    def barrier(self):
        """Everything the debugger has queued until now has been received."""
        self.ask(dap.SetExceptionBreakpointsRequest(filters=[], filter_options=[], exception_options=[]))

    def close(self):
        quiet_stop(self.client)
        b = Bg(self.debugger.shutdown)
        b.wait(20)
        self.scratch.__exit__(None, None, None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Pause:
    """Stops a function at its n-th executed line of the code under test.

    `before(n)` lines run, then the function waits until released (or until
    `limit` seconds have passed, should the rest of the case wait for it)."""

    def __init__(self, n, limit=0.05):
        self.n, self.count, self.limit = n, 0, limit
        self.reached = threading.Event()
        self.go = threading.Event()

    def _trace(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(SRC) else None

    def _local(self, frame, event, arg):
        if event == "line":
            if self.count == self.n:
                self.reached.set()
                self.go.wait(10)
            self.count += 1
        return self._local

    def run(self, fn):
        def body():
            sys.settrace(self._trace)
            try:
                return fn()
            finally:
                sys.settrace(None)
                self.reached.set()

        return Bg(body)


def interleave(n, first, second):
    """Runs `first` up to its n-th line, then `second` (in another thread) as
    far as it gets, then the rest of both.  Returns whether `second` ran in
    the middle of `first`."""
    p = Pause(n)
    a = p.run(first)
    if not p.reached.wait(WAIT):
        raise Violation("an operation of the debugger does not end")
    inside = not a.done.is_set()
    b = Bg(second)
    b.wait(p.limit)
    p.go.set()
    a.result(WAIT, "an operation of the debugger")
    b.result(WAIT, "an operation of the debugger")
    return inside and a.ended_at > 0
