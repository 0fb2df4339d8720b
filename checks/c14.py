"""C14: the debuggee answers each request exactly once, errors included."""
from __future__ import annotations

import os
import re
import pathlib
import threading
import time

from vf import HarnessError, Recorder, Test, Violation, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import dap
import state
from chan import Bg, Scratch
from dbg import Link, WAIT, interleave, fresh

PROPERTY = "C14"
TECHNIQUE = "property-based testing of generated request histories against the real debug state over the real connection: an exactly-once and in-order monitor, a model of which references are valid, and a metamorphic relation (the session without its failing requests answers the same)"
LEVEL_NOTE = "Random search. The plays, hosts and tasks are real Ansible objects; the harness plays the part of Ansible's task queue."
RULE = (
    "A case is a session of two plays on one to three hosts that stops at tasks, with a batch of generated requests at each stop, before the configuration, between the plays and after them. "
    "Non-trivial: at least one request that must be answered with an error."
)
ASSUMPTIONS = ["A request that needs a play and arrives between two plays is answered in the next one, or with an error.", "Requests are the ones of the protocol, with values of the right types."]
BUDGET_S = {"quick": 60, "thorough": 900}

small = st.integers(0, 6)
exprs = st.sampled_from(["1", "v1", "'x'", "[1, 2]", "{'a': 1}", "undefined_thing", "1 /", "v1 + 1", "lookup('nope')", "{{ x", "", "'%s'", "1/0", "vars", "none"])
names = st.sampled_from(["v1", "d", "new", "0", "1", "7", "x", "-1", "a b", ""])
ref = st.tuples(st.sampled_from(["valid", "valid", "valid", "bad", "old"]), small)
request = st.one_of(
    st.tuples(st.just("threads")),
    st.tuples(st.just("stack"), ref),
    st.tuples(st.just("scopes"), ref),
    st.tuples(st.just("scopes"), ref),
    st.tuples(st.just("variables"), ref),
    st.tuples(st.just("variables"), ref),
    st.tuples(st.just("setvar"), ref, names, exprs),
    st.tuples(st.just("eval"), ref, exprs, st.sampled_from(["watch", "repl", "clipboard", "hover", "variables", ""])),
    st.tuples(st.just("repl"), ref, st.sampled_from(["!so a 1", "!sh zz 'q'", "!ro a", "!t v1", "!", "!nope", "!so", "!so a 1 /", "!sh v1 undefined_thing", "!ro", "!t", "!so -h", "!so 'a"])),
    st.tuples(st.just("step"), st.sampled_from(["next", "in", "out", "cont"]), st.just(("bad", 0)), st.booleans()),
    st.tuples(st.just("setbps"), st.integers(0, 2), st.lists(st.integers(1, 30), max_size=3)),
    st.tuples(st.just("exc"), st.lists(st.sampled_from(["on_error", "on_skipped", "nope"]), max_size=2)),
    st.tuples(st.just("confdone")),
    st.tuples(st.just("unsupported"), st.integers(0, 4)),
)
batch = st.lists(request, max_size=4)
sessions = st.tuples(
    st.integers(1, 3),  # hosts
    st.booleans(),  # wait for the configuration
    batch,  # before the configuration
    st.lists(st.tuples(batch, st.sampled_from(["cont", "contall", "next", "in", "out"])), min_size=1, max_size=4),  # the stops of the first play
    batch,  # between the plays
    st.lists(st.tuples(batch, st.sampled_from(["cont", "contall", "next", "in", "out"])), max_size=2),
    batch,  # after the last play
    st.sampled_from(["shutdown", "shutdown", "disconnect", "terminate"]),
)

BOOK = """- hosts: all
  gather_facts: false
  vars: {v1: 5, d: {a: 1, l: [1, 2, {x: y}]}, l2: [a, [b]]}
  tasks:
  - name: one
    ping: {data: "{{ v1 }}"}
  - name: two
    debug: {msg: "x {{ d }}"}
  - name: three
    set_fact: {a: 1}
- hosts: all
  gather_facts: false
  tasks:
  - name: four
    ping:
  - name: five
    ping:
"""
ANSWER = dict(
    threads=dap.ThreadsResponse, stack=dap.StackTraceResponse, scopes=dap.ScopesResponse, variables=dap.VariablesResponse, setvar=dap.SetVariableResponse, eval=dap.EvaluateResponse, repl=dap.EvaluateResponse,
    setbps=dap.SetBreakpointsResponse, exc=dap.SetExceptionBreakpointsResponse, confdone=dap.ConfigurationDoneResponse, next=dap.NextResponse, cont=dap.ContinueResponse, contall=dap.ContinueResponse,
)
ANSWER["in"] = dap.StepInResponse
ANSWER["out"] = dap.StepOutResponse
NEEDS_PLAY = {"threads", "stack", "scopes", "variables", "setvar", "eval", "repl", "step"}


def unsupported(i):
    return [
        lambda: dap.InitializeRequest(adapter_id="x"),
        lambda: dap.LaunchRequest(arguments={}),
        lambda: dap.AttachRequest(arguments={}),
        lambda: dap.CancelRequest(),
        lambda: dap.RunInTerminalRequest(kind="integrated", cwd="", args=[], title=""),
    ][i % 5]()


class Session:
    """One run of a session; `skip` leaves the requests out that must fail."""

    def __init__(self, case, skip, rec):
        self.case, self.skip, self.rec = case, skip, rec
        self.log = []  # (request, answer) of everything that was answered with success
        self.frames, self.old_frames, self.refs, self.old_refs = [], [], [], []
        self.values = {}  # reference -> children by name, as far as shown
        self.thread = None
        self.task_refs, self.task_frames, self.at = [], [], None
        self.sent = []  # (seq, label, must)

    # -- the play ---------------------------------------------------------
    def drive(self, world, mod, register):
        d = self.link.debugger
        plays = world.playbook.get_plays()
        try:
            if self.case[1]:
                d.wait_for_config_done(timeout=None)
            for n in (0, 1):
                ds = mod.AnsibleDebugState(d, world.loader, world.vm)
                with d.with_strategy(ds):
                    if n == 1:
                        # A play takes its time, a request that waited for it is answered.
                        self.answered.wait(WAIT * 2)
                    for play, task in [x for x in world.tasks() if x[0] is plays[n]]:
                        for h in world.hosts:
                            ds.start_task(h, task, world.vars(play, h, task))
                        for h in world.hosts:
                            ds.end_task(mod.TaskResult(h, task, {"changed": False}, task_fields={}))
                    ds.exit_threads()
                if n == 0:
                    self.gap.set()
                    self.resume.wait(WAIT * 2)
            self.gap2.set()
            self.resume2.wait(WAIT * 2)
        except mod.EndStrategy:
            self.ended = True
            self.gap.set()
            self.gap2.set()
        d.shutdown()

    def stops(self):
        return [m for m in self.link.rec.got if isinstance(m, dap.StoppedEvent)]

    # -- requests ---------------------------------------------------------
    def pick(self, what, valid, old):
        """(reference, is it valid)"""
        kind, i = what
        if kind == "valid" and valid:
            return valid[i % len(valid)], True
        if kind == "old" and old:
            return old[i % len(old)], False
        return [99999, 0, -1, 77777, 123456, 5000, 88888][i], False

    def build(self, r, in_play):
        """(label, request, must succeed (True / False / None))"""
        k = r[0]
        if k == "threads":
            return k, dap.ThreadsRequest(), in_play
        if k == "stack":
            t, ok = self.pick(r[1], [self.thread] if self.thread else [], [])
            return k, dap.StackTraceRequest(thread_id=t, start_frame=0, levels=0), in_play and ok
        if k == "scopes":
            f, ok = self.pick(r[1], self.frames, self.old_frames)
            return k, dap.ScopesRequest(frame_id=f), in_play and ok
        if k == "variables":
            v, ok = self.pick(r[1], self.refs, self.old_refs)
            return k, dap.VariablesRequest(variables_reference=v), in_play and ok
        if k == "setvar":
            v, ok = self.pick(r[1], self.refs, self.old_refs)
            good = r[3] in ("1", "'x'", "[1, 2]", "{'a': 1}", "none", "'%s'")
            bad = r[3] in ("undefined_thing", "1 /", "lookup('nope')", "{{ x", "1/0")
            must = False if not (in_play and ok) or bad else None
            if must is None and good and self.kinds.get(v) == "dict":
                must = True
            if must is None and self.kinds.get(v) == "list" and (r[2] in ("v1", "d", "new", "x", "a b", "", "7")):
                must = False
            if v in self.tuples:
                must = None
            return k, dap.SetVariableRequest(variables_reference=v, name=r[2], value=r[3]), must
        if k in ("eval", "repl"):
            f, ok = self.pick(r[1], self.frames, self.old_frames)
            ctx = r[3] if k == "eval" else "repl"
            must = in_play and ok
            if not ok and (f == 0 or ctx in ("hover", "")):
                must = None if in_play else False
            if k == "repl" and must:
                bad = r[2] in ("!so a 1 /", "!sh v1 undefined_thing")
                must = False if bad else True if r[2] in ("!t v1", "!nope", "!so -h", "!", "!so", "!ro", "!t") else None
            return k, dap.EvaluateRequest(expression=r[2], frame_id=f, context=ctx), must
        if k == "step":
            t, _ = self.pick(("bad", 0), [], [])
            if r[1] == "cont":
                return "cont", dap.ContinueRequest(thread_id=t, single_thread=True), False
            cls = {"next": dap.NextRequest, "in": dap.StepInRequest, "out": dap.StepOutRequest}[r[1]]
            return r[1], cls(thread_id=t), False
        if k == "setbps":
            path = [self.file, "/nowhere/x.yml", "/nowhere/y.yml"][r[1]] if r[1] else "/nowhere/z.yml"
            return k, dap.SetBreakpointsRequest(source=dap.Source(name="x", path=path), breakpoints=[dap.SourceBreakpoint(line=x) for x in r[2]], lines=[], source_modified=False), True
        if k == "exc":
            return k, dap.SetExceptionBreakpointsRequest(filters=[x for x in r[1] if x == "nope"], filter_options=[], exception_options=[]), True
        if k == "confdone":
            return k, dap.ConfigurationDoneRequest(), True
        return "unsupported", unsupported(r[1]), False

    def check_answer(self, label, req, resp, must):
        what = f"{req!r} (references: thread {self.thread}, frames {self.frames}, variables {self.refs})"
        require(resp.command == req.command, lambda: f"{what} is answered with the command {resp.command!r}")
        if resp.success:
            require(must is not False, lambda: f"{what} must fail, answered {resp!r}")
            require(label in ANSWER and isinstance(resp, ANSWER[label]), lambda: f"{what} is answered with {resp!r}")
            return True
        require(isinstance(resp, dap.ErrorResponse) and resp.message, lambda: f"{what} is answered with {resp!r}")
        require(must is not True, lambda: f"{what} must succeed, answered {str(resp.message)[-600:]}")
        return False

    def learn(self, label, req, resp):
        if label == "scopes":
            for s in resp.scopes:
                self.refs.append(s.variables_reference)
                self.task_refs.append(s.variables_reference)
                self.kinds[s.variables_reference] = "dict"
        elif label == "variables":
            for v in resp.variables:
                if v.variables_reference:
                    self.refs.append(v.variables_reference)
                    self.task_refs.append(v.variables_reference)
                    # Only plain data is certain to take new values.
                    if v.name in ("d", "l", "l2"):
                        self.kinds[v.variables_reference] = v.type

    def batch(self, reqs, in_play, phase):
        """Sends the requests one after another without waiting, then checks the answers."""
        pend = []
        for r in reqs:
            label, req, must = self.build(r, in_play)
            if must is False:
                self.rec.nontrivial()
                if self.skip:
                    continue
            if must is None and r[0] in ("setvar", "repl"):
                # Whether it succeeds is not known, so neither what it changes.
                continue
            pend.append((self.link.post(req), label, req, must))
            if label in ("scopes", "variables"):
                # Later requests of the batch may refer to its answer.
                self.finish(pend[-1:], phase)
                pend.pop()
        self.finish(pend, phase)

    def finish(self, pend, phase):
        for seq, label, req, must in pend:
            resp = self.link.answer(seq, f"the answer to {req!r} {phase}")
            if self.check_answer(label, req, resp, must):
                self.learn(label, req, resp)
                self.log.append((label, resp))
            self.sent.append(seq)

    # -- the session ------------------------------------------------------
    def run(self, work):
        nhosts, wait, pre, stops1, between, stops2, after, end = self.case
        mod = state.strategy_module()
        from ansible_collections.ansibug.dap.plugins.plugin_utils._breakpoints import register_play_breakpoints

        self.file = os.path.join(work, "main.yml")
        world = state.World(self.file, hosts=[f"h{i}" for i in range(nhosts)])
        self.gap, self.gap2, self.resume, self.resume2, self.answered = (threading.Event() for _ in range(5))
        self.kinds, self.tuples, self.ended = {}, set(), False
        with Link() as link:
            self.link = link
            register_play_breakpoints(link.debugger, world.playbook.get_plays())
            lines = [5, 7, 9, 14, 16]
            play_needed = None

            def all_lines():
                r = link.ask(dap.SetBreakpointsRequest(source=dap.Source(name="m", path=self.file), breakpoints=[dap.SourceBreakpoint(line=x) for x in lines], lines=[], source_modified=False))
                require(all(b.verified for b in r.breakpoints), lambda: f"harness: {r}")

            main = None
            try:
                if wait:
                    main = Bg(lambda: self.drive(world, mod, None))
                    self.batch([r for r in pre if r[0] != "confdone"], False, "while waiting for the configuration")
                all_lines()
                if wait:
                    link.ask(dap.ConfigurationDoneRequest())
                else:
                    main = Bg(lambda: self.drive(world, mod, None))
                nstop = 0
                for n, stops in ((0, stops1), (1, stops2)):
                    for reqs, how in stops:
                        done = self.gap if n == 0 else self.gap2
                        link.wait(lambda: len(self.stops()) > nstop or done.is_set() or main.done.is_set(), f"the stop of a task of play {n}")
                        if done.is_set() or main.done.is_set():
                            break
                        nstop += 1
                        self.thread = self.stops()[-1].thread_id
                        r = link.ask(dap.StackTraceRequest(thread_id=self.thread, start_frame=0, levels=0))
                        require(isinstance(r, dap.StackTraceResponse), lambda: f"no stack trace at a stop: {r!r}")
                        at = (n, r.stack_frames[0].line)
                        if at != self.at:
                            # All hosts are done with the task of the last stops.
                            self.old_refs += self.task_refs
                            self.old_frames += self.task_frames
                            self.task_refs, self.task_frames, self.at = [], [], at
                        self.frames = [f.id for f in r.stack_frames]
                        self.task_frames += self.frames
                        self.refs = []
                        r0 = r
                        before = len(self.stops())
                        self.batch(reqs, True, "at a stop")
                        link.barrier()
                        require(len(self.stops()) == before and not main.done.is_set(), "a request that only looks has resumed or stopped the play")
                        r = link.ask(dap.StackTraceRequest(thread_id=self.thread, start_frame=0, levels=0))
                        require(isinstance(r, dap.StackTraceResponse) and r.stack_frames == r0.stack_frames, lambda: f"the stack of the stopped thread became {r!r}")
                        all_lines()
                        require(len(self.stops()) == before, "setting breakpoints has resumed or stopped the play")
                        # Later frames of other hosts' running tasks stay as they are.
                        tid = self.thread
                        self.thread = None
                        req = {
                            "cont": lambda: dap.ContinueRequest(thread_id=tid, single_thread=True), "contall": lambda: dap.ContinueRequest(thread_id=tid, single_thread=False), "next": lambda: dap.NextRequest(thread_id=tid),
                            "in": lambda: dap.StepInRequest(thread_id=tid), "out": lambda: dap.StepOutRequest(thread_id=tid),
                        }[how]()
                        resp = link.ask(req)
                        require(isinstance(resp, ANSWER[how]) and resp.success, lambda: f"{req!r} is answered {resp!r}")
                    # Let the rest of the play run.
                    r = link.ask(dap.SetBreakpointsRequest(source=dap.Source(name="m", path=self.file), breakpoints=[], lines=[], source_modified=False))
                    done = self.gap if n == 0 else self.gap2
                    until = time.monotonic() + WAIT
                    while not done.wait(0.001):
                        got = self.stops()
                        if len(got) > nstop:
                            nstop = len(got)
                            link.ask(dap.ContinueRequest(thread_id=got[-1].thread_id, single_thread=False))
                        require(time.monotonic() < until, "the play does not go on without breakpoints")
                        if main.done.is_set():
                            break
                    self.old_refs += self.task_refs
                    self.old_frames += self.task_frames
                    self.refs, self.frames, self.task_refs, self.task_frames, self.at = [], [], [], [], None
                    if n == 0:
                        # Between the plays.
                        reqs = [r for r in between if r[0] not in NEEDS_PLAY]
                        self.batch(reqs, False, "between the plays")
                        pend = []
                        link.ask(dap.SetBreakpointsRequest(source=dap.Source(name="m", path=self.file), breakpoints=[dap.SourceBreakpoint(line=x) for x in lines] if stops2 else [], lines=[], source_modified=False))
                        if not self.skip:
                            for r in between:
                                if r[0] in NEEDS_PLAY and r[0] != "threads":
                                    label, req, must = self.build(r, False)
                                    pend.append((link.post(req), label, req, None))
                        self.resume.set()
                        for seq, label, req, must in pend:
                            # These were for references of the first play.
                            self.check_answer(label, req, link.answer(seq, f"the answer to {req!r}, sent between the plays,"), None)
                        self.answered.set()
                # After the last play.
                reqs = [r for r in after if r[0] not in NEEDS_PLAY]
                self.batch(reqs, False, "after the last play")
                if end == "shutdown":
                    if any(r[0] in NEEDS_PLAY for r in after):
                        # It cannot be answered any more, and must not keep the process.
                        link.post(dap.ThreadsRequest())
                        self.rec.tag("request after the last play")
                elif end == "disconnect":
                    link.post(dap.DisconnectRequest())
                else:
                    s = link.post(dap.TerminateRequest())
                    require(isinstance(link.answer(s), dap.TerminateResponse), "terminate is not answered")
                self.resume2.set()
                main.result(WAIT, "the end of the process")
                link.wait(lambda: link.rec.closed, "the end of the connection")
            finally:
                self.answered.set()
                self.resume.set()
                self.resume2.set()
                if main and not main.done.is_set():
                    link.client.stop()
            got = [m.request_seq for m in link.rec.got if isinstance(m, dap.Response)]
            require(len(got) == len(set(got)), "a request was answered twice")
            require(got == sorted(got), "the answers are not in the order of the requests")


def normal(log):
    """The answers with the references renamed in order of appearance."""
    out, ids = [], {}

    def text(x):
        return re.sub(r"__omit_place_holder__[0-9a-f]+|0x[0-9a-f]+", "?", x)

    def ref(x):
        return ids.setdefault(x, len(ids)) if x else 0

    for label, resp in log:
        if label == "scopes":
            out.append([(s.name, ref(s.variables_reference), s.named_variables, s.indexed_variables) for s in resp.scopes])
        elif label == "variables":
            out.append([(v.name, text(v.value), v.type, ref(v.variables_reference), v.named_variables, v.indexed_variables) for v in resp.variables])
        elif label == "setvar":
            out.append((text(resp.value), resp.type, ref(resp.variables_reference), resp.named_variables, resp.indexed_variables))
        elif label in ("eval", "repl"):
            out.append((text(resp.result), resp.type))
        elif label == "stack":
            out.append([(f.name, f.line) for f in resp.stack_frames])
        elif label == "threads":
            out.append([(t.id, t.name) for t in resp.threads])
        else:
            out.append(label)
    return out


def differ(p, q):
    if isinstance(p, list) and isinstance(q, list):
        return [(x, y) for x, y in zip(p, q) if x != y][:2] or (len(p), len(q))
    return str(p)[:600], str(q)[:600]


def session(case, rec: Recorder):
    with Scratch() as work:
        work = os.path.realpath(work)
        pathlib.Path(work, "main.yml").write_text(BOOK)
        a = Session(case, False, rec)
        a.run(work)
        b = Session(case, True, rec)
        b.run(work)
        x, y = normal(a.log), normal(b.log)
        for i, (p, q) in enumerate(zip(x, y)):
            require(p == q, lambda: f"answer {i} ({a.log[i][0]}) is not the one without the failing requests: {differ(p, q)}")
        require(len(x) == len(y), f"{len(x)} answers, without the failing requests {len(y)}")


# -- requests while the threads change ---------------------------------------

racing = st.tuples(st.integers(1, 3), st.integers(0, 3), st.sampled_from(["threads", "cont", "contall", "disconnect", "stack"]), st.sampled_from(["add", "add", "exit"]), st.booleans(), st.one_of(st.integers(0, 12), st.integers(0, 40)))


def race(case, rec: Recorder):
    nhosts, started, kind, change, req_first, at = case
    mod = state.strategy_module()
    d = fresh()
    got = []
    d.queue_msg = got.append
    with Scratch() as work:
        work = os.path.realpath(work)
        path = os.path.join(work, "main.yml")
        pathlib.Path(path).write_text(BOOK)
        world = _worlds.get(nhosts) or _worlds.setdefault(nhosts, state.World(path, hosts=[f"h{i}" for i in range(nhosts + 1)]))
    ds = mod.AnsibleDebugState(d, world.loader, world.vm)
    play, task = world.tasks()[0]
    hosts = world.hosts[: min(started, nhosts)]
    with d.with_strategy(ds):
        for h in hosts:
            ds.start_task(h, task, {})
        before = [m.thread_id for m in got]
        got.clear()
        req = {
            "threads": dap.ThreadsRequest, "cont": lambda: dap.ContinueRequest(thread_id=1, single_thread=True), "contall": lambda: dap.ContinueRequest(thread_id=1, single_thread=False),
            "disconnect": lambda: dap.DisconnectRequest(), "stack": lambda: dap.StackTraceRequest(thread_id=before[0] if before else 1, start_frame=0, levels=0),
        }[kind]()
        req.seq = 5

        def ask():
            d._proto.on_msg_received(req)

        def do():
            if change == "add":
                ds.start_task(world.hosts[-1], task, {})
            else:
                ds.exit_threads()

        if interleave(at, *((ask, do) if req_first else (do, ask))):
            rec.nontrivial()
    errors = [m for m in got if isinstance(m, dap.ErrorResponse)]
    if not (kind == "stack" and change == "exit"):
        require(not errors, lambda: f"{req!r} while threads change is answered {errors[0].message[-500:]}")
    if kind == "threads":
        ids = [t.id for t in got[[isinstance(m, dap.Response) for m in got].index(True)].threads]
        require(ids[0] == 1 and len(ids) == len(set(ids)) and set(ids) - {1} <= set(before) | {m.thread_id for m in got if isinstance(m, dap.ThreadEvent)}, f"threads {ids}")
    resp = [m for m in got if isinstance(m, dap.Response)]
    require(len(resp) == (0 if kind == "disconnect" else 1), lambda: f"answers {resp!r}")


_worlds = {}

TESTS = [
    Test("session", lambda: sessions, session, quick=2000, thorough=30000, case_timeout=300, shrink_s=60, confirm=1),
    Test("race", lambda: racing, race, quick=2000, thorough=80000, case_timeout=120, confirm=1),
]
TESTS[0].share = 3.0
