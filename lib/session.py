"""Scripted debug sessions over generated playbooks, and the model of where
they stop (C15, C16, C17, C20, C22)."""
from __future__ import annotations

import collections

from vf import HarnessError, Violation, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import dap
import book
import pb

CONDS = [
    "inventory_hostname == 'h1'",
    "inventory_hostname != 'h1'",
    "counter is defined and counter | int > 0",
    "counter | default(0) | int == 1",
    "not_defined_anywhere",
    "1/0",
    "true",
    "false",
    "'x' in",
    "lookup('there_is_no_such_lookup')",
    "inventory_hostname in groups['all'] and play_hosts | length > 1",
    "none",
    "iv is defined",
]
RESUMES = ["cont", "contall", "next", "in", "out"]
FILTERS = ["on_error", "on_unreachable", "on_skipped"]

bp_choice = st.tuples(st.integers(0, 200), st.sampled_from([0, 0, 0, 1]), st.one_of(st.none(), st.none(), st.integers(0, len(CONDS) - 1)))


def bps(lo=0, hi=4):
    return st.lists(bp_choice, min_size=lo, max_size=hi)


def script(resumes, lo=1, hi=8, change=True):
    extra = st.one_of(st.none(), st.none(), st.none(), st.tuples(st.just("bps"), bps(0, 3)), st.tuples(st.just("filters"), st.lists(st.sampled_from(FILTERS), max_size=2, unique=True))) if change else st.none()
    return st.lists(st.tuples(st.sampled_from(resumes), extra), min_size=lo, max_size=hi)


filters = st.one_of(st.just([]), st.lists(st.sampled_from(FILTERS), max_size=3, unique=True))


class Reference:
    """The plain run, arranged for the model."""

    def __init__(self, project, args, env=None, conds=range(len(CONDS))):
        self.conds = sorted(conds)
        plain = pb.Plain(project, args, [CONDS[i] for i in self.conds], env)
        self.plain, self.project = plain, project
        self.steps = []
        open_ = {}
        for e in plain.trace:
            if e["kind"] == "result":
                key = (e["play"], e["host"])
                s = open_.get(key)
                if s is None or s["uuid"] != e["uuid"]:
                    raise HarnessError(f"a result without its task: {e}")
                if s["result"] is None:
                    s["result"] = e
                else:
                    raise HarnessError(f"two results for one task: {e}")
            else:
                e["result"] = None
                if e["path"]:
                    e["conds"] = dict(zip(self.conds, e.get("conds", [])))
                if e["path"]:
                    p, _, line = e["path"].rpartition(":")
                    e["file"], e["line"] = p, int(line)
                open_[(e["play"], e["host"])] = e
                self.steps.append(e)
        self.locs = sorted({(s["file"], s["line"]) for s in self.steps if s["path"]})
        self.files = sorted({f for f, _ in self.locs})

    def pick(self, choices):
        """{path: [(line, condition index)]} for generated choices."""
        out = {}
        for i, delta, cond in choices:
            if self.locs:
                f, line = self.locs[i % len(self.locs)]
                # The line after the first one of a task is its own, as every
                # task is written in two lines or more; a play's is not.
                if delta and any(s["kind"] == "meta" and s["line"] == line and s["file"] == f for s in self.steps if s["path"]):
                    delta = 0
                out.setdefault(f, []).append((line, delta, cond))
        return out


class Observed:
    def __init__(self):
        self.stops = []
        self.errors = []


class Session:
    """One debugged run of the playbook."""

    def __init__(self, ref, args, spec, inspect=None, look=None):
        """inspect(session, debug, stop): further requests at a stop."""
        self.ref, self.spec, self.args = ref, spec, args
        self.inspect = inspect
        self.stops = []
        self.bps = []  # [{id, file, line, cond}]
        self.hosts = {}  # thread id -> host
        self.code = None

    LOCAL = "/client side/root"

    def client(self, path):
        if self.spec.get("mapped") and path.startswith(self.ref.project.dir + "/"):
            return self.LOCAL + path[len(self.ref.project.dir) :]
        return path

    def remote(self, source):
        """The debuggee's path of a frame's source."""
        if source is None:
            return None
        path = source.path
        if source.name != path.rpartition("/")[2]:
            raise Violation(f"the source {path} is named {source.name}")
        if self.spec.get("mapped"):
            if not path.startswith(self.LOCAL + "/"):
                raise Violation(f"the path {path} of a frame is not in the client's root")
            return self.ref.project.dir + path[len(self.LOCAL) :]
        return path

    def set_bps(self, d, choices):
        """Replaces every breakpoint."""
        want = self.ref.pick(choices)
        had = {b["file"] for b in self.bps}
        new = []
        for f in sorted(set(want) | had):
            lines = want.get(f, [])
            r = d.set_breakpoints(self.client(f), [(line + delta, None if c is None else CONDS[c]) for line, delta, c in lines])
            if not isinstance(r, dap.SetBreakpointsResponse) or len(r.breakpoints) != len(lines):
                raise Violation(f"setting breakpoints {lines} in {f} is answered with {r!r}")
            for (line, delta, c), b in zip(lines, r.breakpoints):
                new.append(dict(id=b.id, file=f, line=line, cond=c))
        self.bps = new

    def run(self):
        spec = self.spec
        with pb.Debug(self.ref.project, self.args, spec.get("mode", "listen"), wait=True) as d:
            self.d = d
            if d.connected:
                d.configure([(self.LOCAL, self.ref.project.dir)] if spec.get("mapped") else [], filters=spec["filters"])
                self.set_bps(d, spec["bps"])
                self.filters = list(spec["filters"])
                self.initial = (list(self.bps), list(self.filters))
                d.done()
                i = 0
                limit = spec.get("limit", 60)
                while True:
                    ev = d.next_stop()
                    if ev is None:
                        break
                    self.at_stop(d, ev, i, quit=i >= limit)
                    i += 1
            else:
                self.initial = ([], [])
            self.code = d.finish()
            # Everything the debugger sent is here once its side has closed.
            if d.connected:
                d.rec.wait(lambda: d.rec.closed, 10)
            self.messages = list(d.rec.got)
            self.text = d.run.text()
            self.events, self.effects = d.run.lines("events"), d.run.lines("effects")
        return self

    def at_stop(self, d, ev, i, quit):
        stop = dict(event=ev, tid=ev.thread_id, index=i, at=d.taken)
        self.stops.append(stop)
        r = d.ask(dap.ThreadsRequest())
        if not isinstance(r, dap.ThreadsResponse):
            raise Violation(f"the threads request at a stop is answered with {r!r}")
        stop["threads"] = {t.id: t.name for t in r.threads}
        if len(stop["threads"]) != len(r.threads):
            raise Violation(f"a thread id is listed twice: {r.threads}")
        if ev.thread_id not in stop["threads"]:
            raise Violation(f"the stopped thread {ev.thread_id} is not in the thread list {stop['threads']}")
        stop["host"] = stop["threads"][ev.thread_id]
        stop["stacks"] = {}
        for t in stop["threads"]:
            if t == ev.thread_id or self.spec.get("all_stacks"):
                r = d.ask(dap.StackTraceRequest(thread_id=t))
                if not isinstance(r, dap.StackTraceResponse):
                    raise Violation(f"the stack trace of thread {t} is answered with {r!r}")
                stop["stacks"][t] = [(f.id, f.name, self.remote(f.source), f.line) for f in r.stack_frames]
                if r.total_frames is not None and r.total_frames != len(r.stack_frames):
                    raise Violation(f"{len(r.stack_frames)} frames with a total of {r.total_frames}")
        if self.inspect:
            self.inspect(self, d, stop)
        script = self.spec["script"]
        resume, extra = ("contall", ("bps", [])) if quit else script[i % len(script)]
        # Which of the other threads had got how far is not known at an
        # exception stop, so a continue for all of them is not either.
        if resume == "contall" and ev.reason == dap.StoppedReason.EXCEPTION and not quit:
            resume = "cont"
        if quit:
            d.set_filters([])
            self.filters = []
        if extra and extra[0] == "bps":
            if ev.reason != dap.StoppedReason.EXCEPTION or quit:
                self.set_bps(d, extra[1])
        elif extra and extra[0] == "filters":
            if ev.reason != dap.StoppedReason.EXCEPTION and self.ref.plain_hosts == 1:
                d.set_filters(extra[1])
                self.filters = list(extra[1])
        stop["resume"], stop["bps"], stop["filters"] = resume, list(self.bps), list(self.filters)
        t = ev.thread_id
        req = {
            "cont": lambda: dap.ContinueRequest(thread_id=t, single_thread=True),
            "contall": lambda: dap.ContinueRequest(thread_id=t, single_thread=False),
            "next": lambda: dap.NextRequest(thread_id=t),
            "in": lambda: dap.StepInRequest(thread_id=t),
            "out": lambda: dap.StepOutRequest(thread_id=t),
        }[resume]()
        r = d.ask(req)
        if r is not None and (isinstance(r, dap.ErrorResponse) or not r.success):
            raise Violation(f"the {resume} request is answered with {r!r}")
        if isinstance(r, dap.ContinueResponse) and bool(r.all_threads_continued) != (resume == "contall"):
            raise Violation(f"the answer to a {resume} request says all threads continued: {r.all_threads_continued}")


REASON = {dap.StoppedReason.STEP: "step", dap.StoppedReason.BREAKPOINT: "breakpoint", dap.StoppedReason.EXCEPTION: "exception"}


def where(step):
    return f"{step['host']}: {step['name']} ({step['path']})"


def expected_exception(step, filters):
    """None, or the text pieces (starting text, contained) of the exception stop after the task."""
    r = step["result"]
    if r is None:
        return None
    if r["failed"] and not r["ie"]:
        if "on_error" in filters and not step["rescued"]:
            text = r["msg"] if r["msg"] is not None else r["stdout"] if r["stdout"] is not None else "Unknown error"
            return ("Task failed", text, None)
    elif r["unreachable"] and not r["iu"]:
        if "on_unreachable" in filters:
            text = r["msg"] if r["msg"] is not None else "Unknown error"
            return ("Host unreachable", text, None)
    elif r["skipped"]:
        if "on_skipped" in filters:
            return ("Task skipped", "Task skipped\n" + (r["skip_reason"] or "Unknown reason"), r["false_condition"])
    return None


class Model:
    """Walks the reference run and predicts every stop of a session."""

    def __init__(self, ref, session, what=("stops", "stacks", "others", "text")):
        self.ref, self.s, self.what = ref, session, what
        self.pos = 0
        self.bps, self.filters = session.initial
        self.mode = {}
        self.last = {}
        self.pending = collections.OrderedDict()  # host -> (step, expected)
        self.counts = collections.Counter()

    def peek(self):
        return self.s.stops[self.pos] if self.pos < len(self.s.stops) else None

    def host_of(self, stop):
        return stop["host"]

    def covering(self, step):
        out = []
        for b in self.bps:
            if b["file"] == step["file"] and b["line"] == step["line"]:
                if b["cond"] is None or step["conds"][b["cond"]]:
                    out.append(b["id"])
        return out

    def predict(self, step):
        """None or (reason, acceptable breakpoint ids)."""
        mode, arg = self.mode.get(step["host"], ("cont", None))
        scope = step["chain"][0][0] if step["chain"] else None
        if mode == "over" and scope == arg:
            return ("step", None, "over")
        if mode == "out" and arg is not None and not any(c[0] == arg for c in step["chain"]):
            return ("step", None, "out")
        if mode == "in":
            return ("step", None, "in")
        if mode != "out":
            ids = self.covering(step)
            if ids:
                return ("breakpoint", ids, "bp")
        return None

    def frames(self, step, own=True):
        f = [(step["name"], step["file"], step["line"])] if own and step["path"] else []
        for _, name, path in step["chain"]:
            p, _, line = path.rpartition(":")
            f.append((name, p, int(line)))
        return f

    def resume(self, step, stop):
        r = stop["resume"]
        h = step["host"]
        scope = step["chain"][0][0] if step["chain"] else None
        if r == "contall":
            self.mode.clear()
        elif r == "cont":
            self.mode[h] = ("cont", None)
        elif r == "next" or (r == "in" and not step["include"]):
            self.mode[h] = ("over", scope)
        elif r == "in":
            self.mode[h] = ("in", None)
        elif r == "out":
            self.mode[h] = ("out", scope)
        self.bps, self.filters = stop["bps"], stop["filters"]

    def check_stop(self, step, stop, reason):
        ev = stop["event"]
        if "stops" in self.what:
            require(stop["host"] == step["host"], lambda: f"the stop at {where(step)} is reported for the thread of {stop['host']}")
            require(REASON.get(ev.reason) == reason, lambda: f"the stop at {where(step)} has the reason {ev.reason}, not {reason}")
            require(not ev.all_threads_stopped, "one thread stopped and all are reported as stopped")
        frames = [x[1:] for x in stop["stacks"][stop["tid"]]]
        want = self.frames(step)
        if "stacks" in self.what:
            require(frames == want, lambda: f"the stack at {where(step)} is {frames}, it should be {want}")
        elif "stops" in self.what:
            require(frames[:1] == want[:1], lambda: f"the thread of {step['host']} stopped at {frames[:1]}, it should have at {want[:1]}")
        if "others" in self.what:
            for tid, fr in stop["stacks"].items():
                name = stop["threads"][tid]
                fr = [x[1:] for x in fr]
                if tid == stop["tid"]:
                    continue
                if tid == 1:
                    require(not fr, f"the main thread has the stack {fr}")
                    continue
                last = self.last.get(name)
                ok = [self.frames(last), self.frames(last, last["include"])] if last else [[]]
                if REASON.get(stop["event"].reason) == "exception":
                    # The results come in any order, it may be at the task already.
                    for nxt in self.ref.steps:
                        if nxt["host"] == name and nxt["play"] == step["play"] and nxt["uuid"] == step["uuid"]:
                            ok += [self.frames(nxt), self.frames(nxt, nxt["include"])]
                require(fr in ok, lambda: f"at the stop at {where(step)}, the thread of {name}, which is {"at " + where(last) if last else "at nothing"}, has the stack {fr}")

    def take_exception(self, stop):
        step, exp = self.pending.pop(stop["host"])
        title, text, more = exp
        self.check_stop(step, stop, "exception")
        if "text" in self.what:
            ev = stop["event"]
            require(ev.description == title, lambda: f"the stop after {where(step)} is described as {ev.description!r}, not {title!r}")
            require((ev.text or "").startswith(text), lambda: f"the stop after {where(step)} has the text {ev.text!r}, it should be {text!r}")
            if not (step["result"]["exception"] or more):
                require(ev.text == text, lambda: f"the stop after {where(step)} has the text {ev.text!r}, it should be {text!r}")
            if more:
                require(more in ev.text[len(text) :], lambda: f"the stop after {where(step)} has the text {ev.text!r} without the condition {more!r}")
        self.resume(step, stop)
        self.counts[title] += 1
        self.pos += 1

    def walk(self):
        play = None
        for step in self.ref.steps:
            if step["play"] != play:
                self.drain(None)
                play = step["play"]
                self.mode.clear()
                self.last.clear()
            self.drain(step)
            self.last[step["host"]] = step
            if step["path"]:
                p = self.predict(step)
                stop = self.peek()
                if p:
                    require(
                        stop is not None and not (REASON.get(stop["event"].reason) == "exception"),
                        lambda: f"no stop before {where(step)}, where there should be one for {p[2]}" + (f"; the next stop is {self.describe(stop)}" if stop else ""),
                    )
                    self.check_stop(step, stop, p[0])
                    ev = stop["event"]
                    if p[0] == "breakpoint":
                        got = list(ev.hit_breakpoint_ids or [])
                        require(got and set(got) <= set(p[1]), lambda: f"the stop at {where(step)} names breakpoints {got}, it is at {p[1]}")
                    else:
                        require(not ev.hit_breakpoint_ids, lambda: f"the step stop at {where(step)} names breakpoints {ev.hit_breakpoint_ids}")
                    self.counts[p[2]] += 1
                    self.pos += 1
                    self.resume(step, stop)
            if step["kind"] == "meta" and step["meta"] == "refresh_inventory":
                self.mode.clear()
                self.last.clear()
            exp = expected_exception(step, self.filters)
            if exp:
                self.pending[step["host"]] = (step, exp)
        self.drain(None)
        stop = self.peek()
        require(stop is None, lambda: f"an unexpected stop: {self.describe(stop)}")

    def drain(self, step):
        """Exception stops that come before the next step (all of them when None)."""
        while True:
            stop = self.peek()
            if stop is not None and REASON.get(stop["event"].reason) == "exception" and stop["host"] in self.pending:
                self.take_exception(stop)
                continue
            for h, (s, exp) in self.pending.items():
                if step is None or h == step["host"]:
                    raise Violation(f"no stop after {where(s)}, where there should be one: {exp[0]}: {exp[1]}" + (f"; the next stop is {self.describe(stop)}" if stop else ""))
            return

    def describe(self, stop):
        ev = stop["event"]
        return f"{REASON.get(ev.reason)} ({ev.description}; {(ev.text or '')[:80]!r}) of {stop['host']} at {stop['stacks'][stop['tid']]}"


def compare_runs(plain, s):
    """C15: what both runs did, by host where their order is not determined."""
    require(s.code == plain.code, lambda: f"the exit status is {s.code}, without the debugger {plain.code}: {s.text[-600:]}")

    def split(events):
        main, by = [], collections.defaultdict(list)
        for e in events:
            if e[0] in ("play", "task", "handler", "cleanup", "include", "no_hosts", "no_hosts_remaining", "stats"):
                main.append(e)
            else:
                by[e[1]].append(e)
        # Includes of several files by several hosts come in any order.
        i = 0
        while i < len(main):
            j = i
            while j < len(main) and main[j][0] == "include":
                j += 1
            main[i:j] = sorted(main[i:j])
            i = max(j, i + 1)
        return main, by

    a, b = split(plain.events), split(s.events)
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        require(x == y, lambda: f"event {i} is {y}, without the debugger {x}")
    require(len(a[0]) == len(b[0]), lambda: f"{len(b[0])} events, without the debugger {len(a[0])}: {(a[0] + b[0])[min(len(a[0]), len(b[0]))]}")
    require(set(a[1]) == set(b[1]), lambda: f"results for {set(b[1])}, without the debugger {set(a[1])}")
    for h in a[1]:
        for i, (x, y) in enumerate(zip(a[1][h], b[1][h])):
            require(x == y, lambda: f"{h}: result {i} is {y}, without the debugger {x}")
        require(len(a[1][h]) == len(b[1][h]), lambda: f"{h}: {len(b[1][h])} results, without the debugger {len(a[1][h])}")

    def effects(run):
        by = collections.defaultdict(list)
        for h, args in run.effects:
            by[h].append(args)
        return by

    x, y = effects(plain), effects(s)
    require(x == y, lambda: f"executed {dict(y)}, without the debugger {dict(x)}")


def conditions(spec):
    """The conditions of the breakpoints of a session."""
    lists = [spec["bps"]] + [x[1] for _, x in spec["script"] if x and x[0] == "bps"]
    return {c for l in lists for _, _, c in l if c is not None}


def reference(project, prog, args, spec):
    ref = Reference(project, args, None, conditions(spec))
    ref.plain_hosts = prog["n"]
    return ref


def run_case(case, rec, what, compare=False, inspect=None, after=None):
    """One session over one program: (program, spec)."""
    prog, spec = case
    files, args = book.render(prog)
    with pb.Project(files) as p:
        ref = reference(p, prog, args, spec)
        s = Session(ref, args, spec, inspect).run()
        if compare:
            compare_runs(ref.plain, s)
        m = Model(ref, s, what)
        if what:
            m.walk()
        if after:
            after(ref, s, m)
    for k, v in m.counts.items():
        rec.tag("stops: " + k, v)
    rec.tag("tasks and hosts", len(ref.steps))
    rec.tag("hosts: %d" % prog["n"])
    rec.tag("deepest include: %d" % max([len(x["chain"]) for x in ref.steps] + [0]))
    if ref.plain.code:
        rec.tag("ends with status %d" % ref.plain.code)
    return ref, s, m


def spec(resumes=RESUMES, bps_=None, filters_=filters, lo=1, hi=8, change=True, **more):
    d = dict(bps=bps() if bps_ is None else bps_, filters=filters_, script=script(resumes, lo, hi, change), mode=st.sampled_from(["listen", "connect"]), all_stacks=st.just(True), mapped=st.sampled_from([False, False, False, True]))
    d.update(more)
    return st.fixed_dictionaries(d)
