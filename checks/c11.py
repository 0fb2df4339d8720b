"""C11: breakpoint answers always reflect what Ansible has loaded."""
from __future__ import annotations

import os

from vf import HarnessError, Recorder, Test, Violation, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import dap
from dbg import Link, fresh, interleave

PROPERTY = "C11"
TECHNIQUE = "stateful property-based testing against a reference model, over the real connection, plus generated thread interleavings of setting breakpoints and loading files"
LEVEL_NOTE = "Random search over histories of load, set and lookup operations; the interleavings stop one operation at a generated line while the other runs."
RULE = (
    "A case is a history of operations (load lines of a file, set the breakpoints of a source, look up a task's line), or two operations with the line at which the first is interrupted by the second. "
    "Non-trivial: at least one breakpoint is answered or changed by loaded lines; for interleavings, the second operation started while the first was under way."
)
ASSUMPTIONS = [
    "Requested lines are counted from 1.",
    "The last task of a file extends to its own line only, as the length of the file is not known.",
    "When several breakpoints cover a line the lookup may give any of them.",
]
BUDGET_S = {"quick": 45, "thorough": 900}

PATHS = ["/p/main.yml", "/p/tasks/a.yml", "/p/main.yml2", "/p/main.ym", "rel.yml", "/p/é x.yml"]
pidx = st.sampled_from([0, 0, 0, 1, 1, 2, 3])
line = st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(1, 40))
kind = st.sampled_from([1, 1, 1, 0])
regs = st.lists(st.tuples(line, kind), min_size=1, max_size=6)
bplines = st.lists(line, max_size=4)
op = st.one_of(
    st.tuples(st.just("load"), pidx, regs),
    st.tuples(st.just("load"), pidx, regs.map(sorted)),
    st.tuples(st.just("set"), pidx, bplines, st.sampled_from([False, False, False, True])),
    st.tuples(st.just("set"), pidx, bplines, st.just(False)),
    st.tuples(st.just("look"), pidx, line),
)
histories = st.tuples(st.permutations(range(len(PATHS))), st.lists(op, min_size=3, max_size=14))


class Model:
    """What the loaded lines say, computed from scratch."""

    def __init__(self):
        self.lines = {}  # path -> {line: kind}

    def load(self, path, line, kind):
        self.lines.setdefault(path, {})[line] = kind

    def view(self, path, want):
        """(verified, line, end line)"""
        known = self.lines.get(path)
        if not known:
            return (False, want, None)
        start = max([x for x in known if x <= want], default=0)
        later = [x for x in known if x > start]
        end = min(later) - 1 if later else start
        return (known.get(start, 0) != 0, start, end)


def seen(bp):
    return (bool(bp.verified), bp.line, bp.end_line)


class Client:
    """The client's view: the answers and the change events since."""

    def __init__(self):
        self.live = {}  # id -> [path, requested line, seen]
        self.used = set()

    def answer(self, path, lines, modified, resp):
        require(isinstance(resp, dap.SetBreakpointsResponse), lambda: f"answered with {resp!r}")
        require(len(resp.breakpoints) == len(lines), lambda: f"{len(lines)} breakpoints requested, answered {resp.breakpoints!r}")
        self.live = {i: v for i, v in self.live.items() if v[0] != path}
        for want, bp in zip(lines, resp.breakpoints):
            require(bp.id is not None and bp.id not in self.used, lambda: f"identifier {bp.id} is used again")
            self.used.add(bp.id)
            require(bp.source is not None and bp.source.path == path, lambda: f"the source of {bp!r} is not {path!r}")
            if modified:
                require(not bp.verified and bp.message, lambda: f"a breakpoint in a modified source is answered as {bp!r}")
                continue
            require(bool(bp.message) != bool(bp.verified), lambda: f"verified {bp.verified} with the message {bp.message!r}")
            self.live[bp.id] = [path, want, seen(bp)]

    def event(self, ev, strict=True):
        require(isinstance(ev, dap.BreakpointEvent) and ev.reason == "changed", lambda: f"unexpected {ev!r}")
        bp = ev.breakpoint
        if bp.id not in self.live:
            raise Violation(f"a change event for a breakpoint that is not set: {bp!r}, set are {self.live}")
        v = self.live[bp.id]
        require(bp.source is not None and bp.source.path == v[0], lambda: f"the source of {bp!r} is not {v[0]!r}")
        require(bool(bp.message) != bool(bp.verified), lambda: f"verified {bp.verified} with the message {bp.message!r}")
        require(seen(bp) != v[2], lambda: f"a change event without a change: {bp!r}")
        v[2] = seen(bp)

    def check(self, model, what):
        for i, (path, want, view) in self.live.items():
            exp = model.view(path, want)
            require(view == exp, lambda: f"{what}: the client knows breakpoint {i} ({path} line {want}) as (verified, line, end) {view}, the loaded lines {model.lines.get(path)} say {exp}")


def set_request(path, lines, modified=False):
    return dap.SetBreakpointsRequest(
        source=dap.Source(name=os.path.basename(path), path=path), breakpoints=[dap.SourceBreakpoint(line=x) for x in lines], lines=list(lines), source_modified=modified
    )


def history(case, rec: Recorder):
    order, ops = case
    paths = [PATHS[i] for i in order[:4]]
    model, client = Model(), Client()
    with Link() as link:
        at = 0

        def drain(answer=None):
            """Applies what came since, in order."""
            nonlocal at
            link.barrier()
            for m in link.rec.got[at:-1]:
                if isinstance(m, dap.SetBreakpointsResponse) and answer:
                    client.answer(*answer, m)
                elif isinstance(m, dap.Event):
                    client.event(m)
                    rec.nontrivial()
                else:
                    raise Violation(f"unexpected {m!r}")
            at = len(link.rec.got)

        for n, o in enumerate([*ops, *(("look", i, 1) for i in range(4))]):
            what = f"after operation {n} {o}"
            path = paths[o[1]]
            if o[0] == "load":
                for ln, k in o[2]:
                    before = {i: (v[2], model.view(v[0], v[1])) for i, v in client.live.items()}
                    model.load(path, ln, k)
                    link.debugger.register_path_breakpoint(path, ln, k)
                    changed = {i for i, v in client.live.items() if model.view(v[0], v[1]) != before[i][1]}
                    was = len(link.rec.got)
                    drain()
                    got = [m.breakpoint.id for m in link.rec.got[was:] if isinstance(m, dap.BreakpointEvent)]
                    require(sorted(got) == sorted(changed), lambda: f"{what}: loading line {ln} changes {sorted(changed)}, change events came for {got}")
                    client.check(model, what)
            elif o[0] == "set":
                seq = link.post(set_request(path, o[2], o[3]))
                link.answer(seq)
                drain((path, o[2], o[3]))
                if o[2] and model.lines.get(path):
                    rec.nontrivial()
                client.check(model, what)
            else:
                if path in model.lines:
                    tasks = [x for x, k in model.lines[path].items() if k]
                    for ln in tasks:
                        expected = {i for i, v in client.live.items() if v[0] == path and v[2][1] <= ln and (v[2][2] is None or v[2][2] >= ln)}
                        found = link.debugger.get_breakpoint(path, ln)
                        fid = found.id if found else None
                        require(fid in expected if expected else fid is None, lambda: f"{what}: the task at {path}:{ln} matches breakpoint {fid}, the ranges {client.live} say {sorted(expected)}")
                        rec.tag("hit" if found else "no hit")
                elif not any(v[0] == path for v in client.live.values()):
                    require(link.debugger.get_breakpoint(path, o[2]) is None, f"{what}: a task matches without a breakpoint in its file")


# -- interleavings ------------------------------------------------------------

pair = st.tuples(
    st.lists(st.tuples(pidx, regs), max_size=2),  # loaded before
    st.lists(st.tuples(pidx, bplines), max_size=2),  # set before
    st.tuples(pidx, st.lists(line, min_size=1, max_size=4)),  # the set that races
    st.tuples(pidx, st.lists(st.tuples(line, kind), min_size=1, max_size=3)),  # the load that races
    st.booleans(),  # which one is interrupted
    st.one_of(st.integers(0, 30), st.integers(0, 120)),
    st.booleans(),  # same file
    st.booleans(),  # lookups instead of the load
)


def race(case, rec: Recorder):
    loaded, preset, (sp, slines), (lp, lregs), set_first, at, same, looks = case
    if same:
        lp = sp
    d = fresh()
    got = []
    real_put = d.queue_msg
    d.queue_msg = lambda m: (got.append(m), real_put(m))[1]
    model, client = Model(), Client()
    seq = 0

    def do_set(path, lines):
        nonlocal seq
        seq += 1
        req = set_request(path, lines)
        req.seq = seq
        d.process_message(req)

    def apply(upto=None):
        answered = 0
        for m in got:
            if isinstance(m, dap.SetBreakpointsResponse):
                client.answer(*asked[m.request_seq], False, m)
                answered += 1
            else:
                client.event(m)
        got.clear()
        return answered

    asked = {}
    for p, r in loaded:
        for ln, k in r:
            model.load(PATHS[p], ln, k)
            d.register_path_breakpoint(PATHS[p], ln, k)
    for p, lines in preset:
        asked[seq + 1] = (PATHS[p], lines)
        do_set(PATHS[p], lines)
    apply()
    client.check(model, "before the race")
    asked[seq + 1] = (PATHS[sp], slines)
    found = []
    pre_hit = {}
    if looks:
        for ln in range(1, 41):
            pre_hit[ln] = d.get_breakpoint(PATHS[lp], ln)

    def load():
        if looks:
            for ln, k in lregs:
                found.append((ln, d.get_breakpoint(PATHS[lp], ln)))
        else:
            for ln, k in lregs:
                d.register_path_breakpoint(PATHS[lp], ln, k)

    def set_():
        do_set(PATHS[sp], slines)

    if interleave(at, *((set_, load) if set_first else (load, set_))):
        rec.nontrivial()
        rec.tag("set interrupted" if set_first else "load interrupted")
    if not looks:
        for ln, k in lregs:
            model.load(PATHS[lp], ln, k)
    require(apply() == 1, "the request is not answered once")
    client.check(model, "after the race")
    for ln, bp in found:
        # Either the breakpoints from before or those from after.
        after = d.get_breakpoint(PATHS[lp], ln)
        ok = {(b.breakpoint.line, b.breakpoint.end_line) if b else None for b in (pre_hit.get(ln) or d_none(pre_hit, ln), after)}
        val = (bp.breakpoint.line, bp.breakpoint.end_line) if bp else None
        require(val in ok, lambda: f"a lookup during the replacement gives {val}, before and after give {ok}")


def d_none(pre, ln):
    return pre.get(ln)


TESTS = [
    Test("history", lambda: histories, history, quick=2400, thorough=120000, case_timeout=120),
    Test("race", lambda: pair, race, quick=4000, thorough=200000, case_timeout=120, confirm=1),
]
