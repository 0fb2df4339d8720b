"""C22: threads are paired, identifiers unique and stale references refused."""
from __future__ import annotations

from ansibug import dap
import book
import pb
import session as ss
from session import st
from vf import Recorder, Test, Violation, require

PROPERTY = "C22"
TECHNIQUE = "model-based property testing: generated playbooks and debug sessions run with ansible-playbook; thread events, thread lists and every identifier checked against the history of the session"
LEVEL = "exploration"
LEVEL_NOTE = "Thread events, thread lists, and the life of every frame and variable identifier are checked over whole generated sessions."
RULE = (
    "A case is a generated playbook (plays, batches, inventory refreshes, several hosts, includes) and a session that at every stop asks for the threads, the stacks, scopes "
    "and variables, and then uses identifiers seen at any earlier time. The started and exited events have to be those of the hosts that run a task in each play (up to an inventory "
    "refresh) of a plain run, in that order, the thread list at a stop the main thread and the live hosts, every identifier new or the same frame as before, every frame or variable of a "
    "task that is not on any stack refused, and every other answered. Non-trivial: a session in which an identifier of a finished task was used."
)
ASSUMPTIONS = []
BUDGET_S = {"quick": 60, "thorough": 2400}
GRACE_S = 240
worker_teardown = pb.teardown


class Ids:
    """What the session has shown until now."""

    def __init__(self, picks, rec):
        self.picks, self.rec = picks, rec
        self.frames = {}  # frame id -> (thread id, frame)
        self.gone = set()
        self.vars = {}  # variable id -> frame id
        self.used = False

    def new_var(self, ref, frame, what):
        if ref:
            # The result of a task is one variable for all requests.
            if what == "Module Result" and self.vars.get(ref) == frame:
                return
            require(ref not in self.vars, lambda: f"the variable reference {ref} of {what} was given out before")
            self.vars[ref] = frame

    def at_stop(self, session, d, stop):
        live = {}
        for t, frames in stop["stacks"].items():
            for f in frames:
                require(f[0] not in live, lambda: f"the frame id {f[0]} is in use twice: {stop['stacks']}")
                live[f[0]] = (t, f)
        for fid, x in live.items():
            require(fid not in self.gone, lambda: f"the frame id {fid} has come back, for {x}")
            if fid in self.frames:
                require(self.frames[fid] == x, lambda: f"the frame id {fid} was {self.frames[fid]} and is {x}")
        self.gone |= set(self.frames) - set(live)
        self.frames.update(live)
        picks = self.picks[stop["index"] % len(self.picks)]
        order = sorted(live, reverse=True)
        for kind, i, j in picks:
            if kind == "scopes" and live:
                fid = order[i % len(order)]
                r = d.ask(dap.ScopesRequest(frame_id=fid))
                require(isinstance(r, dap.ScopesResponse), lambda: f"the scopes of the frame {live[fid]} are answered with {r!r}")
                for x in r.scopes:
                    self.new_var(x.variables_reference, fid, x.name)
                ref = r.scopes[j % len(r.scopes)].variables_reference
                self.expand(d, ref, fid)
            elif kind == "frame" and self.frames:
                fid = sorted(self.frames, reverse=True)[i % len(self.frames)]
                for req in (dap.ScopesRequest(frame_id=fid), dap.EvaluateRequest(expression="inventory_hostname", context="watch" if j % 2 else "repl", frame_id=fid)):
                    r = d.ask(req)
                    self.judge(r, fid in live, req, self.frames[fid])
                    if isinstance(r, dap.ScopesResponse):
                        for x in r.scopes:
                            self.new_var(x.variables_reference, fid, x.name)
            elif kind == "var" and self.vars:
                refs = sorted(self.vars, reverse=True)
                ref = refs[i * 7 % len(refs)]
                fid = self.vars[ref]
                if j % 3 == 0 and fid not in live:
                    r = d.ask(dap.SetVariableRequest(variables_reference=ref, name="0", value="1"))
                    self.judge(r, False, f"an edit of variable {ref}", self.frames[fid])
                else:
                    self.expand(d, ref, fid, fid in live)

    def expand(self, d, ref, fid, alive=True):
        r = d.ask(dap.VariablesRequest(variables_reference=ref))
        self.judge(r, alive, f"a request for the variables {ref}", self.frames[fid])
        if isinstance(r, dap.VariablesResponse):
            for x in r.variables:
                self.new_var(x.variables_reference, fid, x.name)

    def judge(self, r, alive, req, frame):
        if alive:
            require(r is not None and not isinstance(r, dap.ErrorResponse), lambda: f"{req} of the frame {frame}, which is on a stack, is answered with {r!r}")
        else:
            self.used = True
            self.rec.tag("stale references")
            require(isinstance(r, dap.ErrorResponse), lambda: f"{req} of the frame {frame}, whose task has finished, is answered with {r!r}")


def check_threads(ref, s):
    """The thread events of the session, and who is live at each stop."""
    # The hosts that run something, in each play up to each refresh.
    segments = [[]]
    play = None
    for x in ref.steps:
        if x["play"] != play:
            play = x["play"]
            segments.append([])
        if x["host"] not in segments[-1]:
            segments[-1].append(x["host"])
        if x["kind"] == "meta" and x["meta"] == "refresh_inventory":
            segments.append([])
    segments = [x for x in segments if x]
    names = {}
    for stop in s.stops:
        for t, name in stop["threads"].items():
            require(names.setdefault(t, name) == name, lambda: f"the thread {t} was named {names[t]} and is {name}")
    live, seen, i = [], set(), 0
    expected = iter([(kind, h, n) for n, seg in enumerate(segments) for kind in ("started", "exited") for h in seg])
    batch = set()
    stops = iter(s.stops)
    hosts = {}
    for m in s.messages:
        if isinstance(m, dap.ThreadEvent):
            e = next(expected, None)
            require(e is not None, lambda: f"an unexpected thread event {m!r}")
            require(m.reason == e[0], lambda: f"the thread event {m!r} comes when {e[1]}'s thread should have {e[0]}")
            t = m.thread_id
            if m.reason == "started":
                require(t > max(seen | {1}), lambda: f"the thread id {t} is not a new one")
                seen.add(t)
                live.append(t)
                hosts[t] = e[1]
                if t in names:
                    require(names[t] == e[1], lambda: f"the thread {t} of {e[1]} is named {names[t]}")
            else:
                require(t in live, lambda: f"the thread {t} exits, which is not live: {live}")
                live.remove(t)
        elif isinstance(m, dap.StoppedEvent):
            stop = next(stops, None)
            if stop is None:
                continue
            want = {1: "main", **{t: hosts[t] for t in live}}
            require(stop["threads"] == want, lambda: f"at a stop the threads are {stop['threads']}, live are {want}")
    e = next(expected, None)
    require(e is None, lambda: f"no thread event for {e}")


def t_ids(case, rec: Recorder):
    ids = Ids(case[1]["picks"], rec)
    ref, s, m = ss.run_case(case, rec, (), inspect=ids.at_stop, after=lambda ref, s, m: check_threads(ref, s))
    rec.tag("stops", len(s.stops))
    rec.tag("identifiers", len(ids.frames) + len(ids.vars))
    if ids.used:
        rec.nontrivial()


pick = st.tuples(st.sampled_from(["scopes", "scopes", "frame", "var", "var"]), st.integers(0, 40), st.integers(0, 5))


def spec(**kw):
    return ss.spec(["cont", "next", "in", "out"], picks=st.lists(st.lists(pick, min_size=1, max_size=4), min_size=1, max_size=4), **kw)


def plays():
    g = book.Gen(plays=3, meta=4, metas=["refresh_inventory", "refresh_inventory", "end_play", "end_host", "flush_handlers", "end_batch"], lead=("act", "meta", "inct", "incr"), lo=2, cli=False)
    return st.tuples(g.program(), spec(bps_=ss.bps(2, 5)))


def errors():
    g = book.Gen(outs=["ok", "changed", "fail:h1", "unreach:h2", "skip"], inct=4, block=4, lead=("inct", "incr"), lo=2, cli=False)
    return st.tuples(g.program(), spec(bps_=ss.bps(2, 5), filters_=st.just(["on_error", "on_unreachable", "on_skipped"])))


TESTS = [
    Test("plays", plays, t_ids, quick=1500, thorough=40000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
    Test("errors", errors, t_ids, quick=1500, thorough=40000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
]
