"""C17: the stack trace is the task plus the includes it is in."""
from __future__ import annotations

import book
import pb
import session as ss
from session import st
from vf import Recorder, Test

PROPERTY = "C17"
TECHNIQUE = "model-based property testing: generated playbooks and debug sessions run with ansible-playbook, the stack of every thread at every stop compared with the include chain recorded in a plain run"
LEVEL = "exploration"
LEVEL_NOTE = "The stacks of all threads at every stop of real sessions are compared with the task tree of a plain run."
RULE = (
    "A case is a generated playbook with deep, looped, per host and role includes in blocks, rescue sections and handlers, failing tasks and several hosts, and a "
    "session of breakpoints, steps and exception stops. At every stop the stack trace of the stopped thread has to be the task and its chain of dynamic includes "
    "(name, file, line), as recorded in a run with the plain linear strategy, and that of every other thread the task it is in, or the includes it is in. "
    "Non-trivial: a session with a stop in an include."
)
ASSUMPTIONS = [
    "at an exception stop, another thread may have its current or the next task of the same lockstep round on its stack",
]
BUDGET_S = {"quick": 60, "thorough": 2400}
GRACE_S = 240
worker_teardown = pb.teardown


def t_stacks(case, rec: Recorder):
    ref, s, m = ss.run_case(case, rec, ("stacks", "others"))
    deep = [len(x["stacks"][x["tid"]]) for x in s.stops]
    if deep and max(deep) > 1:
        rec.nontrivial()
    for n in deep:
        rec.tag("stops with %d frames" % n)
    rec.tag("stacks of other threads", sum(len(x["stacks"]) - 1 for x in s.stops))


DEEP = dict(inct=5, incr=3, incs=2, inch=2, act=6, set=0, dbg=0, misc=0, lead=("inct", "incr", "block"), lo=2, hi=4, cli=False)


def walks():
    g = book.Gen(outs=["ok", "ok", "ok", "changed", "fail:h2,h3"], metas=["flush_handlers", "refresh_inventory", "end_role"], fatal=False, **DEEP)
    return st.tuples(g.program(), ss.spec(["next", "in", "in", "in", "out", "cont"], st.lists(st.tuples(st.integers(0, 8), st.just(0), st.none()), min_size=1, max_size=3), st.just([]), 3, 14))


def errors():
    """Exception stops in includes, rescue sections and handlers."""
    g = book.Gen(outs=["ok", "changed", "fail", "fail:h1", "unreach:h2", "skip"], block=5, **{**DEEP, "inct": 4})
    return st.tuples(g.program(), ss.spec(["cont", "next", "in", "out"], ss.bps(1, 3), st.just(["on_error", "on_unreachable", "on_skipped"])))


TESTS = [
    Test("walks", walks, t_stacks, quick=1500, thorough=40000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
    Test("errors", errors, t_stacks, quick=1500, thorough=40000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
]
