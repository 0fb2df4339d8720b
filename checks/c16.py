"""C16: breakpoints and steps stop exactly where they should."""
from __future__ import annotations

import book
import pb
import session as ss
from session import st
from vf import Recorder, Test

PROPERTY = "C16"
TECHNIQUE = "model-based property testing: generated playbooks and debug sessions run with ansible-playbook, every stop predicted by a reference model from a plain run"
LEVEL = "exploration"
LEVEL_NOTE = "Every stop of real sessions over generated playbooks is predicted by a model from what the plain linear strategy did."
RULE = (
    "A case is a generated playbook (nested and looped includes, imports, roles, blocks with rescue and always, handlers, metas, several hosts, "
    "plays and batches, failing and unreachable tasks, tags and limits) and a session: breakpoints with and without conditions, exception filters "
    "and a script of continue (one or all threads), next, step in and step out, with breakpoints changed at stops. The playbook is run with the plain "
    "linear strategy to record every task of every host with its include chain and the truth of the conditions; from that a model predicts each stop "
    "of the debugged run: where, for which thread, why and with which breakpoint, and that there is no other. Non-trivial: a session with two stops "
    "or more, one of them by a step or a breakpoint with a condition."
)
ASSUMPTIONS = [
    "a breakpoint is set on the first line of a task or on the line after it",
    "continue for all threads is not used at exception stops, where the other threads' progress depends on timing",
    "filters are changed during a session only with a single host, for the same reason",
]
BUDGET_S = {"quick": 75, "thorough": 2400}
GRACE_S = 240
worker_teardown = pb.teardown


def t_session(case, rec: Recorder):
    ref, s, m = ss.run_case(case, rec, ("stops",))
    if len(s.stops) > 1 and (m.counts["over"] or m.counts["in"] or m.counts["out"] or any(b["cond"] is not None for b in s.bps)):
        rec.nontrivial()


QUIET = ["ok", "ok", "ok", "changed", "skip", "fail:h2,h3"]


def walks():
    """Stepping from the first tasks on through deep includes."""
    g = book.Gen(outs=QUIET, act=8, meta=1, metas=["flush_handlers", "noop", "refresh_inventory", "end_role", "clear_facts"], misc=0, inct=4, incr=2, inch=1, hosts=2, cli=False, fatal=False, plays=2, lead=("inct", "incr", "incs", "inch", "block"), lo=2, hi=5)
    steps = ["next", "next", "in", "in", "in", "out", "cont"]
    return st.tuples(g.program(), ss.spec(steps, st.lists(st.tuples(st.integers(0, 3), st.just(0), st.none()), min_size=1, max_size=2), st.just([]), 3, 14))


def points():
    g = book.Gen(inct=3, incr=2, hosts=3, lead=("inct", "incr", "inch", "block", "impt"), lo=2)
    return st.tuples(g.program(), ss.spec(["cont", "cont", "contall", "next", "out"], ss.bps(2, 6), st.just([])))


def mixed():
    return st.tuples(book.Gen(lo=2, hi=5, lead=("inct", "block", "incr", "act")).program(), ss.spec(bps_=ss.bps(1, 5)))


TESTS = [
    Test("walks", walks, t_session, quick=1500, thorough=40000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
    Test("breakpoints", points, t_session, quick=1500, thorough=40000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
    Test("mixed", mixed, t_session, quick=1500, thorough=40000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
]
