"""C15: debugging does not change what the playbook does."""
from __future__ import annotations

import book
import look
import pb
import session as ss
from session import st
from vf import Recorder, Test

PROPERTY = "C15"
TECHNIQUE = "differential property testing: generated playbooks are run under the debugger, with generated inspection and resume requests, and under the plain linear strategy, and every callback event, result and effect compared"
LEVEL = "exploration"
LEVEL_NOTE = "Real ansible-playbook runs of generated playbooks with and without the debugger are compared event by event."
RULE = (
    "A case is a generated playbook (includes, imports, roles, blocks, rescue, handlers, loops, run_once, delegation, metas, several hosts, plays and "
    "batches, failing, unreachable and crashing tasks, tags, limits, check mode) and a session with breakpoints, exception filters, resume requests and "
    "inspections (scopes, expanded variables, expressions). Every callback event with its result, every execution of a task with its arguments, and the exit "
    "status have to be those of a run with the plain linear strategy: the playbook level events in the same order, results in the same order for each host. "
    "Non-trivial: a session with a stop over a run with five events or more."
)
ASSUMPTIONS = [
    "the order of the results of different hosts for one task is not determined by Ansible and is not compared",
    "times (start, end, delta) and gathered facts' values are not compared",
]
BUDGET_S = {"quick": 60, "thorough": 2400}
GRACE_S = 240
worker_teardown = pb.teardown


def t_same(case, rec: Recorder):
    looks = case[1].get("looks") or [[]]

    def inspect(session, d, stop):
        look.perform(d, stop, looks[stop["index"] % len(looks)])

    ref, s, m = ss.run_case(case[:2], rec, (), compare=True, inspect=inspect)
    rec.tag("stops", len(s.stops))
    rec.tag("inspections", sum(len(looks[i % len(looks)]) for i in range(len(s.stops))))
    if s.stops and len(ref.plain.events) >= 5:
        rec.nontrivial()


def spec(**kw):
    return ss.spec(bps_=ss.bps(0, 4), looks=st.lists(look.ops, min_size=1, max_size=3), all_stacks=st.booleans(), **kw)


def any_program():
    return st.tuples(book.Gen(lo=2, missing=1).program(), spec())


def hard():
    """Failures, handlers and metas in nested blocks."""
    g = book.Gen(lo=2, outs=["ok", "changed", "fail", "fail:h1", "fail:h2,h3", "unreach:h2", "crash", "skip"], block=6, meta=3, act=8, missing=1, inct=2, lead=("block", "inct"))
    return st.tuples(g.program(), spec())


def facts():
    """The real modules: ping, setup."""
    g = book.Gen(act=4, real=4, facts=8, plays=2, hosts=2, depth=2, cli=False)
    return st.tuples(g.program(), spec())


TESTS = [
    Test("any", any_program, t_same, quick=1500, thorough=40000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
    Test("hard", hard, t_same, quick=1500, thorough=40000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
    Test("facts", facts, t_same, quick=300, thorough=4000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
]
TESTS[2].share = 0.4
