"""C20: exception breakpoints stop on exactly the unhandled results asked for."""
from __future__ import annotations

import book
import pb
import session as ss
from session import st
from vf import Recorder, Test

PROPERTY = "C20"
TECHNIQUE = "model-based property testing: generated failing playbooks run with ansible-playbook and exception filters, every stop and its text predicted from the results of a plain run"
LEVEL = "exploration"
LEVEL_NOTE = "Every exception stop of real sessions is predicted from the results and the block structure of a plain run."
RULE = (
    "A case is a generated playbook with failing, unreachable, skipped, crashing, ignored and rescued tasks in nested blocks, rescue and always sections, includes, roles and "
    "handlers on several hosts, and a session with any set of exception filters, changed during the session with a single host. The stops have to be exactly those "
    "that the results of a plain run and the sections the tasks are in call for, with the message of the result. "
    "Non-trivial: a session with an exception stop, or with a rescued, ignored or filtered result that is not to stop."
)
ASSUMPTIONS = [
    "a handler counts as being where the handlers were flushed",
    "filters are changed during a session only with a single host",
]
BUDGET_S = {"quick": 60, "thorough": 2400}
GRACE_S = 240
worker_teardown = pb.teardown


def t_filters(case, rec: Recorder):
    ref, s, m = ss.run_case(case, rec, ("stops", "text"))
    bad = [x for x in ref.steps if x["result"] and (x["result"]["failed"] or x["result"]["unreachable"] or x["result"]["skipped"])]
    for x in bad:
        r = x["result"]
        kind = "failed" if r["failed"] else "unreachable" if r["unreachable"] else "skipped"
        rec.tag("results: " + kind + (" rescued" if r["failed"] and x["rescued"] else "") + (" ignored" if r["ie"] and r["failed"] or r["iu"] and r["unreachable"] else ""))
    if bad:
        rec.nontrivial()


OUTS = ["ok", "ok", "fail", "fail:h1", "fail:h2,h3", "unreach:h2", "unreach:h1", "unreach:h1,h2,h3", "skip", "skip:h1", "failnomsg", "crash"]
ALL = ["on_error", "on_unreachable", "on_skipped"]
some = st.one_of(st.just(ALL), st.lists(st.sampled_from(ALL), min_size=1, max_size=2, unique=True), st.just([]))


def nested():
    g = book.Gen(outs=OUTS, more=["iu"] * 4 + ["when"] * 3, block=8, act=8, inct=2, incr=1, set=0, dbg=0, incs=1, inch=1, lead=("block",), lo=1, hi=4, cli=False)
    return st.tuples(g.program(), ss.spec(["cont", "cont", "next"], ss.bps(0, 1), some))


def single():
    """One host, filters that change."""
    g = book.Gen(outs=OUTS, more=["iu"] * 4 + ["when"] * 3, block=6, act=8, hosts=1, lead=("block", "inct", "incr"), lo=2, cli=False)
    changes = st.lists(st.tuples(st.sampled_from(["cont", "next"]), st.one_of(st.none(), st.tuples(st.just("filters"), some))), min_size=1, max_size=6)
    return st.tuples(g.program(), ss.spec(bps_=ss.bps(1, 3), filters_=some, script=changes))


def handlers():
    """Handlers that fail, flushed in and out of rescued blocks."""
    g = book.Gen(outs=["ok", "changed", "changed", "changed", "fail", "fail:h1"], block=6, act=10, inct=2, incr=2, meta=5, metas=["flush_handlers"], set=0, dbg=0, misc=0, lead=("block",), lo=2, cli=False, fatal=False)
    return st.tuples(g.program(), ss.spec(["cont"], ss.bps(0, 0), st.just(["on_error"]), change=False))


TESTS = [
    Test("nested", nested, t_filters, quick=1500, thorough=40000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
    Test("single", single, t_filters, quick=1500, thorough=40000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
    Test("handlers", handlers, t_filters, quick=800, thorough=20000, case_timeout=400, shrink_s=60, confirm=3, slow=True),
]
TESTS[2].share = 0.6
