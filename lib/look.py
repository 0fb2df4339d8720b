"""Inspection of a stopped session: scopes, variables, expressions."""
from __future__ import annotations

from vf import Violation, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import dap

EXPRS = [
    "counter | default(0)",
    "inventory_hostname",
    "nothing_at_all",
    "1 +",
    "hostvars[inventory_hostname].keys() | list | length",
    "play_hosts",
    "{'a': [1, {'b': none}]}",
    "lookup('env', 'HOME')",
    "reg.msg",
    "vars | length",
    "1/0",
    "item | default('none')",
    "!t counter | default(0)",
    "!template iv",
    "!x y",
    "! 'open",
]

# ("scopes", frame), ("expand", frame, scope, picks), ("eval", frame, expression, context), ("stack", thread), ("source",)
op = st.one_of(
    st.tuples(st.just("scopes"), st.integers(0, 3)),
    st.tuples(st.just("expand"), st.integers(0, 3), st.integers(0, 4), st.lists(st.integers(0, 60), max_size=3)),
    st.tuples(st.just("eval"), st.integers(0, 3), st.integers(0, len(EXPRS) - 1), st.sampled_from(["repl", "watch", "clipboard", "variables", "hover"])),
    st.tuples(st.just("threads")),
)
ops = st.lists(op, max_size=4)


def answer(d, req, kind):
    r = d.ask(req)
    if not isinstance(r, kind):
        raise Violation(f"{req!r} is answered with {r!r}")
    return r


def expand(d, ref, picks):
    """The variables under a reference, going down by `picks`."""
    r = answer(d, dap.VariablesRequest(variables_reference=ref), dap.VariablesResponse)
    got = [r]
    for i in picks:
        inner = [v for v in r.variables if v.variables_reference]
        if not inner:
            break
        r = answer(d, dap.VariablesRequest(variables_reference=inner[i % len(inner)].variables_reference), dap.VariablesResponse)
        got.append(r)
    return got


def perform(d, stop, todo):
    frames = stop["stacks"][stop["tid"]]
    for o in todo:
        if o[0] == "threads":
            answer(d, dap.ThreadsRequest(), dap.ThreadsResponse)
            continue
        if not frames:
            continue
        f = frames[o[1] % len(frames)][0]
        if o[0] == "scopes":
            answer(d, dap.ScopesRequest(frame_id=f), dap.ScopesResponse)
        elif o[0] == "expand":
            scopes = answer(d, dap.ScopesRequest(frame_id=f), dap.ScopesResponse).scopes
            expand(d, scopes[o[2] % len(scopes)].variables_reference, o[3])
        elif o[0] == "eval":
            answer(d, dap.EvaluateRequest(expression=EXPRS[o[2]], context=o[3], frame_id=f), dap.EvaluateResponse)
