"""Programs with interesting variables and options, and a debug session that
looks at them and changes them at every task (C18, C19)."""
from __future__ import annotations

import datetime

import yaml

from vf import Violation, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import dap
import pb

LIMIT = 150  # nodes that are looked at below one scope

# -- values -------------------------------------------------------------------
WORDS = ["", "a", "b c", "it's", 'say "q"', "naïve ☃", "x\ny", "a\\b", "%s", "yes", "1", "None", "[1, 2", "{k", "#c", "\t", "key: v", "C:\\dir", "é\u0301", "\U0001f600", "x" * 90]
SAFE_WORDS = ["", "a", "b c", "naïve ☃", "x y z", "w-1", "ping", "key: v", "it's", "a\\b"]
ints = st.one_of(st.integers(-3, 3), st.sampled_from([2**31, -(2**63), 10**20, 0o755]))
floats = st.sampled_from([0.5, -1.25, 1e300, 3.0, 1e-7])
plain = st.one_of(ints, floats, st.booleans(), st.none(), st.sampled_from(WORDS))
keys = st.one_of(st.sampled_from(["k", "a", "b c", "é", "0", "-", ""]), st.sampled_from(["k", "a", "x.y"]), st.integers(-1, 3), st.booleans(), st.none(), st.sampled_from([1.5]))


def uniq(pairs):
    """A dict of the pairs whose keys are shown differently."""
    out, seen = {}, set()
    for k, v in pairs:
        if str(k) not in seen and k not in out:
            seen.add(str(k))
            out[k] = v
    return out


def nest(leaf, kk=keys, tuples=False):
    def more(inner):
        c = [st.lists(inner, max_size=3), st.lists(st.tuples(kk, inner), max_size=3).map(uniq), st.lists(st.tuples(kk, inner), min_size=1, max_size=3).map(uniq)]
        if tuples:
            c.append(st.lists(inner, max_size=3).map(tuple))
        return st.one_of(*c)

    return st.recursive(leaf, more, max_leaves=7)


def box(inner, kk=keys, tuples=False):
    """A container that has an entry."""
    return st.one_of(st.lists(st.tuples(kk, inner), min_size=1, max_size=4).map(uniq), st.lists(st.tuples(kk, inner), min_size=1, max_size=4).map(uniq), st.lists(inner, min_size=1, max_size=3))


# In a YAML file.
yamls = nest(st.one_of(plain, plain, st.sampled_from(["@date", "@time", b"\x00\xff bytes", b""])))
# As a Python value made by a module.
pys = nest(st.one_of(plain, plain, st.sampled_from([2j])), tuples=True)
# With one outcome in every representation.
edit_leaf = st.one_of(st.integers(-3, 300), st.sampled_from([0.5, -1.25]), st.booleans(), st.none(), st.sampled_from(SAFE_WORDS))
simple_keys = st.one_of(st.sampled_from(["k", "a", "b c", "é", "n"]), st.integers(0, 3), st.booleans())
edits = nest(edit_leaf, simple_keys)


def real(x):
    """The value a literal stands for."""
    if isinstance(x, dict):
        return {k: real(v) for k, v in x.items()}
    if isinstance(x, list):
        return [real(v) for v in x]
    return {"@date": datetime.date(2020, 2, 29), "@time": datetime.datetime(2021, 3, 4, 5, 6, 7)}.get(x, x) if isinstance(x, str) else x


def literal(x):
    """The value as an expression."""
    if isinstance(x, dict):
        return "{" + ", ".join(f"{literal(k)}: {literal(v)}" for k, v in x.items()) + "}"
    if isinstance(x, list):
        return "[" + ", ".join(map(literal, x)) + "]"
    if isinstance(x, str):
        # Ansible takes a backslash as it is.
        q = '"' if "'" in x else "'"
        return q + x + q
    return repr(x)


def view(x):
    """What is shown for a value: [repr, type name, children or None]."""
    if isinstance(x, str):
        return [repr(x), "str", None]
    if isinstance(x, dict):
        return [repr(x), "dict", [[str(k), view(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [repr(x), type(x).__name__, [[str(i), view(v)] for i, v in enumerate(x)]]
    return [repr(x), type(x).__name__, None]


# -- the session --------------------------------------------------------------
def ask(d, req, kind):
    r = d.ask(req)
    if not isinstance(r, kind):
        raise Violation(f"{req!r} is answered with {getattr(r, 'message', r)!r}")
    return r


def scopes(d, frame):
    """{name: scope}"""
    r = ask(d, dap.ScopesRequest(frame_id=frame), dap.ScopesResponse)
    return {s.name: s for s in r.scopes}


def children(d, ref):
    """{name: variable}, in order"""
    r = ask(d, dap.VariablesRequest(variables_reference=ref), dap.VariablesResponse)
    out = {}
    for v in r.variables:
        if v.name in out:
            # Two keys that are shown alike.
            out[v.name] = None
        else:
            out[v.name] = v
    return out


def expand(d, var, what, budget=None):
    """The view of a shown variable, down to its last child."""
    budget = budget if budget is not None else [LIMIT]
    kids = None
    if var.variables_reference:
        r = ask(d, dap.VariablesRequest(variables_reference=var.variables_reference), dap.VariablesResponse)
        counts = (var.named_variables or 0, var.indexed_variables or 0)
        n = len(r.variables)
        want = (n, 0) if var.type == "dict" else (0, n)
        require(counts == want, lambda: f"{what} is a {var.type} of {n} entries with the counts (named, indexed) {counts}")
        kids = []
        for v in r.variables:
            budget[0] -= 1
            if budget[0] < 0:
                return None
            x = expand(d, v, f"{what} . {v.name}", budget)
            if x is None:
                return None
            kids.append([v.name, x])
    else:
        require(not var.named_variables and not var.indexed_variables, lambda: f"{what} has entries and no reference: {var!r}")
    return [var.value, var.type, kids]


def has(v, kind):
    """Whether a value of the type is in the view."""
    return v[1] == kind or any(has(x, kind) for _, x in v[2] or [])


def norm(v):
    """A view where an empty container may have no reference."""
    if v is None:
        return None
    return [v[0], v[1], [[n, norm(x)] for n, x in v[2]] if v[2] else None]


def same(shown, want, what):
    require(norm(shown) == norm(want), lambda: f"{what} is shown as {brief(shown)}, it is {brief(want)}")


def brief(v):
    s = repr(v)
    return s if len(s) < 1500 else s[:1500] + "..."


class Stops:
    """Runs the program under the debugger and calls `at(d, host, label, frame, event)` at each stop."""

    def __init__(self, project, args, lines, filters=(), mode="listen"):
        self.project, self.args, self.lines, self.filters, self.mode = project, args, lines, filters, mode

    def run(self, at, limit=60):
        with pb.Debug(self.project, self.args, self.mode, wait=True) as d:
            self.count = 0
            if d.connected:
                d.configure([], [(f"{self.project.dir}/{f}", ls) for f, ls in self.lines.items()], self.filters)
                d.done()
                while True:
                    ev = d.next_stop()
                    if ev is None:
                        break
                    r = ask(d, dap.ThreadsRequest(), dap.ThreadsResponse)
                    host = {t.id: t.name for t in r.threads}[ev.thread_id]
                    frames = ask(d, dap.StackTraceRequest(thread_id=ev.thread_id), dap.StackTraceResponse).stack_frames
                    self.count += 1
                    if self.count <= limit:
                        at(d, host, frames[0].name, frames[0].id, ev)
                    r = d.ask(dap.ContinueRequest(thread_id=ev.thread_id, single_thread=True))
                    require(r is None or isinstance(r, dap.ContinueResponse), lambda: f"a continue is answered with {r!r}")
            self.code = d.finish()
            self.seen = d.run.lines("effects.see")
            self.events = d.run.lines("events")
            self.text = d.run.text()
        return self


def lines_of(text):
    """The lines tasks start at."""
    return [i for i, line in enumerate(text.split("\n"), 1) if line.lstrip().startswith("- name: T")]


def dump(x):
    return yaml.safe_dump(x, sort_keys=False, width=1000, allow_unicode=True)
