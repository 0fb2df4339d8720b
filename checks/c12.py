"""C12: path mappings are applied consistently in both directions."""
from __future__ import annotations

import os
import pathlib

from vf import HarnessError, Recorder, Test, Violation, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import _debuggee as dbgm
from ansibug import dap
import state
from c11 import set_request
from chan import Bg
from dbg import Link

PROPERTY = "C12"
TECHNIQUE = "property-based testing against a component-wise reference mapping, and a round-trip relation, over the real connection and real Ansible tasks"
LEVEL_NOTE = "Random search over mapping lists and paths built from names that are prefixes of each other."
RULE = (
    "A case is a list of mappings with client paths, loaded files and tasks. "
    "Non-trivial: at least one path is mapped, or a root is a string prefix of a path without being its parent."
)
ASSUMPTIONS = ["Paths are absolute POSIX paths without . and .. components.", "The round trip is only required when no root lies inside another root of its side."]
BUDGET_S = {"quick": 40, "thorough": 900}

part = st.sampled_from(["a", "ab", "b", "a b", "a.b", "é", "roles"])
comps = st.lists(part, min_size=1, max_size=3)
root = st.tuples(st.sampled_from(["/", "/", "/", "/x"]), st.lists(part, max_size=2), st.sampled_from(["", "", "/"])).map(lambda t: (t[0].rstrip("/") + "".join("/" + c for c in t[1]) + t[2]) or "/")
mapping = st.tuples(root, root)
mappings = st.lists(mapping, max_size=3)
fname = st.sampled_from(["main.yml", "a", "ab", "m.yml"])
path = st.tuples(st.sampled_from(["", "/x"]), st.lists(part, max_size=3), fname).map(lambda t: t[0] + "".join("/" + c for c in t[1]) + "/" + t[2])


def parts(p):
    return [x for x in p.split("/") if x]


def ref_map(p, pairs):
    """The first root, by whole components, that holds the path is replaced."""
    for a, b in pairs:
        ra = parts(a)
        if parts(p)[: len(ra)] == ra:
            return "/" + "/".join(parts(b) + parts(p)[len(ra):])
    return p


def inside(a, b):
    return parts(b)[: len(parts(a))] == parts(a)


cases = st.tuples(mappings, st.lists(path, min_size=1, max_size=4), st.lists(path, max_size=3), st.integers(0, 12))


def near(p, maps):
    return any(p.startswith(x) and not inside(x, p) for m in maps for x in m)


def answers(case, rec: Recorder):
    maps, paths, others, when = case
    roots = [parts(x) for m in maps for x in m]  # a root is no file
    paths = [p for p in dict.fromkeys(paths) if parts(p) not in roots]
    others = [p for p in others if parts(p) not in roots]
    if any(ref_map(p, maps) != p or near(p, maps) for p in paths):
        rec.nontrivial()
    back = [(b, a) for a, b in maps]
    with Link(config=maps) as link:
        d = link.debugger
        for p in others:
            d.register_path_breakpoint(p, 3, 1)
        bps = {}
        for i, p in enumerate(paths):
            actual = ref_map(p, maps)
            early = (i + when) % 2 == 0
            if early:
                d.register_path_breakpoint(actual, 2 + i, 1)
            resp = link.ask(set_request(p, [2 + i]))
            require(isinstance(resp, dap.SetBreakpointsResponse) and len(resp.breakpoints) == 1, lambda: f"answered {resp!r}")
            bp = resp.breakpoints[0]
            require(bp.source and bp.source.path == p, lambda: f"answered for {bp.source!r} instead of {p!r}")
            if early:
                require(bp.verified, lambda: f"{p!r} with {maps!r} is the loaded {actual!r}, answered {bp!r}")
            elif actual not in others and actual not in [ref_map(x, maps) for x in paths[:i]]:
                require(not bp.verified, lambda: f"{p!r} with {maps!r} is {actual!r}, which is not loaded, answered {bp!r}")
                at = len(link.rec.got)
                d.register_path_breakpoint(actual, 2 + i, 1)
                link.barrier()
                ev = [m for m in link.rec.got[at:] if isinstance(m, dap.BreakpointEvent) and m.breakpoint.id == bp.id]
                require(len(ev) == 1 and ev[0].breakpoint.verified and ev[0].breakpoint.source.path == p, lambda: f"loading {actual!r} for {p!r} with {maps!r} sent {ev!r}")
            else:
                d.register_path_breakpoint(actual, 2 + i, 1)
            bps[bp.id] = (p, actual)
            hit = d.get_breakpoint(actual, 2 + i)
            require(hit is not None and bps.get(hit.id, (0, 0))[1] == actual, lambda: f"no breakpoint is hit at {actual!r}, set for {p!r} with {maps!r}")
        actuals = {a for _, a in bps.values()}
        for p in [*paths, *others]:
            if p not in actuals:
                hit = d.get_breakpoint(p, 2)
                require(hit is None, lambda: f"a breakpoint for {bps} with {maps!r} is hit in {p!r}")
            c = d.convert_to_client_path(p)
            require(parts(c) == parts(ref_map(p, back)) and c == ref_map(p, back), lambda: f"{p!r} with {maps!r} is shown as {c!r}, expected {ref_map(p, back)!r}")
        # There and back.
        unamb = all(i == j or not inside(x, y) for s in (0, 1) for i, x in enumerate([m[s] for m in maps]) for j, y in enumerate([m[s] for m in maps]))
        if unamb and maps:
            for p in paths:
                if any(inside(a, p) for a, _ in maps):
                    rec.tag("round trip")
                    c = d.convert_to_client_path(ref_map(p, maps))
                    require(c == p, lambda: f"{p!r} with {maps!r} comes back as {c!r}")


# -- stack frames and stops with real tasks ----------------------------------

real_cases = st.tuples(
    st.lists(part, min_size=1, max_size=3),  # the directories of the playbook
    st.integers(0, 3),  # how much of it is the remote root
    st.sampled_from(["", "/"]),
    root,  # the local root
    st.lists(mapping, max_size=2),
    st.booleans(),  # others first
    st.sampled_from(["main.yml", "ab"]),
)


def frames(case, rec: Recorder):
    dirs, depth, slash, local, more, first, name = case
    mod = state.strategy_module()
    with Link() as link:
        base = os.path.realpath(link.scratch.path)
        pdir = os.path.join(base, *dirs)
        os.makedirs(pdir)
        file = os.path.join(pdir, name)
        pathlib.Path(file).write_text("- hosts: all\n  gather_facts: false\n  tasks:\n  - name: one\n    ping:\n  - name: two\n    ping:\n")
        remote = os.path.join(base, *dirs[:depth]) + slash
        # The other roots are placed next to the real directories.
        others = [(a, base + b) for a, b in more]
        maps = [*others, (local, remote)] if first else [(local, remote), *others]
        link.configure(maps)
        if any(parts(x) == parts(file) for m in maps for x in m):
            return  # a root is no file
        back = [(b, a) for a, b in maps]
        shown = ref_map(file, back)
        rec.nontrivial()
        world = state.World(file)
        tasks = world.tasks()
        require(len(tasks) == 2, "harness")
        ds = mod.AnsibleDebugState(link.debugger, world.loader, world.vm)
        from ansible_collections.ansibug.dap.plugins.plugin_utils._breakpoints import register_play_breakpoints

        register_play_breakpoints(link.debugger, world.playbook.get_plays())
        host = world.hosts[0]
        unamb = ref_map(shown, maps) == file
        with link.debugger.with_strategy(ds):
            resp = link.ask(set_request(shown, [7]))
            if unamb:
                require(resp.breakpoints[0].verified, lambda: f"{shown!r} is shown, with {maps!r} a breakpoint there is answered {resp!r}")
            else:
                link.ask(set_request(shown, []))
                return
            play, task = tasks[1]
            b = Bg(lambda: ds.start_task(host, task, world.vars(play, host, task)))
            link.wait(lambda: any(isinstance(m, dap.StoppedEvent) for m in link.rec.got), f"a stop for a breakpoint in {shown!r} with {maps!r}")
            stop = [m for m in link.rec.got if isinstance(m, dap.StoppedEvent)][0]
            r = link.ask(dap.StackTraceRequest(thread_id=stop.thread_id, start_frame=0, levels=0))
            require(isinstance(r, dap.StackTraceResponse), lambda: f"answered {r!r}")
            src = r.stack_frames[0].source
            require(src.path == shown and src.name == os.path.basename(shown) and r.stack_frames[0].line == 6, lambda: f"{file!r} with {maps!r} is shown as {src!r}:{r.stack_frames[0].line}, expected {shown!r}:6")
            link.ask(dap.ContinueRequest(thread_id=stop.thread_id, single_thread=False))
            b.result(30, "continuing")


TESTS = [
    Test("answers", lambda: cases, answers, quick=2400, thorough=120000, case_timeout=120),
    Test("frames", lambda: real_cases, frames, quick=1500, thorough=60000, case_timeout=120),
]
