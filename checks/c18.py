"""C18: variables shown and expressions evaluated match what the task sees."""
from __future__ import annotations

import yaml

from ansibug import dap
import data
import pb
from data import ask, children, expand, norm, same, scopes, st
from vf import Recorder, Test, Violation, require

PROPERTY = "C18"
TECHNIQUE = "property-based testing: generated variables, options and expressions in real debug sessions; what the client is shown compared with what the executed task itself reports to see, and the run with one without a debugger"
LEVEL = "exploration"
LEVEL_NOTE = "The oracle is the task: it reports its options, variables and the values of the expressions from within its own process."
RULE = (
    "A case is a playbook with generated values (nested lists, dicts with keys of any type, tuples, bytes, dates, sets, vaulted text, templates, templates that are undefined or fail) as inventory, play, set, registered and task variables "
    "and options, and generated expressions. At every task the scopes are expanded to the last child and the expressions evaluated; names, order, texts, types and counts must be those of the values the task sees. "
    "Non-trivial: a container with a child was compared."
)
ASSUMPTIONS = [
    "Expressions are evaluated with native types, as the debugger documents by always using them.",
    "The counts and references of empty containers are not judged beyond agreeing with each other.",
]
BUDGET_S = {"quick": 60, "thorough": 2400}
GRACE_S = 240
worker_teardown = pb.teardown

VAULT = """$ANSIBLE_VAULT;1.1;AES256
61363033663966373733356133356362313939653863323332643430316136626632663239353363
3037323535386437333835316663333233653739623134340a623030666239333961613033333662
64626637643532376633643561346230656530386238383533313638303766333838323532356535
6438356362616466390a616433646661663463663432666233623662373939363539623831613239
3837
"""
POOL = ["iv", "pv", "fv", "rv", "tv", "tm", "tn", "bad", "und", "vt", "groups"]
TEMPLATES = ["{{ iv }}", "{{ pv }}", "x {{ inventory_hostname }}", "{{ [1, inventory_hostname] }}", "{{ {'a': iv} }}", "{{ fv | default('none') }}", "{{ groups['all'] | length }}"]
BROKEN = ["{{ 1/0 }}", "{{ 1 + }}", "{{ lookup('nothing_like_it') }}", "{{ 'x' | nofilter }}", "{% if %}"]
UNDEFINED = ["{{ nothing_like_it }}", "a {{ nothing.x }}", "{{ iv.nothing.like.it }}"]
EXPRS = [
    "1 + 1", "'5'", "'a' ~ inventory_hostname", "nothing_like_it", "1 +", "1/0", "iv", "pv", "rv.py", "rv.data | default('x')", "iv is mapping", "pv | type_debug", "iv | string | length", "fv", "tv", "tm", "tn | default('d')", "und", "bad",
    "hostvars[inventory_hostname].iv", "hostvars | length", "hostvars['h1'].keys() | list | length", "groups", "play_hosts", "{'a': [1, {'b': none}]}", "('a', 2)", "[]", "none", "true and iv", "[1, 2, 3][1:]", "range(3)", "range(3) | list",
    "'%s' % 3", "lookup('env', 'LC_ALL')", "lookup('nothing_like_it')", "iv | nofilter", "vars.pv", "vars['iv'] | default(3)", "vt", "vt ~ '!'", "rv.py | to_json", "omit is defined", "item | default('none')", "''", "'None'", "[iv, pv]",
    "query('items', [1, 2])", "pv[0] | default('none')", "pv.keys() | list", "iv | first", "now().year > 2000", "ansible_check_mode", "environment | default('e')", "'\\u2603' ~ 'x'", "3.0 * 2", "10 ** 20", "rv.py == iv", "'a\\nb'", "'  x '",
]
exprs = st.lists(st.sampled_from(EXPRS), max_size=6)
val = st.one_of(data.yamls, data.box(data.yamls), data.box(data.yamls))
option = st.one_of(val, val, st.sampled_from(TEMPLATES), data.nest(st.one_of(st.sampled_from(TEMPLATES), data.plain), st.sampled_from(["a", "b", "c"])))
task = st.fixed_dictionaries(
    dict(opts=st.lists(st.tuples(st.sampled_from(["data", "o1", "o 2", "é"]), option), max_size=3).map(data.uniq), ev=exprs, tv=val),
    optional=dict(py=st.one_of(data.pys, data.box(data.pys)), tn=st.sampled_from(TEMPLATES), out=st.sampled_from(["fail", "skip", "unreach", "changed"]), lost=st.sampled_from(BROKEN + UNDEFINED), inc=st.just(True)),
)


def programs():
    return st.fixed_dictionaries(
        dict(hosts=st.integers(1, 2), iv=val, pv=val, tasks=st.lists(task, min_size=1, max_size=3), scopes=st.lists(st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True), min_size=1, max_size=3)),
        optional=dict(fv=val, tm=st.sampled_from(TEMPLATES), pool=st.booleans(), bad=st.sampled_from(BROKEN), und=st.sampled_from(UNDEFINED), vt=st.just(True), hbad=st.booleans(), ctx=st.sampled_from(["repl", "clipboard", "variables"])),
    )


class Vault(str):
    pass


yaml.SafeDumper.add_representer(Vault, lambda d, x: d.represent_scalar("!vault", str(x), style="|"))


def project(case):
    """(files, arguments, breakpoint lines)"""
    hosts = ["h%d" % (i + 1) for i in range(case["hosts"])]
    inv = {"iv": data.real(case["iv"])} if "iv" in case else {}
    pv = {"pv": data.real(case["pv"])} if "pv" in case else {}
    for k in ("tm", "bad", "und"):
        if k in case:
            (inv if case.get("hbad") else pv)[k] = case[k]
    if "vt" in case:
        pv["vt"] = Vault(VAULT)
    play = {"hosts": "all", "gather_facts": False, "vars": pv, "tasks": []}
    files = {}
    if "fv" in case:
        play["tasks"].append({"name": "setup", "set_fact": {"fv": data.real(case["fv"])}})
    for n, t in enumerate(case["tasks"]):
        # Only what can be templated for a task is run by it.
        args = {"label": "T%d" % n, "see": POOL, "ev": t["ev"], **{k: data.real(v) for k, v in t["opts"].items()}}
        if "py" in t:
            args["py"] = repr(t["py"])
        if "out" in t:
            args["out"] = t["out"]
        if "lost" in t:
            args["lost"] = t["lost"]
        d = {"name": "T%d" % n, "vact": args, "register": "rv", "vars": {}}
        if "tv" in t:
            d["vars"]["tv"] = data.real(t["tv"])
        if "tn" in t:
            d["vars"]["tn"] = t["tn"]
        if t.get("inc"):
            files["inc%d.yml" % n] = data.dump([d])
            d = {"name": "inc", "include_tasks": "inc%d.yml" % n}
        play["tasks"].append(d)
    files["main.yml"] = data.dump([play])
    lines = {f: data.lines_of(x) for f, x in files.items()}
    files["inv/hosts.yml"] = data.dump({"all": {"hosts": {h: {"ansible_connection": "local"} for h in hosts}}})
    files["inv/group_vars/all.yml"] = data.dump(inv)
    files["pw"] = "pw"
    return files, ["-i", "inv/hosts.yml", "--vault-password-file", "pw", "main.yml"], lines


def t_shown(case, rec: Recorder):
    files, args, lines = project(case)
    with pb.Project(files) as p:
        plain = pb.Run(p, args, False)
        try:
            require(plain.poll(120), "the plain run does not end")
        finally:
            plain.kill()
        want_seen, want_events = plain.lines("effects.see"), plain.lines("events")
        reports = {(x["host"], x["label"]): x for x in want_seen if "raw" in x}
        results = {(x["host"], x["label"]): x["result"] for x in want_seen if "result" in x}
        stops = data.Stops(p, args, lines, ["on_error", "on_unreachable", "on_skipped"])
        state = {"deep": False, "n": 0}

        def note(v):
            if v and v[2]:
                state["deep"] = True

        def variables(d, scope, names, want, what):
            got = children(d, scope.variables_reference)
            require((scope.named_variables, scope.indexed_variables or 0) == (len(got), 0), lambda: f"{what} has {len(got)} entries and the counts {scope.named_variables}, {scope.indexed_variables}")
            for n in names:
                if n in want:
                    require(n in got, lambda: f"{what} does not show {n!r}: {list(got)}")
                    shown = expand(d, got[n], f"{n} in {what}")
                    if shown is not None:
                        rec.tag("values compared")
                        note(shown)
                        same(shown, want[n], f"{n} in {what}")
            return got

        def at(d, host, label, frame, ev):
            if not label.startswith("T"):
                return
            where = f"of {label} on {host}"
            if ev.reason == dap.StoppedReason.EXCEPTION:
                sc = scopes(d, frame)
                require(list(sc) == ["Module Result", "Module Options", "Task Variables", "Host Variables", "Global Variables"], lambda: f"the scopes after the exception {where} are {list(sc)}")
                rec.tag("exception stops")
                if (host, label) in results:
                    # A result is sent as JSON, which has no bytes.
                    want = {k: v for k, v in results[host, label][2] if not data.has(v, "bytes")}
                    variables(d, sc["Module Result"], list(want), want, f"the module result {where}")
                return
            i = state["n"]
            state["n"] += 1
            t = case["tasks"][int(label[1:])]
            rep = reports.get((host, label))
            sc = scopes(d, frame)
            require(list(sc) == ["Module Options", "Task Variables", "Host Variables", "Global Variables"], lambda: f"the scopes {where} are {list(sc)}")
            which = case["scopes"][i % len(case["scopes"])]
            for w in which:
                if w == 0:
                    opts = {k: data.view(data.real(v)) for k, v in t["opts"].items()} if rep is None else rep["args"]
                    if rep is None:
                        # Not run: the values without a template are known.
                        opts = {k: v for k, v in opts.items() if "{{" not in v[0] and "{%" not in v[0]}
                    got = variables(d, sc["Module Options"], [k for k in opts if k not in ("see", "ev")], opts, f"the options {where}")
                    names = {"label", "see", "ev", *t["opts"], *(k for k in ("py", "out", "lost") if k in t)}
                    require(set(got) == names, lambda: f"the options {where} are shown as {list(got)}, they are {sorted(names)}")
                elif w == 1 and rep:
                    got = variables(d, sc["Task Variables"], POOL, rep["raw"], f"the task variables {where}")
                    # The worker adds the ones of its connection.
                    odd = [n for n in set(got) ^ set(rep["names"]) if n in got or not n.startswith("ansible_")]
                    require(not odd, lambda: f"the task variables {where} differ from the ones the task has: {sorted(odd)}")
                elif w == 2 and rep:
                    want = {**rep["raw"], **{n: v for n, v in rep["own"].items() if v[0] != "error"}}
                    # One that cannot be templated is shown in some way.
                    odd = {n for n, v in rep["own"].items() if v[0] == "error"}
                    variables(d, sc["Host Variables"], [n for n in POOL if n not in odd], want, f"the host variables {where}")
                elif w == 3 and rep:
                    variables(d, sc["Global Variables"], POOL, rep["every"], f"the global variables {where}")
                elif w:
                    variables(d, sc[list(sc)[w]], [], {}, f"the scope {list(sc)[w]} {where}")
            if 3 in which and i % 2:
                # Every host's variables can be looked at.
                hv = children(d, sc["Global Variables"].variables_reference)["hostvars"]
                names = children(d, hv.variables_reference)
                require(set(names) - {"localhost"} == {"h%d" % (j + 1) for j in range(case["hosts"])} and hv.type == "dict", lambda: f"hostvars {where} shows {list(names)}")
                for h, v in names.items():
                    inner = children(d, v.variables_reference)
                    if rep and h == host:
                        for n in set(rep["own"]) & set(POOL):
                            if rep["own"][n][0] != "error":
                                require(n in inner, lambda: f"hostvars[{h!r}] {where} does not show {n}")
                                x = expand(d, inner[n], f"hostvars[{h!r}].{n} {where}")
                                if x is not None:
                                    same(x, rep["own"][n], f"hostvars[{h!r}].{n} {where}")
            for j, e in enumerate(t["ev"]):
                ctx = ["watch", case.get("ctx", "repl")][j % 2]
                r = ask(d, dap.EvaluateRequest(expression=e, frame_id=frame, context=ctx), dap.EvaluateResponse)
                if rep is None:
                    continue
                want = rep["ev"][j]
                rec.tag("expressions")
                if want[0] == "error":
                    require(not r.type and r.result, lambda: f"{e!r} in {label} on {host} is {want}, the answer is {r!r}")
                    require(want[1] in r.result, lambda: f"{e!r} in {label} on {host} ends with {want}, the answer is {r.result[-500:]!r}")
                else:
                    require((r.result, r.type) == (want[0], want[1]), lambda: f"{e!r} in {label} on {host} evaluates to {r.result!r} ({r.type}), for the task it is {want[0]!r} ({want[1]})")

        stops.run(at)
        order = lambda xs: sorted(xs, key=repr)
        require(order(stops.seen) == order(want_seen), lambda: f"the tasks saw other values than without the debugger: {data.brief([x for x in stops.seen if x not in want_seen])} instead of {data.brief([x for x in want_seen if x not in stops.seen])}")
        require(stops.code == plain.code, lambda: f"the exit code is {stops.code}, without the debugger {plain.code}")
        if state["deep"]:
            rec.nontrivial()


TESTS = [Test("shown", programs, t_shown, quick=2500, thorough=60000, case_timeout=300, shrink_s=60, confirm=3, slow=True)]
