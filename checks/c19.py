"""C19: edits made at a stop take effect exactly as asked."""
from __future__ import annotations

import copy

from ansibug import dap
import data
import pb
import state
from data import ask, children, expand, norm, same, scopes, st
from vf import Recorder, Test, Violation, require

PROPERTY = "C19"
TECHNIQUE = "model-based property testing: generated edit sequences in real debug sessions; a model of the variables and options of every host and task predicts what is shown after each edit and what every executed task reports to see"
LEVEL = "exploration"
LEVEL_NOTE = "Real ansible-playbook processes; the oracle is a model of the variable stores and the executed tasks' own reports."
RULE = (
    "A case is a playbook of one or two plays with generated inventory, play, set and task variables, templates of them, options and loops, on one to three hosts, and a list of edits per stop: variables, options and entries at any depth, through the "
    "scopes or the console, with literal values and expressions, and edits that must fail. After each edit every scope is compared with the model, and in the end each task's report of its options and variables. Non-trivial: an edit of a nested entry or of a host variable took effect."
)
ASSUMPTIONS = [
    "Values are those of the expression with native types; strings that are themselves Python literals or templates are not generated.",
    "An edit of the options is one of the task: whether it also applies to hosts that start the same task later is not judged (the existing tests rely on it).",
    "Whether an edit in the host variables scope (not the console) is already used by the stopped task is not judged.",
    "Extra variables and include parameters, which outrank host variables, are not used.",
    "The edited entry replaces the template it is in as far as it has to: the entries beside it stay what they were.",
]
BUDGET_S = {"quick": 60, "thorough": 2400}
GRACE_S = 240
worker_teardown = pb.teardown
SCOPES = ["Module Options", "Task Variables", "Host Variables", "Global Variables"]
POOL = ["iv", "it", "pv", "pt", "fv", "tv", "new"]
OPTIONS = ["data", "o1", "é", "o9"]
INV_T = ["{{ iv }}", "t {{ inventory_hostname }}", "{{ {'a': iv, 'b': [1, inventory_hostname]} }}", {"x": "{{ iv }}", "y": [1, "{{ inventory_hostname }}"]}, ["{{ iv }}", 2]]
PLAY_T = ["{{ pv }}", "{{ iv }}", "x {{ inventory_hostname }}", "{{ [pv, {'k': iv}] }}", {"x": "{{ pv }}", "y": {"z": "{{ iv }}", "w": 1}}, [{"a": "{{ pv }}", "b": 0}]]
OPT_T = ["{{ iv }}", "{{ pv }}", "{{ tv }}", "o {{ inventory_hostname }}", "{{ pt }}", {"a": "{{ pv }}", "b": 1}, [{"a": "{{ item | default('i') }}", "b": [1, 2]}, "{{ iv }}"], {"n": {"m": "{{ item | default('j') }}", "k": 1}}]
leafy = st.one_of(data.edits, data.box(data.edits, data.simple_keys), data.box(data.edits, data.simple_keys))
BAD = ["nothing_like_it", "1 +", "1/0", "iv | nofilter", "lookup('nope')", "{{ iv", ""]
GOOD = ["1 + 1", "iv", "[iv, 1]", "{'e': iv}", "pv", "inventory_hostname", "inventory_hostname ~ '!'", "iv | string | length", "(1, [2])", "[1, 2, 3][1:]", "{'k': {'n': [1]}}", "true", "none", "range(2) | list"]
expr = st.one_of(st.tuples(st.just("lit"), data.edits), st.tuples(st.just("lit"), leafy), st.tuples(st.just("expr"), st.sampled_from(GOOD)), st.tuples(st.just("bad"), st.sampled_from(BAD)))
picks = st.lists(st.integers(0, 3), max_size=3)
edit = st.one_of(
    st.tuples(st.just("set"), st.integers(0, 3), st.integers(0, 7), picks, expr, st.booleans()),
    st.tuples(st.just("set"), st.integers(0, 3), st.integers(0, 7), picks, expr, st.just(False)),
    st.tuples(st.just("set"), st.integers(0, 2), st.integers(0, 7), picks, expr, st.just(False)),
    st.tuples(st.just("so"), st.integers(0, 3), expr),
    st.tuples(st.just("ro"), st.integers(0, 3)),
    st.tuples(st.just("sh"), st.integers(0, 6), expr),
    st.tuples(st.just("hv"), expr),
    st.tuples(st.just("index"), st.integers(1, 3), st.sampled_from(["99", "-1", "x", "", " 0", "00"]), expr),
)
task = st.fixed_dictionaries(
    dict(opts=st.lists(st.tuples(st.sampled_from(OPTIONS[:3]), st.one_of(leafy, st.sampled_from(OPT_T), st.sampled_from(OPT_T))), max_size=3).map(data.uniq), tv=leafy),
    optional=dict(loop=st.just(True), inc=st.just(True), setf=leafy, play=leafy),
)


def cases(**more):
    return st.fixed_dictionaries(
        dict(hosts=st.integers(1, 2), iv=leafy, it=st.sampled_from(INV_T), pv=leafy, pt=st.sampled_from(PLAY_T), tasks=st.lists(task, min_size=1, max_size=4), edits=st.lists(st.lists(edit, max_size=3), min_size=1, max_size=6), **more),
        optional=dict(noscopes=st.just(True)),
    )


class Model:
    def __init__(self, case):
        self.case = case
        self.hosts = ["h%d" % (i + 1) for i in range(case["hosts"])]
        self.inv = {h: {"iv": copy.deepcopy(case["iv"]), "it": copy.deepcopy(case["it"])} for h in self.hosts}
        self.plays = []
        self.cache = {h: {} for h in self.hosts}
        self.facts = {h: {} for h in self.hosts}
        self.applied = {h: 0 for h in self.hosts}
        self.args, self.owner = {}, {}
        play = {"pv": case["pv"], "pt": case["pt"]}
        self.play_of = []
        for n, t in enumerate(case["tasks"]):
            if "play" in t:
                play = {"pv": t["play"], "pt": case["pt"]}
            self.play_of.append(play)
            self.args["T%d" % n] = copy.deepcopy(t["opts"])
        self.expected = {}  # (host, label) -> dict

    def start(self, host, label):
        """What the task on the host starts with."""
        n = int(label[1:])
        for i in range(self.applied[host], n + 1):
            t = self.case["tasks"][i]
            if "setf" in t:
                self.facts[host]["fv"] = copy.deepcopy(t["setf"])
        self.applied[host] = n + 1
        t = self.case["tasks"][n]
        raw = {**self.inv[host], **self.play_of[n], "tv": t["tv"], **self.cache[host], **self.facts[host]}
        e = dict(host=host, label=label, T=copy.deepcopy(raw), G=copy.deepcopy(raw), loose=set(), opts=self.owner.get(label, host) == host, args=copy.deepcopy(self.args[label]))
        self.expected[host, label] = e
        return e

    def hostvars(self, host):
        return {**self.inv[host], **self.cache[host], **self.facts[host]}


_loader = None


def templar(host, variables):
    global _loader
    state.setup()
    from ansible.parsing.dataloader import DataLoader
    from ansible.template import Templar

    _loader = _loader or DataLoader()
    return Templar(loader=_loader, variables={"inventory_hostname": host, **variables})


def evaluate(host, variables, text):
    from ansible.template import AnsibleNativeEnvironment

    return templar(host, variables).copy_with_new_env(environment_class=AnsibleNativeEnvironment).template("{{ %s }}" % text)


def key_of(container, name):
    """The key or index that is shown with the name."""
    if isinstance(container, dict):
        return next(k for k in container if str(k) == name)
    return int(name)


def put(raw, shown, path, value):
    """A copy with the value at the path; what is a template is replaced with what it is shown as."""
    key = path[0]
    was_tuple = isinstance(raw, tuple)
    new = list(raw) if was_tuple else copy.copy(raw)
    if len(path) > 1:
        inner = raw[key]
        if not isinstance(inner, (dict, list, tuple)):
            inner = shown[key]
        new[key] = put(inner, shown[key], path[1:], value)
    else:
        new[key] = value
    return tuple(new) if was_tuple else new


def project(case):
    files, plays = {}, []
    for n, t in enumerate(case["tasks"]):
        if not plays or "play" in t:
            plays.append({"hosts": "all", "gather_facts": False, "vars": {"pv": t.get("play", case["pv"]), "pt": case["pt"]}, "tasks": []})
        tasks = plays[-1]["tasks"]
        if "setf" in t:
            tasks.append({"name": "setup", "set_fact": {"fv": t["setf"]}})
        d = {"name": "T%d" % n, "vact": {"label": "T%d" % n, "see": POOL, **t["opts"]}, "vars": {"tv": t["tv"]}}
        if t.get("loop"):
            d["loop"] = ["l1", "l2"]
        if t.get("inc"):
            files["inc%d.yml" % n] = data.dump([d])
            d = {"name": "inc", "include_tasks": "inc%d.yml" % n}
        tasks.append(d)
    files["main.yml"] = data.dump(plays)
    lines = {f: data.lines_of(x) for f, x in files.items()}
    hosts = {"h%d" % (i + 1): {"ansible_connection": "local"} for i in range(case["hosts"])}
    files["inv/hosts.yml"] = data.dump({"all": {"hosts": hosts}})
    files["inv/group_vars/all.yml"] = data.dump({"iv": case["iv"], "it": case["it"]})
    return files, ["-i", "inv/hosts.yml", "main.yml"], lines


class Editor:
    def __init__(self, case, rec):
        self.case, self.rec = case, rec
        self.m = Model(case)
        self.log = []
        self.deep = False
        self.count = 0

    def at(self, d, host, label, frame, ev):
        if not label.startswith("T"):
            return
        e = self.m.start(host, label)
        todo = self.case["edits"][self.count % len(self.case["edits"])]
        self.count += 1
        self.d, self.frame, self.e = d, frame, e
        # The console edits without the scopes having been asked for.
        if self.case.get("noscopes") and todo and todo[0][0] in ("so", "ro", "sh"):
            self.old = None
        else:
            self.old = scopes(d, frame)
            self.compare(SCOPES, "before the edits")
        for x in todo:
            self.log.append((host, label, x))
            getattr(self, "do_" + x[0])(x)
            self.compare(SCOPES, f"after {x}")

    # -- the model of what is shown ----------------------------------------
    def shown(self, scope):
        """{name: value} of the pool, or None when it is not known."""
        e, h = self.e, self.e["host"]
        if scope == SCOPES[0]:
            return templar(h, e["T"]).template(e["args"], fail_on_undefined=False) if e["opts"] else None
        if scope == SCOPES[1]:
            return e["T"]
        if scope == SCOPES[3]:
            return e["G"]
        hv = self.m.hostvars(h)
        t = templar(h, hv)
        return {**e["T"], **{k: t.template(v, fail_on_undefined=False) for k, v in hv.items()}}

    def compare(self, which, when):
        e = self.e
        sc = scopes(self.d, self.frame)
        for name in which:
            want = self.shown(name)
            if want is None:
                continue
            what = f"{name} of {e['label']} on {e['host']} {when}"
            got = children(self.d, sc[name].variables_reference)
            pool = OPTIONS if name == SCOPES[0] else POOL
            for n in pool:
                if n in want:
                    if name != SCOPES[2] and n in e["loose"]:
                        continue
                    if name == SCOPES[0] and e["loose"]:
                        continue
                    if name == SCOPES[2] and n not in self.m.hostvars(e["host"]) and n in e["loose"]:
                        continue
                    require(n in got, lambda: f"{n} is missing in {what}")
                    x = expand(self.d, got[n], f"{n} in {what}")
                    if x is not None:
                        same(x, data.view(want[n]), f"{n} in {what}")
                else:
                    require(n not in got or n in e["loose"], lambda: f"{n} is in {what}")

    # -- values ----------------------------------------------------------
    def value(self, x, tuples=False):
        """(expression, the value or an exception)"""
        kind, v = x
        if v == "(1, [2])" and not tuples:
            # Templating makes lists of tuples.
            return "[1, [2]]", [1, [2]]
        if kind == "lit":
            # For Ansible the value of the expression none is an empty text.
            return data.literal(v), "" if v is None else v
        if kind == "bad":
            return v, KeyError(v)
        if self.e["loose"]:
            # What the task's variables are is not known in full.
            return "7", 7
        return v, evaluate(self.e["host"], self.e["T"], v)

    # -- the edits --------------------------------------------------------
    def apply(self, scope, path, value):
        """The model of an edit."""
        e, h = self.e, self.e["host"]
        if scope == SCOPES[0]:
            self.m.owner[e["label"]] = h
            shown = self.shown(scope)
            e["args"] = put(e["args"], shown, path, value)
            self.m.args[e["label"]] = copy.deepcopy(e["args"])
        elif scope == SCOPES[1]:
            e["T"] = put(e["T"], e["T"], path, value)
            e["loose"].discard(path[0]) if len(path) == 1 else None
        elif scope == SCOPES[3]:
            e["G"] = put(e["G"], e["G"], path, value)
        else:
            hv = {**e["T"], **self.m.hostvars(h)}
            new = put(hv, self.shown(scope), path, value)[path[0]]
            self.m.cache[h][path[0]] = copy.deepcopy(new)
            if path[0] in self.m.facts[h]:
                self.m.facts[h][path[0]] = copy.deepcopy(new)
            e["loose"].add(path[0])
            # The templates may use it.
            e["loose"] |= {"it", "pt"}
            self.deep = True
        if len(path) > 1:
            self.deep = True
        self.rec.tag("edits of " + scope + (" (nested)" if len(path) > 1 else ""))

    def do_set(self, x):
        _, si, i, picks, ex, new = x
        scope = SCOPES[si]
        want = self.shown(scope)
        if want is None or (si == 0 and self.e["loose"]):
            return
        pool = OPTIONS if si == 0 else POOL
        names = [n for n in pool if n in want and (si == 0 or n not in self.e["loose"] or (si == 2 and n in self.m.hostvars(self.e["host"])))]
        if new or not names:
            names = [pool[-1]]
            picks = []
        name = names[i % len(names)]
        # A scope that was asked for before is as good for its own entries.
        sc = self.old if self.old and (i % 3 == 0 and not picks) else scopes(self.d, self.frame)
        ref = sc[scope].variables_reference
        path = [name]
        here = want.get(name)
        parents = [want]
        for p in picks:
            if not isinstance(here, (dict, list, tuple)) or not len(here):
                break
            shown = children(self.d, ref)[path[-1] if isinstance(path[-1], str) else str(path[-1])]
            ref = shown.variables_reference
            k = list(here)[p % len(here)] if isinstance(here, dict) else p % len(here)
            path.append(k)
            parents.append(here)
            here = here[k]
        text, v = self.value(ex, si in (1, 3))
        r = self.d.ask(dap.SetVariableRequest(variables_reference=ref, name=str(path[-1]), value=text))
        ok = isinstance(r, dap.SetVariableResponse)
        what = f"setting {path} in {scope} of {self.e['label']} on {self.e['host']} to {text}"
        if isinstance(v, Exception):
            require(not ok, lambda: f"{what} is answered with {r!r}")
            self.rec.tag("failed edits")
            return
        if isinstance(parents[-1], tuple) or any(isinstance(y, tuple) for y in parents):
            # May be refused.
            self.rec.tag("edits in tuples")
            if not ok:
                return
        require(ok, lambda: f"{what} is answered with {getattr(r, 'message', r)!r}")
        self.apply(scope, path, v)
        view = data.view(v)
        require((r.value, r.type) == (view[0], view[1]), lambda: f"{what} is answered with the value {r.value} ({r.type}), it is {view[0]} ({view[1]})")
        if r.variables_reference:
            got = children(self.d, r.variables_reference)
            require(view[2] is not None and [n for n, _ in view[2]] == list(got) and [y[0] for _, y in view[2]] == [z.value for z in got.values()], lambda: f"{what} is answered with the children {got}")
            counts = (len(got), 0) if view[1] == "dict" else (0, len(got))
            require((r.named_variables or 0, r.indexed_variables or 0) == counts, lambda: f"{what} is answered with the counts {r.named_variables}, {r.indexed_variables}")
            # The new container can be edited right away.
            if got and len(path) < 4 and not any(isinstance(y, tuple) for y in [*parents, v]):
                n = list(got)[0]
                r2 = self.d.ask(dap.SetVariableRequest(variables_reference=r.variables_reference, name=n, value="41"))
                require(isinstance(r2, dap.SetVariableResponse), lambda: f"then setting {n} of it is answered with {getattr(r2, 'message', r2)!r}")
                self.apply(scope, [*path, key_of(v, n)], 41)
        else:
            require(not view[2], lambda: f"{what} is answered without a reference")
        # The scope that was used shows it as well.
        got = children(self.d, sc[scope].variables_reference)
        now = self.shown(scope)[path[0]] if si != 2 else None
        if si != 2:
            require(path[0] in got and got[path[0]].value == data.view(now)[0], lambda: f"after {what} the scope shows {got.get(path[0])!r}, {now!r} is right")

    def console(self, text, v, what):
        r = self.d.ask(dap.EvaluateRequest(expression=text, context="repl", frame_id=self.frame))
        ok = isinstance(r, dap.EvaluateResponse)
        if isinstance(v, Exception):
            require(not ok, lambda: f"{text!r} is answered with {r!r}")
            self.rec.tag("failed edits")
            return False
        require(ok and not r.result, lambda: f"{text!r} is answered with {getattr(r, 'message', r)!r}")
        return True

    def quote(self, text):
        # What is after the name is taken as it is.
        return text if text else "''"

    def do_so(self, x):
        if not self.e["opts"] or self.e["loose"]:
            return
        name = OPTIONS[x[1]]
        text, v = self.value(x[2])
        if not usable(text):
            return
        if self.console(f"!so {name} {text}", v, x):
            self.apply(SCOPES[0], [name], v)

    def do_ro(self, x):
        if not self.e["opts"]:
            return
        name = OPTIONS[x[1]]
        r = self.d.ask(dap.EvaluateRequest(expression=f"!ro {name}", context="repl", frame_id=self.frame))
        if name in self.e["args"]:
            require(isinstance(r, dap.EvaluateResponse), lambda: f"removing {name} is answered with {getattr(r, 'message', r)!r}")
            self.m.owner[self.e["label"]] = self.e["host"]
            del self.e["args"][name]
            self.m.args[self.e["label"]] = copy.deepcopy(self.e["args"])
            self.rec.tag("removed options")

    def do_sh(self, x):
        name = POOL[x[1]]
        text, v = self.value(x[2])
        if not usable(text):
            return
        if self.console(f"!sh {name} {text}", v, x):
            self.apply(SCOPES[2], [name], v)
            # It is a variable of the task as well.
            e = self.e
            e["T"][name] = copy.deepcopy(v)
            e["loose"].discard(name)
            e["loose"] -= {"it", "pt"} if not (e["loose"] - {"it", "pt"}) else set()

    def do_hv(self, x):
        """The host variables of all hosts are not a place to edit."""
        e = self.e
        sc = scopes(self.d, self.frame)
        hv = children(self.d, sc[SCOPES[3]].variables_reference)["hostvars"]
        own = children(self.d, hv.variables_reference)[e["host"]]
        text, v = self.value(x[1])
        r = self.d.ask(dap.SetVariableRequest(variables_reference=own.variables_reference, name="iv", value=text))
        require(isinstance(r, dap.ErrorResponse), lambda: f"an edit of hostvars is answered with {r!r}, it does not change anything")
        self.rec.tag("failed edits")

    def do_index(self, x):
        """An entry that a list does not have."""
        _, si, name, ex = x
        want = self.shown(SCOPES[si])
        for n in POOL:
            if isinstance(want.get(n), list) and (n not in self.e["loose"] or si == 2 and n in self.m.hostvars(self.e["host"])):
                sc = scopes(self.d, self.frame)
                var = children(self.d, sc[SCOPES[si]].variables_reference)[n]
                if not var.variables_reference:
                    return
                text, v = self.value(ex)
                r = self.d.ask(dap.SetVariableRequest(variables_reference=var.variables_reference, name=name, value=text))
                require(isinstance(r, dap.ErrorResponse), lambda: f"setting {name!r} of the list {n} {want[n]!r} is answered with {r!r}")
                self.rec.tag("failed edits")
                return


def usable(text):
    """The console takes the rest of the line through a shell like parser: only what is the same after that."""
    import shlex

    try:
        return text and shlex.split(text) == text.split() and "  " not in text and not text.startswith("-") and "\n" not in text and "\t" not in text
    except ValueError:
        return False


def t_edits(case, rec: Recorder):
    files, args, lines = project(case)
    ed = Editor(case, rec)
    with pb.Project(files) as p:
        stops = data.Stops(p, args, lines).run(ed.at)
        m = ed.m
        require(stops.code == 0, lambda: f"the playbook fails after the edits {ed.log}: {stops.text[-1500:]}")
        seen = {}
        for x in stops.seen:
            if "raw" in x:
                seen.setdefault((x["host"], x["label"]), []).append(x)
        for key, e in m.expected.items():
            host, label = key
            n = int(label[1:])
            items = ["l1", "l2"] if case["tasks"][n].get("loop") else [None]
            got = seen.pop(key, [])
            require(len(got) == len(items), lambda: f"{label} on {host} was executed {len(got)} times")
            for item, x in zip(items, got):
                T = {**e["T"], **({"item": item} if item else {})}
                t = templar(host, T)
                for name in POOL:
                    if name in e["loose"]:
                        continue
                    what = f"{name} of {label} on {host}, with the edits {ed.log},"
                    require((name in x["raw"]) == (name in T), lambda: f"{what} is there for the task: {name in x['raw']}")
                    if name in T:
                        judge(x["raw"][name], data.view(T[name]), what)
                        if not e["loose"]:
                            judge(x["templated"][name], data.view(t.template(T[name])), what + " when templated,")
                for name in POOL:
                    if name in x["every"] and name in e["G"]:
                        judge(x["every"][name], data.view(e["G"][name]), f"vars[{name!r}] of {label} on {host}, with the edits {ed.log},")
                if e["opts"] and not e["loose"]:
                    want = t.template(e["args"])
                    for name in OPTIONS:
                        what = f"the option {name} of {label} on {host}, with the edits {ed.log},"
                        require((name in x["args"]) == (name in want), lambda: f"{what} is there for the task: {name in x['args']}")
                        if name in want:
                            judge(x["args"][name], data.view(want[name]), what)
    if ed.deep:
        rec.nontrivial()


def judge(got, want, what):
    require(norm(got) == norm(want), lambda: f"{what} is {data.brief(got)} for the task, it should be {data.brief(want)}")


TESTS = [Test("edits", cases, t_edits, quick=2500, thorough=60000, case_timeout=300, shrink_s=60, confirm=3, slow=True)]
