"""Generated playbooks: Hypothesis strategies for programs (nested literals)
and their rendering to files."""
from __future__ import annotations

import yaml

from vf import import_hypothesis

import_hypothesis()
from hypothesis import strategies as st

WHENS = {
    "h1": "inventory_hostname == 'h1'",
    "not1": "inventory_hostname != 'h1'",
    "false": "false",
    "true": "true",
    "cnt": "counter | default(0) | int < 2",
    "undef": "nothing_like_it",
    "lit": False,
    "list": ["true", "inventory_hostname == 'h1'"],
}
IGNORES = {True: True, "host": "{{ inventory_hostname == 'h1' }}", "no": "{{ false }}"}
OUTS = ["ok", "ok", "ok", "changed", "changed", "fail", "fail:h1", "fail:h2,h3", "unreach:h2", "skip", "skip:h1", "failnomsg", "crash"]
SAFE_OUTS = ["ok", "ok", "changed", "skip"]
MISC = 9
METAS = ["flush_handlers", "noop", "clear_facts", "clear_host_errors", "end_host", "end_play", "refresh_inventory", "end_batch", "end_role", "reset_connection"]


def weighted(*pairs):
    return st.sampled_from([x for x, n in pairs for _ in range(n)])


def attrs(allow, rich=True):
    """A dict of task attributes; `allow` names the ones that may appear."""
    opts = {
        "when": st.sampled_from(["h1", "h1", "not1", "false", "true", "cnt", "lit", "list"] + (["undef"] if rich else [])),
        "loop": st.sampled_from([1, 1, 2, 2, 2, 0]),
        "ie": st.sampled_from([True, True, True, "host", "no"]),
        "iu": st.sampled_from([True, True, True, "host", "no"]),
        "once": st.just(True),
        "notify": st.sampled_from(["hd0", "hd1", "topic"]),
        "deleg": st.sampled_from(["h1", "h2"]),
        "retries": st.just(2),
        "aef": st.just(True),
        "fw": st.sampled_from(["h1", "true"]),
        "tags": st.sampled_from(["t1", "never"]),
        "reg": st.just(True),
        "vars": st.just(True),
        "apply": st.just(True),
    }
    names = [n for n in allow if n in opts]
    return st.lists(st.sampled_from(names), max_size=2, unique=True).flatmap(lambda ks: st.fixed_dictionaries({k: opts[k] for k in ks}))


def quiet_attrs(allow):
    return st.one_of(st.just({}), st.just({}), attrs(allow, rich=False))


class Gen:
    """What a program may contain.

    outs: outcomes of the tasks; metas: meta tasks; kinds: weights of the kinds
    of items."""

    def __init__(self, outs=OUTS, metas=METAS, act=10, set=1, dbg=1, meta=1, block=3, inct=3, impt=1, incr=1, impr=1, incs=1, inch=1, misc=1, real=0, facts=0, missing=0, attr=True, depth=3, handlers=True, plays=2, hosts=3, loops=True, fatal=True, cli=True, lead=(), lo=1, hi=5, more=()):
        """lead: kinds of which each play has one at least."""
        self.__dict__.update(locals())

    def items(self, depth, lo=1, hi=4, shared=2, in_handler=False):
        return st.lists(self.item(depth, shared), min_size=lo, max_size=hi)

    def tasks(self, depth):
        if not self.lead:
            return self.items(depth, self.lo, self.hi)
        only = Gen(**{k: v for k, v in self.__dict__.items() if k not in ("self", "lead")})
        for k in "act set dbg meta block inct impt incr impr incs inch misc real missing".split():
            if k not in self.lead:
                setattr(only, k, 0)
        sub = self.items(depth - 1, 1, 3)
        only.items = lambda *a, **k: sub
        return st.tuples(self.items(depth, self.lo - 1, 2), only.item(depth, 2), self.items(depth, 1, self.hi - 2)).map(lambda x: x[0] + [x[1]] + x[2])

    def item(self, depth, shared):
        a = ["when", "ie", "iu", "once", "notify", "reg", "tags"] + (["loop", "retries"] if self.loops else []) + ["deleg", "fw"] + (["aef"] if self.fatal else []) + list(self.more)
        ka = ["when", "tags", "ie"] + (["loop"] if self.loops else [])
        mk = (lambda x: st.one_of(st.just({}), st.just({}), attrs(x))) if self.attr else quiet_attrs
        opts = []
        if self.act:
            opts.append((self.act, st.tuples(st.just("act"), st.sampled_from(self.outs), mk(a))))
        if self.set:
            opts.append((self.set, st.tuples(st.just("set"), mk(["when", "once", "loop", "reg"]))))
        if self.dbg:
            opts.append((self.dbg, st.tuples(st.just("dbg"), mk(["when", "loop", "once"]))))
        if self.meta:
            opts.append((self.meta, st.tuples(st.just("meta"), st.sampled_from(self.metas), mk(["when"]))))
        if self.misc:
            opts.append((self.misc, st.tuples(st.just("misc"), st.integers(0, MISC - 1), mk(["when", "ie", "once", "reg"]))))
        if self.real:
            opts.append((self.real, st.tuples(st.just("real"), mk(["when", "once", "reg"]))))
        if self.inch and shared and depth > 0:
            opts.append((self.inch, st.tuples(st.just("inch"), st.booleans(), mk(["when", "tags"]))))
        if self.missing:
            opts.append((self.missing, st.tuples(st.just("missing"), mk(["when", "ie"]))))
        if depth > 0:
            sub = lambda lo=1, hi=2: self.items(depth - 1, lo, hi, shared)
            empty = lambda s: st.one_of(st.just([]), st.just([]), s)
            if self.block:
                opts.append((self.block, st.tuples(st.just("block"), sub(), empty(sub(1, 2)), empty(sub(1, 2)), mk(["when", "ie", "tags"]))))
            if self.inct:
                opts.append((self.inct, st.tuples(st.just("inct"), sub(), mk(ka + ["vars", "apply"]))))
            if self.impt:
                opts.append((self.impt, st.tuples(st.just("impt"), sub(), mk(["when", "tags", "vars"]))))
            role = st.fixed_dictionaries({"tasks": sub(), "handlers": st.integers(0, 1), "dep": empty(sub(1, 1)), "from": st.booleans()})
            if self.incr:
                opts.append((self.incr, st.tuples(st.just("incr"), role, mk(ka))))
            if self.impr:
                opts.append((self.impr, st.tuples(st.just("impr"), role, mk(["when", "tags"]))))
            if self.incs and shared:
                opts.append((self.incs, st.tuples(st.just("incs"), st.integers(0, shared - 1), mk(ka))))
        total = [s for n, s in opts for _ in range(n)]
        return st.integers(0, len(total) - 1).flatmap(lambda i: total[i])

    def play(self):
        d = self.depth
        hd = st.lists(st.tuples(st.sampled_from(["act", "act", "inct"]), st.sampled_from([o for o in self.outs if o != "crash"]), st.booleans()), max_size=2)
        role = st.fixed_dictionaries({"tasks": self.items(1, 1, 2), "handlers": st.integers(0, 1), "dep": st.just([]), "from": st.just(False)})
        return st.fixed_dictionaries(
            {
                "hosts": weighted(("all", 6), ("h1", 1), ("h2", 1), ("nope", 1)) if self.plays > 1 else st.just("all"),
                "serial": weighted((0, 6), (1, 1)),
                "pre": st.one_of(st.just([]), st.just([]), self.items(1, 1, 1)),
                "roles": st.one_of(st.just([]), st.just([]), st.lists(role, max_size=1)) if self.impr else st.just([]),
                "tasks": self.tasks(d),
                "post": st.one_of(st.just([]), st.just([]), self.items(1, 1, 1)),
                "handlers": hd if self.handlers else st.just([]),
                "aef": weighted((False, 7), (True, 1)) if self.fatal else st.just(False),
                "fh": weighted((False, 5), (True, 1)),
                "mfp": weighted((None, 7), (40, 1)) if self.fatal else st.just(None),
                "imp": weighted((False, 6), (True, 1)),
                "order": weighted((None, 6), ("reverse_inventory", 1)),
                "facts": weighted((False, 20 - self.facts), (True, self.facts)),
            }
        )

    def some_plays(self):
        one = st.tuples(self.play()).map(list)
        return one if self.plays == 1 else st.one_of(one, one, one, st.lists(self.play(), min_size=2, max_size=self.plays))

    def program(self):
        return st.fixed_dictionaries(
            {
                "n": st.integers(1, self.hosts),
                "forks": st.sampled_from([1, 2, 5]),
                "plays": self.some_plays(),
                "shared": st.tuples(self.items(1, 1, 2, 0), self.items(0, 1, 2, 0)).map(list),
                "cli": weighted((0, 14), (1, 2), (2, 2), (3, 2), (4, 1), (5, 1), (6, 1), (7, 1)) if self.cli else st.just(0),
            }
        )


class Render:
    def __init__(self, prog):
        self.prog = prog
        self.files = {}
        self.n = 0
        self.roles = 0
        self.shared = {}
        self.in_role = 0

    def name(self):
        self.n += 1
        return "t%d" % self.n

    def base(self, a):
        d = {}
        if "when" in a:
            d["when"] = WHENS[a["when"]]
        if "loop" in a:
            d["loop"] = ["i%d" % i for i in range(a["loop"])]
        if a.get("ie"):
            d["ignore_errors"] = IGNORES[a["ie"]]
        if a.get("iu"):
            d["ignore_unreachable"] = IGNORES[a["iu"]]
        if a.get("once"):
            d["run_once"] = True
        if "notify" in a:
            d["notify"] = a["notify"]
        if "deleg" in a:
            d["delegate_to"] = a["deleg"]
        if "retries" in a:
            d.update(retries=a["retries"], delay=0, until="false", register="rr")
        if a.get("aef"):
            d["any_errors_fatal"] = True
        if "fw" in a:
            d["failed_when"] = WHENS[a["fw"]]
        if "tags" in a:
            d["tags"] = [a["tags"]]
        if a.get("reg"):
            d["register"] = "reg"
        if a.get("vars"):
            d["vars"] = {"iv": "v{{ counter | default(0) }}"}
        return d

    def put(self, path, items, force_list=True):
        text = yaml.safe_dump(items, sort_keys=False, width=1000)
        self.files[path] = "---\n" + text
        return path

    def role(self, r):
        self.roles += 1
        name = "r%d" % self.roles
        f = "other" if r["from"] else "main"
        self.in_role += 1
        tasks = [self.item(x) for x in r["tasks"]]
        self.in_role -= 1
        self.put(f"roles/{name}/tasks/{f}.yml", tasks)
        if r["from"]:
            self.put(f"roles/{name}/tasks/main.yml", [{"name": self.name(), "vact": {}}])
        if r["handlers"]:
            self.put(f"roles/{name}/handlers/main.yml", [{"name": "rh_" + name, "listen": "topic", "vact": {"data": "role handler"}}])
        if r["dep"]:
            dep = self.role({"tasks": r["dep"], "handlers": 0, "dep": [], "from": False})
            self.put(f"roles/{name}/meta/main.yml", {"dependencies": [dep["name"]]})
        d = {"name": name}
        if r["from"]:
            d["tasks_from"] = "other"
        return d

    def share(self, k):
        if k not in self.shared:
            role, self.in_role = self.in_role, 0
            self.shared[k] = self.put(f"shared{k}.yml", [self.item(y) for y in self.prog["shared"][k]])
            self.in_role = role
        return self.shared[k]

    def item(self, x):
        kind = x[0]
        a = x[-1] if isinstance(x[-1], dict) else {}
        if kind == "act":
            d = {"name": self.name(), "vact": {"out": x[1], "data": "{{ [item | default('-'), counter | default(0), iv | default('none'), reg.msg | default('')] | to_json }}"}}
        elif kind == "set":
            d = {"name": self.name(), "set_fact": {"counter": "{{ counter | default(0) | int + 1 }}"}}
        elif kind == "dbg":
            d = {"name": self.name(), "debug": {"msg": "c {{ counter | default(0) }} {{ inventory_hostname }}"}}
        elif kind == "meta":
            d = {"name": self.name(), "meta": x[1] if x[1] != "end_role" or self.in_role else "noop"}
            if d["meta"] in ("refresh_inventory", "noop", "reset_connection"):
                a = {k: v for k, v in a.items() if k != "when"}
        elif kind == "misc":
            d = {"name": self.name()}
            k = x[1]
            if k == 0:
                d["add_host"] = {"name": "extra", "groups": "more", "ansible_connection": "local"}
            elif k == 1:
                d["group_by"] = {"key": "g_{{ inventory_hostname }}"}
            elif k == 2:
                d["assert"] = {"that": [WHENS["h1"]]}
            elif k == 3:
                d["fail"] = {"msg": "failed {{ inventory_hostname }}"}
            elif k == 4:
                self.files["more_vars.yml"] = "iv: loaded\ncounter: 7\n"
                d["include_vars"] = {"file": "{{ playbook_dir }}/more_vars.yml"}
            elif k == 5:
                d["set_stats"] = {"data": {"some": 1}}
            elif k == 6:
                d["set_fact"] = {"other": "{{ not_there_at_all }}"}
            elif k == 7:
                d["name"] += " {{ inventory_hostname }}"
                d["vact"] = {"data": "named"}
            elif k == 8:
                del d["name"]
                d["vact"] = {"data": "no name"}
        elif kind == "real":
            d = {"name": self.name(), "ping": {"data": "{{ counter | default('none') }}"}}
        elif kind == "inch":
            paths = [self.share(0), self.share(1)]
            # Which file is first depends on which host is, with several forks.
            if x[1] or (self.prog["forks"] > 1 and self.prog["n"] > 1):
                a = {k: v for k, v in a.items() if k != "loop"}
                d = {"name": self.name(), "include_tasks": "{{ item }}", "loop": paths}
            else:
                d = {"name": self.name(), "include_tasks": {"file": "shared{{ 0 if inventory_hostname == 'h1' else 1 }}.yml"}}
        elif kind == "missing":
            d = {"name": self.name(), "include_tasks": "there_is_no_such_file.yml"}
        elif kind == "block":
            d = {"name": self.name(), "block": [self.item(y) for y in x[1]]}
            if x[2]:
                d["rescue"] = [self.item(y) for y in x[2]]
            if x[3]:
                d["always"] = [self.item(y) for y in x[3]]
        elif kind in ("inct", "impt"):
            n = self.name()
            path = self.put(f"f_{n}.yml", [self.item(y) for y in x[1]])
            d = {"name": n, ("include_tasks" if kind == "inct" else "import_tasks"): {"file": path} if a.get("apply") else path}
            if a.get("apply") and kind == "inct":
                d["include_tasks"]["apply"] = {"vars": {"iv": "applied"}}
        elif kind == "incs":
            d = {"name": self.name(), "include_tasks": self.share(x[1])}
        elif kind in ("incr", "impr"):
            d = {"name": self.name(), ("include_role" if kind == "incr" else "import_role"): self.role(x[1])}
        else:
            raise AssertionError(kind)
        d.update(self.base(a))
        return d

    def render(self):
        plays = []
        for p in self.prog["plays"]:
            d = {"hosts": p["hosts"], "gather_facts": p.get("facts", False)}
            if p.get("order"):
                d["order"] = p["order"]
            if "('misc', 1," in repr(self.prog):
                # The order of an inventory that group_by changed is the one
                # of the hosts' results, which is not determined.
                d["order"] = "reverse_sorted" if p.get("order") else "sorted"
            if p["serial"]:
                d["serial"] = p["serial"]
            if p["aef"]:
                d["any_errors_fatal"] = True
            if p["fh"]:
                d["force_handlers"] = True
            if p["mfp"] is not None:
                d["max_fail_percentage"] = p["mfp"]
            if p["pre"]:
                d["pre_tasks"] = [self.item(x) for x in p["pre"]]
            if p["roles"]:
                d["roles"] = [{"role": self.role(r)["name"]} for r in p["roles"]]
            d["tasks"] = [self.item(x) for x in p["tasks"]]
            if p["post"]:
                d["post_tasks"] = [self.item(x) for x in p["post"]]
            hs = []
            for i, (kind, out, listen) in enumerate(p["handlers"]):
                h = {"name": "hd%d" % i}
                if kind == "inct":
                    n = self.name()
                    h["include_tasks"] = self.put(f"f_{n}.yml", [{"name": n, "vact": {"out": out}}])
                else:
                    h["vact"] = {"out": out}
                if listen:
                    h["listen"] = "topic"
                hs.append(h)
            while len(hs) < 2:
                hs.append({"name": "hd%d" % len(hs), "vact": {"data": "handler"}})
            if not any("listen" in h for h in hs):
                hs[-1]["listen"] = "topic"
            d["handlers"] = hs
            if p.get("imp"):
                self.n += 1
                f = self.put(f"play{self.n}.yml", [d])
                d = {"name": "import", "import_playbook": f}
            plays.append(d)
        self.put("main.yml", plays)
        n = self.prog["n"]
        hosts = ",".join("h%d" % (i + 1) for i in range(n)) + ","
        args = ["-i", hosts, "-c", "local", "-f", str(self.prog["forks"])]
        cli = self.prog["cli"]
        if cli == 1:
            args += ["--tags", "t1,untagged"]
        elif cli == 2:
            args += ["--skip-tags", "t1"]
        elif cli == 3:
            args += ["--limit", "h1"]
        elif cli == 4:
            args += ["--check"]
        elif cli == 5:
            args += ["--force-handlers", "-e", "counter=1"]
        elif cli == 6:
            args += ["--start-at-task", "t3"]
        elif cli == 7:
            args += ["-vv", "--diff"]
        return self.files, args + ["main.yml"]


def render(prog):
    return Render(prog).render()
