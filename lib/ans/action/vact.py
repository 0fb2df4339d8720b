"""A task whose outcome the playbook chooses; it notes that it was executed."""
from __future__ import annotations

import ast
import collections.abc
import json
import os

from ansible.errors import AnsibleActionSkip, AnsibleConnectionFailure
from ansible.parsing.yaml.objects import AnsibleVaultEncryptedUnicode
from ansible.plugins.action import ActionBase
from ansible.template import AnsibleNativeEnvironment

TEXT = (str, AnsibleVaultEncryptedUnicode)


def view(x):
    """[repr, type name, children or None] of a value."""
    for kinds, name in ((TEXT, "str"), (bool, "bool"), (int, "int"), (float, "float"), (tuple, "tuple")):
        if isinstance(x, kinds):
            break
    else:
        name = type(x).__name__
        if isinstance(x, collections.abc.Mapping):
            name = "dict"
        elif isinstance(x, collections.abc.Sequence) and not isinstance(x, (bytes, bytearray)):
            name = "list"
    kids = None
    if name == "dict":
        kids = [[str(k), view(v)] for k, v in x.items()]
    elif name in ("list", "tuple"):
        kids = [[str(i), view(v)] for i, v in enumerate(x)]
    return [repr(x), name, kids]


def attempt(f):
    try:
        return view(f())
    except Exception as e:
        return ["error", type(e).__name__, str(e)]


def note(**entry):
    # In one write, the tasks of several hosts run at a time.
    fd = os.open(os.environ["VREC_EFFECTS"] + ".see", os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    try:
        os.write(fd, (json.dumps(entry) + "\n").encode())
    finally:
        os.close(fd)


class ActionModule(ActionBase):
    _VALID_ARGS = None

    def run(self, tmp=None, task_vars=None):
        res = super().run(tmp, task_vars)
        args = dict(self._task.args)
        host = task_vars["inventory_hostname"]
        with open(os.environ["VREC_EFFECTS"], "a") as f:
            f.write(json.dumps([host, args if "label" not in args else args["label"]], default=str, sort_keys=True) + "\n")
        if "label" in args:
            self.report(host, args, task_vars)
        out = args.get("out", "ok")
        if ":" in str(out):
            out, only = out.split(":", 1)
            if host not in only.split(","):
                out = "ok"
        if out == "unreach":
            raise AnsibleConnectionFailure("cannot be reached on purpose")
        if out == "skip":
            raise AnsibleActionSkip("skipped on purpose")
        if out == "crash":
            raise RuntimeError("crashed on purpose")
        res["changed"] = out == "changed"
        res["failed"] = out in ("fail", "failnomsg")
        if out != "failnomsg":
            res["msg"] = "outcome %s" % out
        if out == "failnomsg":
            res["stdout"] = "only output"
        res["data"] = args.get("data")
        if "py" in args:
            res["py"] = ast.literal_eval(args["py"])
        if "label" in args:
            note(host=host, label=args["label"], result=view(res))
        return res

    def report(self, host, args, task_vars):
        """What the task sees: its options, the variables `see` and the expressions `ev`."""
        see = [n for n in args.get("see", []) if n in task_vars]
        own = task_vars["hostvars"][host]
        native = self._templar.copy_with_new_env(environment_class=AnsibleNativeEnvironment)
        note(
            host=host,
            label=args["label"],
            args={str(k): view(v) for k, v in args.items()},
            raw={n: view(task_vars[n]) for n in see},
            templated={n: attempt(lambda: self._templar.template(task_vars[n])) for n in see},
            own={n: attempt(lambda: own[n]) for n in see if n in own},
            every={n: view(task_vars["vars"][n]) for n in see if n in task_vars["vars"]},
            names=sorted(str(k) for k in task_vars),
            ev=[attempt(lambda: native.template("{{ %s }}" % e)) for e in args.get("ev", [])],
        )
