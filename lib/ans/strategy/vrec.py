"""The plain linear strategy, with a record of what it starts (the reference
that the debug strategy is compared with)."""
from __future__ import annotations

DOCUMENTATION = """
name: vrec
short_description: linear with a record
description: [linear with a record]
author: verif
"""

import inspect
import json
import os

from ansible import constants as C
from ansible.playbook.block import Block
from ansible.playbook.conditional import Conditional
from ansible.playbook.handler import Handler
from ansible.playbook.task import Task
from ansible.plugins.strategy.linear import StrategyModule as LinearStrategy
from ansible.template import Templar


def describe(task):
    """(chain of dynamic includes, innermost first; rescued)"""
    chain = []
    rescued = False
    handler = isinstance(task, Handler)
    child, parent = task, task._parent
    while parent is not None:
        if isinstance(parent, Block):
            section = None
            for name in ("block", "rescue", "always"):
                if any(x._uuid == child._uuid for x in getattr(parent, name)):
                    section = name
            if section == "block" and parent.rescue and not handler:
                rescued = True
        elif isinstance(parent, Task) and not parent.statically_loaded:
            if handler and not isinstance(parent, Handler):
                # A handler of an included role, which is not in the include.
                break
            chain.append([parent._uuid, parent.get_name(), parent.get_path()])
        child, parent = parent, parent._parent
    return chain, rescued


class StrategyModule(LinearStrategy):
    def _vrec(self, kind, host, task, task_vars):
        chain, rescued = describe(task)
        # A handler fails in the section in which the handlers were flushed.
        if kind == "meta" and task.args.get("_raw_params") == "flush_handlers":
            self._vflush[host.name] = rescued
        if isinstance(task, Handler):
            rescued = self._vflush.get(host.name, False)
        entry = {
            "kind": kind,
            "host": host.name,
            "name": task.get_name(),
            "action": task.action,
            "meta": task.args.get("_raw_params") if kind == "meta" else None,
            "path": task.get_path() or None,
            "chain": chain,
            "rescued": rescued,
            "include": task.action in C._ACTION_ALL_INCLUDES,
            "play": self._vrec_play,
            "handler": type(task).__name__ == "Handler",
            "role": task._role.get_name() if task._role else None,
            "ignore_errors": task.ignore_errors if isinstance(task.ignore_errors, bool) else None,
            "uuid": task._uuid,
        }
        conds = json.loads(os.environ.get("VREC_CONDS", "[]"))
        if conds and task.get_path():
            templar = Templar(loader=self._loader, variables=task_vars)
            res = []
            for c in conds:
                cond = Conditional(loader=self._loader)
                cond.when = [c]
                try:
                    res.append(bool(cond.evaluate_conditional(templar, templar.available_variables)))
                except Exception:
                    res.append(False)
            entry["conds"] = res
        self._vput(entry)

    def _vput(self, entry):
        with open(os.environ["VREC_TRACE"], "a") as f:
            f.write(json.dumps(entry) + "\n")

    def _queue_task(self, host, task, task_vars, play_context):
        self._vrec("task", host, task, task_vars)
        return super()._queue_task(host, task, task_vars, play_context)

    def _execute_meta(self, task, play_context, iterator, target_host):
        self._vrec("meta", target_host, task, inspect.currentframe().f_back.f_locals["task_vars"])
        res = super()._execute_meta(task, play_context, iterator, target_host)
        for r in res:
            self._vres(r, task)
        return res

    def _vres(self, result, task=None):
        r = result._result
        fields = result._task_fields or {}
        entry = {
            "kind": "result",
            "host": result._host.name,
            "uuid": (task or result._task)._uuid,
            "play": self._vrec_play,
            "failed": bool(result.is_failed()),
            "unreachable": bool(result.is_unreachable()),
            "skipped": bool(result.is_skipped()),
            "ie": bool(fields.get("ignore_errors")),
            "iu": bool(fields.get("ignore_unreachable")),
            "msg": str(r["msg"]) if "msg" in r else None,
            "stdout": str(r["stdout"]) if "stdout" in r else None,
            "exception": "exception" in r,
            "skip_reason": str(r.get("skip_reason")) if "skip_reason" in r else None,
            "false_condition": str(r.get("false_condition")) if "false_condition" in r else None,
        }
        self._vput(entry)

    def _process_pending_results(self, *args, **kwargs):
        res = super()._process_pending_results(*args, **kwargs)
        for r in res:
            self._vres(r)
        return res

    def run(self, iterator, play_context):
        self._vflush = {}
        self._vrec_play = os.environ["VREC_PLAY"] = str(int(os.environ.get("VREC_PLAY", "0")) + 1)
        return super().run(iterator, play_context)
