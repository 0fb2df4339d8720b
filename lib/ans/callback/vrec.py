"""Records every callback event, in the plain and in the debugged run."""
from __future__ import annotations

DOCUMENTATION = """
name: vrec
type: aggregate
short_description: records events
description: [records events]
author: verif
"""

import json
import os

from ansible.plugins.callback import CallbackBase


def clean(x):
    if isinstance(x, dict) and len(x) > 30 and "ansible_date_time" in x:
        # Gathered facts: times, memory and so on.
        return sorted(x)
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items() if k not in ("start", "end", "delta", "exception", "_ansible_delegated_vars")}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, (int, float, bool)) or x is None:
        return x
    return str(x)


class CallbackModule(CallbackBase):
    CALLBACK_VERSION = 2.0
    CALLBACK_TYPE = "aggregate"
    CALLBACK_NAME = "vrec"
    CALLBACK_NEEDS_ENABLED = True

    def _put(self, *entry):
        with open(os.environ["VREC_EVENTS"], "a") as f:
            f.write(json.dumps(list(entry)) + "\n")

    def _res(self, kind, result, *more):
        self._put(kind, result._host.name, result._task.get_name(), result._task.get_path(), result._task_fields.get("ignore_errors"), result._task_fields.get("ignore_unreachable"), clean(result._result), *more)

    def v2_playbook_on_play_start(self, play):
        self._put("play", play.get_name())

    def v2_playbook_on_task_start(self, task, is_conditional):
        self._put("task", task.get_name(), task.get_path())

    def v2_playbook_on_handler_task_start(self, task):
        self._put("handler", task.get_name(), task.get_path())

    def v2_playbook_on_cleanup_task_start(self, task):
        self._put("cleanup", task.get_name())

    def v2_runner_on_ok(self, result):
        self._res("ok", result)

    def v2_runner_on_failed(self, result, ignore_errors=False):
        self._res("failed", result, ignore_errors)

    def v2_runner_on_skipped(self, result):
        self._res("skipped", result)

    def v2_runner_on_unreachable(self, result):
        self._res("unreachable", result)

    def v2_runner_item_on_ok(self, result):
        self._res("item_ok", result)

    def v2_runner_item_on_failed(self, result):
        self._res("item_failed", result)

    def v2_runner_item_on_skipped(self, result):
        self._res("item_skipped", result)

    def v2_runner_retry(self, result):
        self._res("retry", result)

    def v2_playbook_on_notify(self, handler, host):
        self._put("notify", host.name, handler.get_name())

    def v2_playbook_on_include(self, included_file):
        self._put("include", str(included_file._filename), sorted(h.name for h in included_file._hosts))

    def v2_playbook_on_no_hosts_matched(self):
        self._put("no_hosts")

    def v2_playbook_on_no_hosts_remaining(self):
        self._put("no_hosts_remaining")

    def v2_playbook_on_stats(self, stats):
        hosts = sorted(stats.processed)
        self._put("stats", {h: stats.summarize(h) for h in hosts})
