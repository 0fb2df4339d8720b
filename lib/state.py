"""Real Ansible objects (plays, tasks, hosts) for the strategy's debug state,
without running a playbook (C12, C14, C18, C19)."""
from __future__ import annotations

import importlib
import os

from vf import REPO

_done = False


def setup():
    global _done
    if _done:
        return
    from ansible import context
    from ansible.module_utils.common.collections import ImmutableDict
    from ansible.plugins.loader import init_plugin_loader

    context.CLIARGS = ImmutableDict(
        connection="local", forks=2, become=None, become_method=None, become_user=None, check=False, diff=False, verbosity=0, tags=("all",), skip_tags=(), start_at_task=None, syntax=None, extra_vars=(), subset=None
    )
    init_plugin_loader([str(REPO / "src" / "ansibug")])
    from ansible.plugins.loader import strategy_loader

    strategy_loader.get("ansibug.dap.debug", class_only=True)
    _done = True


def strategy_module():
    setup()
    return importlib.import_module("ansible_collections.ansibug.dap.plugins.strategy.debug")


class World:
    """A loaded playbook with its inventory."""

    def __init__(self, path, hosts=("h1",), host_vars=None, extra=None):
        setup()
        from ansible.inventory.manager import InventoryManager
        from ansible.parsing.dataloader import DataLoader
        from ansible.playbook import Playbook
        from ansible.vars.manager import VariableManager

        self.loader = DataLoader()
        self.loader.set_basedir(os.path.dirname(path))
        self.inventory = InventoryManager(loader=self.loader, sources=[",".join(hosts) + ","])
        self.vm = VariableManager(loader=self.loader, inventory=self.inventory)
        for h, v in (host_vars or {}).items():
            for k, x in v.items():
                self.vm.set_host_variable(h, k, x)
        if extra:
            self.vm._extra_vars = dict(extra)
        self.playbook = Playbook.load(path, variable_manager=self.vm, loader=self.loader)
        self.hosts = [self.inventory.get_host(h) for h in hosts]
        from ansible.vars.hostvars import HostVars

        hv = HostVars(inventory=self.inventory, variable_manager=self.vm, loader=self.loader)
        self.vm._hostvars = hv
        for p in self.playbook.get_plays():
            p.hosts = list(hosts)

    def tasks(self):
        """[(play, task)] in file order, the tasks the plays list themselves."""
        from ansible.playbook.block import Block

        out = []

        def walk(play, items):
            for x in items:
                if isinstance(x, Block):
                    walk(play, x.block)
                    walk(play, x.rescue)
                    walk(play, x.always)
                elif x.get_path() and x.action != "meta" and "meta" not in x.action.split("."):
                    out.append((play, x))

        for play in self.playbook.get_plays():
            walk(play, play.compile())
        return out

    def vars(self, play, host, task):
        return self.vm.get_vars(play=play, host=host, task=task, _hosts=list(self.hosts), _hosts_all=list(self.hosts))
