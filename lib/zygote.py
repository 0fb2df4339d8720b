"""Starts ansible-playbook runs by forking a process that has Ansible loaded.

usage: zygote.py REQUEST_FD REPLY_FD; one JSON job per line."""
from __future__ import annotations

import json
import os
import sys


def preload() -> None:
    """Does the slow parts of a start once: nothing here depends on the run."""
    import copy
    import gc
    import importlib
    import pkgutil

    for name in "action inventory filter test callback vars cache connection shell lookup".split():
        pkg = importlib.import_module("ansible.plugins." + name)
        for m in pkgutil.iter_modules(pkg.__path__):
            if m.name not in ("psrp", "winrm", "paramiko_ssh", "ssh"):
                try:
                    importlib.import_module(f"ansible.plugins.{name}.{m.name}")
                except Exception:
                    pass

    # The routing tables of ansible.builtin are a large YAML file, parsing
    # it is half of the time of a short run.
    from ansible.utils.collection_loader import _collection_finder

    real = _collection_finder._meta_yml_to_dict
    known = {}

    def cached(text, content_id):
        if content_id not in known:
            return real(text, content_id)
        before, value = known[content_id]
        return copy.deepcopy(value) if before == text else real(text, content_id)

    import ansible.config

    with open(os.path.join(os.path.dirname(ansible.config.__file__), "ansible_builtin_runtime.yml"), "rb") as f:
        text = f.read()
    known["ansible.builtin", "runtime.yml"] = (text, real(text, None))
    _collection_finder._meta_yml_to_dict = cached
    gc.collect()
    gc.freeze()


def main() -> int:
    rfd, wfd = int(sys.argv[1]), int(sys.argv[2])
    import ansible.cli.playbook
    import ansible.executor.playbook_executor
    import ansible.executor.process.worker
    import ansible.plugins.callback
    import ansible.plugins.strategy.linear
    import ansible.plugins.connection.local
    import ansible.plugins.action.debug
    import ansibug._debuggee
    import ansible.vars.hostvars
    from ansible import constants as C

    preload()

    src = os.fdopen(rfd, "rb")
    while True:
        line = src.readline()
        if not line:
            return 0
        job = json.loads(line)
        pid = os.fork()
        if pid == 0:
            os.setsid()
            os.close(wfd)
            src.close()
            os.environ.update(job["env"])
            os.chdir(job["cwd"])
            null = os.open("/dev/null", os.O_RDONLY)
            out = os.open(job["out"], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
            os.dup2(null, 0)
            os.dup2(out, 1)
            os.dup2(out, 2)
            import tempfile

            C.DEFAULT_LOCAL_TMP = tempfile.mkdtemp(prefix="lt", dir=job["cwd"])
            sys.argv = ["ansible-playbook"] + job["args"]
            return ansible.cli.playbook.PlaybookCLI.cli_executor(sys.argv)
        os.write(wfd, (json.dumps({"pid": pid}) + "\n").encode())
        _, status = os.waitpid(pid, 0)
        os.write(wfd, (json.dumps({"status": os.waitstatus_to_exitcode(status)}) + "\n").encode())


if __name__ == "__main__":
    sys.exit(main())
