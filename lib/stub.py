"""A stand-in for sys.executable used to observe what the tool starts.

The stub is a shell script.  `-c ...` (the launch script's clean up) and `-m
ansible...` are passed on to the real interpreter; anything else is recorded
(arguments, directory, environment, NUL separated) and then, with a `hold` file
in place, kept running until that file goes away."""
from __future__ import annotations

import os
import time

from vf import PYTHON

SCRIPT = """#!/bin/sh
D="${0%%/*}"
case "$1" in
 -c) exec "%(python)s" "$@" ;;
esac
case "$1 $2 $3" in
 "-m ansible config") exec "%(python)s" "$@" ;;
esac
{ printf '%%s\\0' "$@"; } > "$D/argv.tmp"
pwd -P > "$D/cwd"
cp /proc/self/environ "$D/env"
echo $$ > "$D/pid"
mv "$D/argv.tmp" "$D/argv"
while [ -e "$D/hold" ]; do sleep 0.02; done
exit "$(cat "$D/code" 2>/dev/null || echo 0)"
"""


def make_stub(where, python=PYTHON):
    """Writes the stub into the directory `where`."""
    path = os.path.join(where, "python-stub")
    with open(path, "w") as f:
        f.write(SCRIPT % {"python": python})
    os.chmod(path, 0o755)
    return path


def wait_for(path, timeout):
    end = time.monotonic() + timeout
    while not os.path.exists(path):
        if time.monotonic() > end:
            return False
        time.sleep(0.005)
    return True


def read_argv(where):
    with open(os.path.join(where, "argv"), "rb") as f:
        data = f.read()
    return [x for x in data.split(b"\0")[:-1]]


def read_env(where):
    with open(os.path.join(where, "env"), "rb") as f:
        data = f.read()
    return dict(x.split(b"=", 1) for x in data.split(b"\0") if b"=" in x)
