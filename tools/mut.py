"""mut.py CHECKS FILE OLD NEW: runs checks against a scratch copy of /repo with OLD replaced by NEW in FILE."""
import os, shutil, subprocess, sys, tempfile
checks, file, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="wt", dir="/tmp")
try:
    subprocess.run(["cp", "-a", "/repo", d + "/r"], check=True)
    p = f"{d}/r/src/ansibug/{file}"
    s = open(p).read()
    assert s.count(old) >= 1, "OLD not found"
    open(p, "w").write(s.replace(old, new, 1))
    for c in checks.split(","):
        r = subprocess.run(["bash", "run.sh", c], cwd="/verif", env=dict(os.environ, VERIF_REPO=d + "/r"), capture_output=True, text=True)
        print(c, "exit", r.returncode, "|", "\n".join(l[:600] for l in r.stdout.splitlines() if l.startswith(("---", "VIOLATION", "    case"))), r.stderr[-500:])
finally:
    shutil.rmtree(d)
