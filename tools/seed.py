#!/usr/bin/env python3
"""tools/seed.py ID PROPERTY FILE < spec   (spec: python literal {old,new,needs,breaks,demo} or list of (file, old, new) edits)

Makes seeded/ID from an edit of /repo: checks that the demo passes on a clean copy and fails on the edited one."""
import ast, json, os, pathlib, shutil, subprocess, sys

HERE = pathlib.Path(__file__).resolve().parent.parent
sid = sys.argv[1]
spec = ast.literal_eval(sys.stdin.read())
dest = HERE / "seeded" / sid
dest.mkdir(parents=True, exist_ok=True)
scratch = pathlib.Path("/tmp/seed") / sid
shutil.rmtree(scratch, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", str(scratch)], check=True)
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=scratch, check=True)
(dest / "demo.sh").write_text('#!/bin/bash\nexec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
(dest / "demo.py").write_text(spec["demo"].lstrip("\n"))
if "dbg" in spec["demo"]:
    shutil.copy(HERE / "tools/demo/dbg.py", dest / "dbg.py")


def demo():
    r = subprocess.run(["bash", str(dest / "demo.sh")], cwd=scratch, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


ok, text = demo()
print("clean:", ok, text)
for file, old, new in spec["edits"]:
    p = scratch / "src/ansibug" / file
    s = p.read_text()
    assert s.count(old) == 1, (file, s.count(old), old)
    p.write_text(s.replace(old, new))
diff = subprocess.run(["git", "diff"], cwd=scratch, capture_output=True, text=True).stdout
(dest / "patch.diff").write_text(diff)
bad, text = demo()
print("patched:", bad, text)
base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=scratch, capture_output=True, text=True).stdout.strip()
for file, old, new in spec["edits"]:
    orig = subprocess.run(["git", "show", f"{base}:src/ansibug/{file}"], cwd=scratch, capture_output=True, text=True).stdout.splitlines()
    gone = [x for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]
    print("changed original lines:", [x[1:] in orig for x in gone])
(dest / "meta.json").write_text(json.dumps({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, indent=1) + "\n")
if "--tests" in sys.argv or True:
    r = subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True)
    assert not r.stdout, r.stdout
    subprocess.run(["git", "-C", "/repo", "apply", str(dest / "patch.diff")], check=True)
    try:
        out = f"/tmp/seed/{sid}.json"
        subprocess.run(["bash", "/opt/vp/test.sh", out], capture_output=True)
        res = json.loads(pathlib.Path(out).read_text())
        base = json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())
        print({k: (len(v) if isinstance(v, list) else v) for k, v in res.items()})
        stable = base.get("stable") or base.get("passed") or base
        passed = set(res.get("passed", []))
        print("missing:", [t for t in stable if t not in passed][:5])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
shutil.rmtree(scratch, ignore_errors=True)
print("OK" if ok == 0 and bad != 0 else "NOT OK")
