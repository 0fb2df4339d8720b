"""C06: sockets and launch scripts are private to the user at all times."""
from __future__ import annotations

import errno
import io
import json
import os
import pathlib
import signal
import socket
import stat
import sys
import threading
import traceback

from vf import HarnessError, Recorder, Test, Violation, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import _debuggee, _mp_queue, _socket_helper
from ansibug._debug_adapter import start_dap
from chan import Scratch

PROPERTY = "C06"
TECHNIQUE = "property-based testing: generated umasks, names and interference (planted links, pre-existing files), with the file system inspected at every call boundary of the creating code"
LEVEL_NOTE = "Random search; permissions are inspected at every Python/C call boundary during creation, so a window inside one C call is not seen, but every window between a creation and a later chmod is. Access by other users is tried for real with other uids."
RULE = (
    "A case creates a listening socket or a launch script under a generated umask, name and interference in a child process whose directories are inspected at every call boundary. "
    "Non-trivial: the object existed at one inspection at least, or its creation met something already there."
)
ASSUMPTIONS = ["umasks that take the owner's own permissions away are not generated.", "As root the owner's access is judged by the mode bits; in the cases that run as another user it is tried."]
BUDGET_S = {"quick": 40, "thorough": 600}


def forked(fn, timeout=60):
    """Runs fn() in a child process and returns its (JSON) value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = {"error": "?"}
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            os.close(r)
            out = {"value": fn()}
        except BaseException as e:
            out = {"error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-2000:]}
        finally:
            sys.setprofile(None)
            try:
                data = json.dumps(out).encode()
                while data:
                    data = data[os.write(w, data) :]
            finally:
                os._exit(0)
    os.close(w)
    chunks = []
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not chunks:
        raise Violation(f"the child process ended with status {status} (an alarm after {timeout} s is 14)")
    return json.loads(b"".join(chunks))


class Watch:
    """Looks at every entry of some directories at every call boundary."""

    def __init__(self, *dirs):
        self.dirs = dirs
        self.before = {os.path.join(d, n) for d in dirs for n in os.listdir(d)}
        self.ignore = set()
        self.seen = {}
        self.looks = 0
        self.hits = 0
        self.bad = []

    def look(self):
        self.looks += 1
        for d in self.dirs:
            try:
                names = os.listdir(d)
            except OSError:
                continue
            for n in names:
                p = os.path.join(d, n)
                if p in self.before or p in self.ignore:
                    continue
                try:
                    s = os.lstat(p)
                except OSError:
                    continue
                self.hits += 1
                self.seen[p] = stat.S_IFMT(s.st_mode)
                if s.st_mode & 0o077 and not stat.S_ISLNK(s.st_mode) and len(self.bad) < 5:
                    self.bad.append([n, oct(s.st_mode)])

    def hook(self, frame, event, arg):
        self.look()

    def __enter__(self):
        threading.setprofile(self.hook)
        sys.setprofile(self.hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        threading.setprofile(None)
        self.look()


UIDS = [0, 0, 64001]
umasks = st.one_of(st.sampled_from([0o000, 0o002, 0o022, 0o027, 0o077, 0o007, 0o070]), st.integers(0, 0o77))
name = st.one_of(st.sampled_from(["sock", "a b", "ü", "x#y", "%41"]), st.text(st.characters(codec="utf-8", exclude_characters="/\0"), min_size=1, max_size=8).filter(lambda x: x not in (".", "..")))
sock_cases = st.tuples(
    umasks,
    st.booleans(),  # the platform refuses fchmod on a socket
    st.sampled_from(["path", "path", "name", "fresh", "debugger"]),
    name,
    st.sampled_from(["none", "none", "none", "file", "link", "dangling", "dir", "missing dir"]),
    st.sampled_from(UIDS),
    st.sampled_from([(64002, 64002), (64002, 64001), (64002, 0)]),
)


def become(uid, gid):
    os.setgroups([])
    os.setgid(gid)
    os.setuid(uid)


def can_connect(path, uid, gid):
    def go():
        if uid != 0:
            become(uid, gid)
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(5)
        try:
            s.connect(path)
            return "connected"
        except OSError as e:
            return errno.errorcode.get(e.errno, str(e))
        finally:
            s.close()

    r = forked(go)
    if "error" in r:
        raise HarnessError(str(r))
    return r["value"]


def sockets(case, rec: Recorder):
    umask, einval, via, nm, there, uid, (ouid, ogid) = case
    with Scratch() as work:
        os.chmod(work, 0o755)
        for p in pathlib.Path(work).parents:
            if str(p) == "/tmp":
                break
            if not os.stat(p).st_mode & 0o001:
                os.chmod(p, os.stat(p).st_mode | 0o011)
        d = os.path.join(work, "d")
        os.mkdir(d)
        os.chown(d, uid, uid)
        # Anyone may enter the directory: the socket itself has to be private.
        os.chmod(d, 0o755)
        path = os.path.join(d, nm)
        if len(os.fsencode(path)) > 100:
            return
        if via in ("fresh",) and there != "none":
            there = "none"
        victim = os.path.join(work, "victim")
        with open(victim, "w") as f:
            f.write("precious")
        os.chmod(victim, 0o666)
        if there == "file":
            with open(path, "w") as f:
                f.write("precious")
        elif there == "link":
            os.symlink(victim, path)
        elif there == "dangling":
            os.symlink(os.path.join(work, "nothing"), path)
        elif there == "dir":
            os.mkdir(path)
        elif there == "missing dir":
            path = os.path.join(d, "gone", "s")
        before = os.lstat(path) if there not in ("none", "missing dir") else None
        r, w = os.pipe()

        def go():
            if uid:
                become(uid, uid)
            os.environ["TMPDIR"] = d
            import tempfile

            tempfile.tempdir = None
            if einval:
                real = os.fchmod

                def fchmod(fd, mode):
                    if stat.S_ISSOCK(os.fstat(fd).st_mode):
                        raise OSError(errno.EINVAL, "Invalid argument")
                    return real(fd, mode)

                os.fchmod = fchmod
            os.umask(umask)
            err = None
            q = None
            addr = {"path": "uds:" + path, "name": "uds://" + os.path.basename(path), "fresh": "uds://", "debugger": "uds:" + path}[via]
            if via == "name" and there == "missing dir":
                addr = "uds:" + path
            watch = Watch(d)
            with watch:
                try:
                    if via == "debugger":
                        q = _debuggee.AnsibleDebugger.__new__(_debuggee.AnsibleDebugger)
                        q.__init__()
                        watch.ignore.add(str(_debuggee.get_pid_info_path(os.getpid())))
                        q.start(addr, "listen")
                    else:
                        q = _mp_queue.ServerMPQueue(addr, proto=_mp_queue.MPProtocol)
                except OSError as e:
                    err = str(e)
            now = os.umask(0)
            os.umask(now)
            out = dict(err=err, umask=now, bad=watch.bad, hits=watch.hits, looks=watch.looks, socks=[p for p, t in watch.seen.items() if t == stat.S_IFSOCK])
            if err is None:
                # Let the parent try it before it is gone.
                os.write(w, json.dumps(out).encode())
                os.close(w)
                sys.stdin = None
                os.read(hold_r, 1)
                (q.shutdown if via == "debugger" else q.stop)()
                out["left"] = [p for p in out["socks"] if os.path.lexists(p)]
                now = os.umask(0)
                out["umask"] = now
            return out

        hold_r, hold_w = os.pipe()
        res = {}

        def parent():
            os.close(w)
            data = b""
            while True:
                c = os.read(r, 65536)
                if not c:
                    break
                data += c
            if data:
                mid = json.loads(data)
                if len(mid["socks"]) == 1:
                    p = mid["socks"][0]
                    res["mode"] = os.lstat(p).st_mode
                    res["owner"] = os.lstat(p).st_uid
                    res["other"] = can_connect(p, ouid, ogid)
                    if uid:
                        res["self"] = can_connect(p, uid, uid)
            os.write(hold_w, b"x")

        t = threading.Thread(target=lambda: None)
        # The child runs in a helper call; the parent talks to it meanwhile.
        box = {}

        pid_done = []

        def run_child():
            box["r"] = forked(go)

        # fork first, then talk: forked() blocks, so talk from a thread that
        # was created before but only starts its work once data arrives.
        talk = threading.Thread(target=parent_guard(parent, box))
        # The write end must only be open in the child for the end of file.
        orig_fork = os.fork

        def fork_then_talk():
            pid = orig_fork()
            if pid:
                os.fork = orig_fork
                talk.start()
            else:
                os.fork = orig_fork
                os.close(hold_w)
            return pid

        os.fork = fork_then_talk
        try:
            run_child()
        finally:
            os.fork = orig_fork
            if talk.ident:
                talk.join(60)
            for fd in (r, hold_r, hold_w):
                os.close(fd)
        out = box["r"]
        if "talk" in box:
            raise HarnessError(box["talk"])
        if "error" in out:
            raise Violation(f"creating the socket failed with {out['error']}\n{out.get('tb')}")
        v = out["value"]
        if v["hits"] or there != "none":
            rec.nontrivial()
        rec.tag(f"{via}{' (umask fallback)' if einval else ''}")
        require(v["umask"] == umask, f"the umask was {umask:#o} and is {v['umask']:#o} afterwards")
        require(not v["bad"], f"under umask {umask:#o} the socket was accessible to others at some moment: {v['bad']}")
        if there in ("none",):
            require(v["err"] is None, f"listening failed: {v['err']}")
            require(len(v["socks"]) == 1, f"sockets created: {v['socks']}")
            require(res.get("mode", 0) & 0o600 == 0o600, f"the owner has no access: mode {res.get('mode', 0):#o}")
            require(res["owner"] == uid, "the socket belongs to someone else")
            require(res["other"] == "EACCES", f"user {ouid} group {ogid} could try to connect: {res['other']}")
            if uid:
                require(res["self"] == "connected", f"the owner cannot connect: {res['self']}")
            require(not v["left"], "the socket file is left after stop")
        else:
            rec.tag("there: " + there)
            require(v["err"] is not None, f"listening on a path with a {there} there succeeded")
            if before is not None:
                now = os.lstat(path)
                require((now.st_ino, now.st_mode, now.st_size) == (before.st_ino, before.st_mode, before.st_size), f"the {there} that was there was changed")
        with open(victim) as f:
            require(f.read() == "precious", "the file a link pointed to was changed")


def parent_guard(fn, box):
    def run():
        try:
            fn()
        except BaseException:
            box["talk"] = traceback.format_exc()

    return run


# -- launch scripts ----------------------------------------------------------

script_cases = st.tuples(
    umasks,
    st.sampled_from(["given", "given", "default"]),
    name,
    st.lists(st.sampled_from(["link", "dangling", "file", "dir", "hardlink"]), max_size=3),
    st.booleans(),
    st.sampled_from(UIDS),
    st.text(max_size=10),
    st.sampled_from([None, "debug"]),
)


def frames(data):
    out = []
    while data:
        head, _, rest = data.partition(b"\r\n\r\n")
        n = int(head.split(b":")[1])
        out.append(json.loads(rest[:n]))
        data = rest[n:]
    return out


def scripts(case, rec: Recorder):
    umask, where, nm, plants, einval, uid, playbook, level = case
    with Scratch() as work:
        os.chmod(work, 0o755)
        for p in pathlib.Path(work).parents:
            if str(p) == "/tmp":
                break
            if not os.stat(p).st_mode & 0o001:
                os.chmod(p, os.stat(p).st_mode | 0o011)
        tmp, given, vic = (os.path.join(work, x) for x in ("t", "g" + nm, "v"))
        for d in (tmp, given, vic):
            os.mkdir(d)
            os.chmod(d, 0o777)
        victim = os.path.join(vic, "victim")
        with open(victim, "w") as f:
            f.write("precious")
        os.chmod(victim, 0o666)
        vicst = os.stat(victim)
        target = given if where == "given" else tmp

        def go():
            planted = []
            if uid:
                become(uid, uid)
            os.environ["TMPDIR"] = tmp
            import tempfile

            tempfile.tempdir = None
            os.umask(umask)
            watch = Watch(tmp, given)
            todo = list(plants)
            busy = []

            def audit(event, args):
                if event == "open" and todo and not busy and isinstance(args[0], (str, bytes)) and isinstance(args[2], int) and args[2] & os.O_CREAT:
                    p = os.fsdecode(args[0])
                    if os.path.dirname(os.path.abspath(p)) == target and not os.path.lexists(p):
                        busy.append(1)
                        k = todo.pop()
                        watch.ignore.add(p)
                        planted.append([k, p])
                        try:
                            if k == "link":
                                os.symlink(victim, p)
                            elif k == "dangling":
                                os.symlink(os.path.join(vic, "new"), p)
                            elif k == "file":
                                # Someone else's file that everyone may write.
                                with open(p, "w") as f:
                                    f.write("mine")
                                os.chmod(p, 0o666)
                            elif k == "hardlink":
                                try:
                                    os.link(victim, p)
                                except OSError:
                                    os.symlink(victim, p)
                            else:
                                os.mkdir(p)
                        finally:
                            busy.pop()

            data = b""
            for i, (c, a) in enumerate([("initialize", dict(adapterID="x")), ("launch", dict(playbook=playbook or "p"))]):
                b = json.dumps(dict(seq=i + 1, type="request", command=c, arguments=a)).encode()
                data += b"Content-Length: %d\r\n\r\n" % len(b) + b
            r, w = os.pipe()
            os.write(w, data)
            os.close(w)
            outp = os.path.join(vic, "out") if not uid else None
            ofd = os.open(outp, os.O_RDWR | os.O_CREAT, 0o600) if outp else os.memfd_create("out")
            sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(r, "r")))
            sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(os.dup(ofd), "w")))
            sys.addaudithook(audit)
            err = None
            with watch:
                try:
                    start_dap(pathlib.Path(vic) / "log" if level and not uid else None, level or "info", pathlib.Path(given) if where == "given" else None)
                except Exception:
                    err = traceback.format_exc()[-1500:]
            todo.clear()
            now = os.umask(0)
            os.lseek(ofd, 0, 0)
            raw = b""
            while c := os.read(ofd, 65536):
                raw += c
            fr = [f for f in frames(raw) if f.get("command") == "runInTerminal"]
            out = dict(err=err, bad=watch.bad, hits=watch.hits, umask=now, planted=planted, kinds=sorted(set(watch.seen.values())))
            if fr:
                p = fr[0]["arguments"]["args"][0]
                s = os.lstat(p)
                with open(p, encoding="utf-8", errors="surrogateescape") as f:
                    text = f.read()
                out.update(script=p, mode=s.st_mode, uid=s.st_uid, links=s.st_nlink, size=len(text), shebang=text[:2])
            out["after"] = []
            for k, p in planted:
                if k == "file":
                    with open(p) as f:
                        out["after"].append([k, p, f.read() == "mine"])
                elif k == "hardlink":
                    out["after"].append([k, p, os.path.lexists(p)])
                elif k == "dir":
                    out["after"].append([k, p, os.listdir(p) == []])
                else:
                    out["after"].append([k, p, os.path.islink(p)])
            return out

        r = forked(go)
        if "error" in r:
            raise HarnessError(str(r))
        v = r["value"]
        rec.nontrivial()
        require("script" in v, f"no terminal command was requested (planted: {v['planted']}); {v['err']}")
        rec.tag("planted", len(v["planted"]))
        what = f"umask {umask:#o}"
        require(not v["bad"], f"{what}: accessible to others at some moment: {v['bad']}")
        require(v["umask"] == umask, f"{what}: the umask is {v['umask']:#o} afterwards")
        require(stat.S_ISREG(v["mode"]) and v["links"] == 1, f"{what}: the script is not a new regular file: mode {v['mode']:#o}, {v['links']} links")
        require(v["mode"] & 0o500 == 0o500, f"{what}: the owner cannot run the script: {v['mode']:#o}")
        require(v["mode"] & 0o077 == 0, f"{what}: the script has mode {v['mode']:#o}")
        require(v["uid"] == uid, f"{what}: the script belongs to {v['uid']}")
        require(v["shebang"] == "#!", f"{what}: the script is empty")
        require(os.path.dirname(v["script"]) == target, f"the script is {v['script']}, not in {target}")
        require(all(x[2] for x in v["after"]), f"something that was there was changed: {v['after']}")
        require(v["script"] not in [p for _, p in v["planted"]], f"the script was written to something that was there: {v['planted']}")
        now = os.stat(victim)
        with open(victim) as f:
            require(f.read() == "precious" and now.st_mode == vicst.st_mode, "the file a link pointed to was changed")
        require(not os.path.lexists(os.path.join(vic, "new")), "a dangling link was followed")


TESTS = [
    Test("sockets", lambda: sock_cases, sockets, quick=1200, thorough=30000, case_timeout=120),
    Test("scripts", lambda: script_cases, scripts, quick=800, thorough=20000, case_timeout=120),
]
