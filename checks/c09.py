"""C09: a launch runs exactly the requested playbook command."""
from __future__ import annotations

import json
import os
import pathlib
import random
import signal
import subprocess
import sys
import threading
import time

from vf import HarnessError, Recorder, Test, Violation, guard, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import _mp_queue as mpq
from ansibug import dap
from ansibug.__main__ import parse_args
from ansibug._debug_adapter import AttachArguments, LaunchArguments
from ansibug._debuggee import PathMapping, PlaybookProcessInfo
from ansibug._tls import create_server_tls_context
import c07
from c08 import PROMPT, Adapter, Session, in_terminal_response, init, terminated, wait_terminal
from chan import Bg, Rec, Scratch, quiet_stop
from stub import make_stub, read_argv, read_env, wait_for

PROPERTY = "C09"
TECHNIQUE = "property-based testing: generated launch and attach requests against the real adapter, with the requested terminal command really run and observed through a recording interpreter"
LEVEL_NOTE = "Random search. The terminal command runs under the system's sh with a stand-in for sys.executable that records what it is given; argument defaults are compared with a table of the documented ones."
RULE = (
    "A case is a launch request (or attach request) with generated contents, the places it happens in and, for the early-end test, how and when the launched process ends. "
    "Non-trivial: some string has a character that is special to a shell, is not ASCII, is empty or has white space; or an option is absent, or invalid; or the launched process ended early."
)
ASSUMPTIONS = [
    "Environment variable names are identifiers, as sh drops others; PATH and variables of the shell and the dynamic loader are not overridden.",
    "Socket paths stay within the platform's limit. Ending promptly is taken as within 20 s with a connect timeout of 600 s.",
    "Arguments that abbreviate several of ansibug's own options (--l, --lo, --log, --log-) are not generated.",
]
BUDGET_S = {"quick": 50, "thorough": 900}

word = st.one_of(
    st.sampled_from(
        ["", " ", "a b", "$HOME", "${SN}", "$(id)", "`id`", "'", '"', '\\', "a'b\"c", "\n", "a\nb", "tab\t", "*", "?", "~", "~root", "-e", "--", "-", "x=y", "é", "日本", "🎉", "!x", "#x", ";ls", "&", "|", ">f", "{a,b}", "%s", "%%", "{python}", "$@", "$0", "--addr", "--no-wait", "-h", "--log-file"]
    ),
    st.text(st.characters(codec="utf-8", exclude_characters="\0"), max_size=12),
    st.text(st.sampled_from(" '\"$\\`\n;{}()*-a%!~=\t"), max_size=10),
).filter(lambda x: not (x.startswith("--l") and "--log-file".startswith(x) and "--log-level".startswith(x)))
fname = word.map(lambda x: x.replace("/", "_").replace("\0", "")).filter(lambda x: x not in ("", ".", "..") and len(os.fsencode(x)) < 60)
short_name = word.map(lambda x: x.replace("/", "_")).filter(lambda x: x not in ("", ".", "..") and len(os.fsencode(x)) < 22)
playbook = st.one_of(st.just("main.yml"), word).filter(lambda x: x and not x.startswith("-"))
env_name = st.from_regex(r"\A[A-Za-z_][A-Za-z0-9_]{0,8}\Z").map(lambda x: "V_" + x)
env = st.dictionaries(st.one_of(env_name, st.sampled_from(["ANSIBLE_CONFIG", "HOME", "LANG", "V_SET"])), st.one_of(st.none(), word), max_size=5)
mappings = st.lists(st.tuples(word, word), max_size=2)
launches = st.tuples(
    playbook,
    st.lists(word, max_size=5),
    env,
    st.one_of(st.none(), fname),  # the working directory
    short_name,  # the temporary directory of the sockets
    st.one_of(st.none(), fname),  # the temporary directory of the script
    st.one_of(st.none(), word.filter(bool)),
    st.one_of(st.none(), st.sampled_from(["info", "debug", "warning", "error"])),
    st.one_of(st.none(), st.sampled_from(["integratedTerminal", "externalTerminal"])),
    mappings,
    fname,  # the directory of the interpreter
    st.booleans(),  # leave the optional properties out when they are empty
)
SHELL_VARS = {b"PWD", b"OLDPWD", b"SHLVL", b"_", b"PPID", b"PS1", b"PS2", b"PS4", b"OPTIND", b"IFS"}
SPECIAL = set(" '\"$\\`\n;{}()*-%!~=\t&|<>?#")


def make_case_arguments(case, cwd_path):
    playbook, args, env, cwd, tmp, stmp, log, level, console, maps, pydir, sparse = case
    a = dict(playbook=playbook, args=args, cwd=cwd_path, env=env, pathMappings=[dict(localRoot=x, remoteRoot=y) for x, y in maps], connectTimeout=60)
    if log is not None:
        a["logFile"] = log
    if level is not None:
        a["logLevel"] = level
    if console is not None:
        a["console"] = console
    if sparse:
        for k in ("args", "cwd", "env", "pathMappings"):
            if not a[k]:
                del a[k]
    return a


def launch(case, rec: Recorder):
    playbook, args, env, cwd, tmp, stmp, log, level, console, maps, pydir, sparse = case
    if any(c in SPECIAL or ord(c) > 126 for x in [playbook, *args, tmp, pydir, *(v or "" for v in env.values())] for c in x) or "" in args:
        rec.nontrivial()
    with Scratch() as work:
        dirs = {}
        for k, n in (("cwd", cwd), ("t", tmp), ("script", stmp), ("py", pydir)):
            if n is not None:
                os.mkdir(os.path.join(work, k))
                dirs[k] = os.path.join(work, k, n)
                os.mkdir(dirs[k])
        stub = make_stub(dirs["py"])
        if len(os.fsencode(dirs["t"])) + 50 > 105:
            return
        hold = os.path.join(dirs["py"], "hold")
        open(hold, "w").close()
        old_tmp = os.environ.get("TMPDIR")
        os.environ["TMPDIR"] = dirs["t"]
        os.environ["V_SET"] = "from the client's environment"
        import tempfile

        tempfile.tempdir = None
        here = os.path.join(work, "here")
        os.mkdir(here)
        a = Adapter(work, None, "debug" if len(args) == 3 else None, stub, dirs.get("script"), (65536, 0))
        s = Session(a, rec)
        rp = Rec()
        q = script = None
        try:
            init(s)
            wanted = make_case_arguments(case, dirs.get("cwd", ""))
            a.write(s.request("launch", wanted))
            t = wait_terminal(s)
            got = t["arguments"]
            require(got.get("kind") == ("external" if console == "externalTerminal" else "integrated"), lambda: f"console {console!r} became {got.get('kind')!r}")
            require(got.get("cwd") == wanted.get("cwd", ""), lambda: f"cwd {wanted.get('cwd')!r} became {got.get('cwd')!r}")
            require((got.get("env") or {}) == env, lambda: f"env {env!r} became {got.get('env')!r}")
            path = got["args"][0]
            require(got["args"][1:] == [playbook, *args], lambda: f"playbook and arguments {[playbook, *args]!r} became {got['args'][1:]!r}")
            sdir = dirs.get("script", dirs["t"])
            require(os.path.dirname(path) == sdir, lambda: f"the script is {path!r}, not in {sdir!r}")
            full = dict(os.environ)
            for k, v in env.items():
                if v is None:
                    full.pop(k, None)
                else:
                    full[k] = v
            before = set(os.listdir(sdir))
            with open(os.path.join(work, "term"), "wb") as term:
                script = subprocess.Popen(got["args"], cwd=dirs.get("cwd", here), env=full, stdin=subprocess.DEVNULL, stdout=term, stderr=term, start_new_session=True)
            a.write(in_terminal_response(s, t))
            if not wait_for(os.path.join(dirs["py"], "argv"), PROMPT):
                with open(os.path.join(work, "term"), "rb") as term:
                    raise Violation(f"running the terminal command started nothing: {term.read()[-500:]!r}")
            argv = [os.fsdecode(x) for x in read_argv(dirs["py"])]
            require(argv[:2] == ["-m", "ansibug"] and argv[2:3] == ["connect"], lambda: f"executed {argv!r}")
            # The addr is given first, the rest is judged by its meaning.
            try:
                ns = parse_args(argv[2:])
            except SystemExit:
                raise Violation(f"the executed command line is not accepted: {argv!r}")
            require(ns.playbook_args == [playbook, *args], lambda: f"playbook arguments {[playbook, *args]!r} became {ns.playbook_args!r}")
            require(ns.no_wait is False, "the launched process does not wait for the client")
            if log is None:
                require(ns.log_file is None, lambda: f"log file {ns.log_file!r} without one requested")
            else:
                want = pathlib.Path(os.path.expanduser(os.path.expandvars(log)))
                require(ns.log_file == want, lambda: f"log file {log!r}: {argv!r}")
                require(ns.log_level == (level or "info"), lambda: f"log level {level!r} became {ns.log_level!r}")
            with open(os.path.join(dirs["py"], "cwd"), "rb") as f:
                real = os.fsdecode(f.read()[:-1])
            require(real == os.path.realpath(dirs.get("cwd", here)), lambda: f"runs in {real!r}")
            genv = {k: v for k, v in read_env(dirs["py"]).items() if k not in SHELL_VARS}
            wenv = {os.fsencode(k): os.fsencode(v) for k, v in full.items() if os.fsencode(k) not in SHELL_VARS}
            diff = {k: (wenv.get(k), genv.get(k)) for k in set(wenv) | set(genv) if wenv.get(k) != genv.get(k)}
            require(not diff, lambda: f"environment differs (expected, got): {diff}")
            require(not os.path.lexists(path), "the launch script did not remove itself")
            after = set(os.listdir(sdir))
            require(before - after <= {os.path.basename(path)}, lambda: f"files were removed from the script's directory: {before - after}")
            q = mpq.ClientMPQueue(ns.addr, proto=lambda: rp)
            Bg(lambda: q.start(timeout=PROMPT)).result(PROMPT + 5, "connecting to the address of the command line")
            require(s.wait_answer(2), "the launch request is not answered after the connection")
            require(s.responses(2)[0].get("success"), lambda: f"the launch failed: {s.responses(2)[0]}")
            require(rp.wait(lambda: rp.got, PROMPT), "no debug configuration")
            pm = [(p.local_root, p.remote_root) for p in rp.got[0].data.path_mappings]
            require(pm == maps, lambda: f"path mappings {maps} became {pm}")
            a.write(s.request("disconnect", {}))
            require(a.ended(PROMPT), "the adapter is still running after a disconnect")
        finally:
            if os.path.exists(hold):
                os.unlink(hold)
            quiet_stop(q)
            a.close()
            if script:
                try:
                    script.wait(20)
                except subprocess.TimeoutExpired:
                    os.killpg(script.pid, signal.SIGKILL)
                    script.wait()
            os.environ.pop("V_SET", None)
            if old_tmp is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = old_tmp
            tempfile.tempdir = None


# -- the launched process ends before it connects -----------------------------

early = st.tuples(
    st.sampled_from(["exit", "exit", "kill", "term", "int-group", "hup-group", "term-shell", "quit-group", "segv"]),
    st.integers(0, 255),
    st.sampled_from([0, 0, 0.002, 0.05, 0.2]),
    st.sampled_from(["before", "after", "after"]),  # the terminal's answer comes before or after the end
    short_name,
)


def early_end(case, rec: Recorder):
    how, code, delay, order, tmp = case
    rec.nontrivial()
    rec.tag(how)
    with Scratch() as work:
        tdir = os.path.join(work, tmp)
        os.mkdir(tdir)
        if len(os.fsencode(tdir)) + 50 > 105:
            return
        stub = make_stub(work)
        hold = os.path.join(work, "hold")
        with open(os.path.join(work, "code"), "w") as f:
            f.write(str(code))
        if how != "exit" or delay:
            open(hold, "w").close()
        old_tmp = os.environ.get("TMPDIR")
        os.environ["TMPDIR"] = tdir
        import tempfile

        tempfile.tempdir = None
        a = Adapter(work, None, None, stub, None, (65536, 0))
        s = Session(a, rec)
        script = None
        try:
            init(s)
            a.write(s.request("launch", dict(playbook="p", connectTimeout=600)))
            t = wait_terminal(s)
            script = subprocess.Popen(t["arguments"]["args"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            if order == "before":
                a.write(in_terminal_response(s, t))
            require(wait_for(os.path.join(work, "argv"), PROMPT), "the terminal command started nothing")
            time.sleep(delay)
            with open(os.path.join(work, "pid")) as f:
                pid = int(f.read())
            try:
                if how == "exit":
                    if os.path.exists(hold):
                        os.unlink(hold)
                elif how.endswith("-group"):
                    os.killpg(script.pid, dict(int=signal.SIGINT, hup=signal.SIGHUP, quit=signal.SIGQUIT)[how.split("-")[0]])
                elif how == "term-shell":
                    os.kill(script.pid, signal.SIGTERM)
                    os.unlink(hold)
                else:
                    os.kill(pid, dict(kill=signal.SIGKILL, term=signal.SIGTERM, segv=signal.SIGSEGV)[how])
            except ProcessLookupError:
                pass
            if order == "after":
                if len(tmp) % 2:
                    script.wait(PROMPT)
                a.write(in_terminal_response(s, t))
            ok = a.wait(lambda fr: terminated(fr))
            require(ok, lambda: f"the launched process ended ({how}), {PROMPT} s later the session has not; {a.stderr()}")
            require(s.wait_answer(2), "the launch request is not answered")
            require(not s.responses(2)[0].get("success"), "the launch is reported as successful")
            require(not os.path.lexists(t["arguments"]["args"][0]), "the launch script is still there")
        finally:
            if os.path.exists(hold):
                os.unlink(hold)
            a.close()
            if script:
                try:
                    script.wait(20)
                except subprocess.TimeoutExpired:
                    os.killpg(script.pid, signal.SIGKILL)
                    script.wait()
            if old_tmp is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = old_tmp
            tempfile.tempdir = None


# -- arguments ---------------------------------------------------------------

ABSENT = "<absent>"


def opt(s):
    return st.one_of(st.just(ABSENT), s)


jmaps = st.lists(st.tuples(word, word), max_size=3)
attach_args = st.tuples(
    opt(st.one_of(st.none(), st.integers(0, 3))),
    opt(st.sampled_from(["uds:///a", "tcp://h:1", ""])),
    opt(st.one_of(st.integers(0, 100), st.floats(0, 100), st.just("7.5"))),
    opt(st.booleans()),
    opt(st.sampled_from(["verify", "ignore", "/ca.pem"])),
    opt(st.one_of(st.none(), word)),
    opt(st.one_of(st.none(), word)),
    opt(st.one_of(st.none(), word)),
    opt(jmaps),
    st.lists(st.tuples(st.integers(0, 3), word, st.booleans(), st.one_of(st.none(), word)), max_size=3),
)


def attach_arguments(case, rec: Recorder):
    pid, addr, timeout, tls, ver, cert, key, pw, maps, infos = case
    names = ["processId", "address", "connectTimeout", "useTls", "tlsVerification", "tlsCertificate", "tlsKey", "tlsKeyPassword"]
    data = {n: v for n, v in zip(names, case) if v != ABSENT}
    if maps != ABSENT:
        data["pathMappings"] = [dict(localRoot=x, remoteRoot=y) for x, y in maps]
    data["request"] = "attach"
    data["unknown"] = 1
    if ABSENT in case:
        rec.nontrivial()
    got = guard(lambda: AttachArguments.from_json(json.loads(json.dumps(data))), "parsing attach arguments")
    default = lambda v, d: d if v == ABSENT else v
    want = dict(
        process_id=default(pid, None), address=default(addr, ""), connect_timeout=float(default(timeout, 5.0)), use_tls=default(tls, False), tls_verification=default(ver, "verify"),
        tls_cert=default(cert, None), tls_key=default(key, None), tls_key_password=default(pw, None), path_mappings=[PathMapping(local_root=x, remote_root=y) for x, y in default(maps, [])],
    )
    for k, v in want.items():
        g = getattr(got, k)
        require(g == v and type(g) is type(v), lambda: f"{k} is {g!r}, expected {v!r} for {data!r}")
    with Scratch() as work:
        old = os.environ.get("TMPDIR")
        os.environ["TMPDIR"] = work
        try:
            base = os.getpid() * 10
            table = {}
            for p, ad, t, pb in infos:
                # Written as the listening process does it.
                table[p] = (ad, t)
                info = dict(pid=base + p, address=ad, use_tls=t, playbook_file=pb)
                obj = PlaybookProcessInfo.from_json(json.loads(json.dumps(info)))
                require(obj.to_json() == info, lambda: f"the process information {info} became {obj.to_json()}")
                with open(os.path.join(work, f"ansibug-pid-{base + p}"), "w") as f:
                    json.dump(info, f)
            real_pid = pid if pid in (None, ABSENT) else base + pid
            data2 = dict(data)
            if "processId" in data2 and data2["processId"] is not None:
                data2["processId"] = real_pid
            obj = AttachArguments.from_json(data2)
            try:
                res = obj.get_connection_tuple()
            except ValueError as e:
                res = ("refused", str(e))
            if pid not in (None, ABSENT):
                if pid in table:
                    require(res == table[pid], lambda: f"attach to a process at {table[pid]} uses {res}")
                else:
                    require(res[0] == "refused", lambda: f"attach to an unknown process uses {res}")
                    rec.tag("unknown process")
            elif addr not in (ABSENT, ""):
                require(res == (addr, default(tls, False)), lambda: f"attach to {addr} uses {res}")
            else:
                require(res[0] == "refused", lambda: f"attach without a process or an address uses {res}")
                rec.tag("no address")
        finally:
            if old is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = old


launch_args = st.tuples(
    opt(st.one_of(st.just(""), st.none(), word)),
    opt(st.lists(word, max_size=3)),
    opt(word),
    opt(st.dictionaries(word, st.one_of(st.none(), word), max_size=3)),
    opt(st.sampled_from(["integratedTerminal", "externalTerminal", "internalConsole", "integrated", "external", "", "IntegratedTerminal"])),
    opt(st.one_of(st.integers(0, 100), st.floats(0, 100))),
    opt(jmaps),
    opt(st.one_of(st.none(), word)),
    opt(st.sampled_from(["info", "debug", "warning", "error"])),
)


def launch_arguments(case, rec: Recorder):
    pb, args, cwd, env, console, timeout, maps, log, level = case
    names = ["playbook", "args", "cwd", "env", "console", "connectTimeout", "pathMappings", "logFile", "logLevel"]
    data = {n: v for n, v in zip(names, case) if v != ABSENT and n != "pathMappings"}
    if maps != ABSENT:
        data["pathMappings"] = [dict(localRoot=x, remoteRoot=y) for x, y in maps]
    data["noDebug"] = False
    if ABSENT in case:
        rec.nontrivial()
    try:
        got = LaunchArguments.from_json(json.loads(json.dumps(data)))
    except ValueError as e:
        got = e
    consoles = {ABSENT: "integrated", "integratedTerminal": "integrated", "externalTerminal": "external"}
    if pb in (ABSENT, None, "") or console not in consoles:
        require(isinstance(got, ValueError), lambda: f"accepted {data!r}")
        rec.tag("refused")
        return
    if isinstance(got, ValueError):
        raise Violation(f"refused {data!r}: {got}")
    default = lambda v, d: d if v == ABSENT else v
    want = dict(
        playbook=pb, args=default(args, []), cwd=default(cwd, ""), env=default(env, {}), console=consoles[console], connect_timeout=float(default(timeout, 5.0)),
        path_mappings=[PathMapping(local_root=x, remote_root=y) for x, y in default(maps, [])], log_file=default(log, None), log_level=default(level, "info"),
    )
    for k, v in want.items():
        g = getattr(got, k)
        require(g == v and type(g) is type(v), lambda: f"{k} is {g!r}, expected {v!r} for {data!r}")


# -- attach settings, end to end ----------------------------------------------

attach_tls = st.tuples(
    st.sampled_from(["process", "address"]),
    st.booleans(),  # TLS
    st.sampled_from([("verify", "A"), ("verify", "none"), ("ignore", "none"), ("path", "A"), ("path", "B"), ("path", "dirA")]),
    st.one_of(st.none(), st.tuples(st.sampled_from(["A-good", "B-good"]), c07.files)),
    st.sampled_from([None, "A", "B"]),
    c07.spelling,
)


def attach_end_to_end(case, rec: Recorder):
    by, tls, (vkind, vwhat), cert, server_ca, spelling = case
    P = c07.P
    ctx = None
    if tls:
        ctx = create_server_tls_context(certfile=P("A-good.combined.pem"), keyfile=None, password=None, ca_trust=P(f"ca{server_ca}.pem") if server_ca else None)
        rec.nontrivial()
    with Scratch() as work:
        old = {k: os.environ.get(k) for k in ("TMPDIR", "SSL_CERT_FILE")}
        os.environ["TMPDIR"] = work
        if vkind == "verify" and vwhat != "none":
            os.environ["SSL_CERT_FILE"] = P(f"ca{vwhat}.pem")
        rp = Rec()
        q = mpq.ServerMPQueue("tcp://127.0.0.1:0", proto=lambda: rp, ssl_context=ctx)
        started = Bg(q.start)
        a = Adapter(work, None, None, sys.executable, None, (65536, 0))
        s = Session(a, rec)
        try:
            args = dict(connectTimeout=30)
            if by == "process":
                with open(os.path.join(work, "ansibug-pid-77777777"), "w") as f:
                    json.dump(dict(pid=77777777, address=q.address, use_tls=tls, playbook_file="x"), f)
                args["processId"] = 77777777
                # The process file decides.
                args["useTls"] = not tls
            else:
                args["address"] = q.address
                args["useTls"] = tls
            args["tlsVerification"] = c07.spell(P(f"cadir{vwhat[3:]}" if vwhat.startswith("dir") else f"ca{vwhat}.pem"), spelling) if vkind == "path" else vkind
            if cert:
                n, f = cert
                main = {"combined": "combined", "split": "cert", "enc": "cert", "encboth": "encboth"}[f]
                args["tlsCertificate"] = P(f"{n}.{main}.pem")
                if f == "split":
                    args["tlsKey"] = P(f"{n}.key.pem")
                elif f == "enc":
                    args["tlsKey"] = P(f"{n}.enc.pem")
                if f.startswith("enc"):
                    args["tlsKeyPassword"] = "pä ss"
            init(s)
            a.write(s.request("attach", args))
            ok = True
            if tls:
                ok = vkind == "ignore" or vwhat in ("A", "dirA")
                if server_ca and not (cert and cert[0].startswith(server_ca)):
                    ok = False
            require(s.wait_answer(2, 60), lambda: f"attach is not answered; {a.stderr()}")
            r = s.responses(2)[0]
            require(bool(r.get("success")) == ok, lambda: f"attach with {args} to a server with{' TLS' if tls else 'out TLS'} and client CA {server_ca} {'succeeded' if r.get('success') else 'failed'}: {str(r.get('message') or r.get('body'))[-400:]}")
            rec.tag("established" if ok else "refused")
            if ok:
                require(rp.wait(lambda: rp.got, PROMPT), "no debug configuration")
                if tls:
                    peer = q._socket._sock.getpeercert(binary_form=True)
                    require((peer is not None) == bool(cert and server_ca), lambda: f"the server saw the client certificate: {peer is not None}")
                a.write(s.request("disconnect", {}))
            require(a.ended(PROMPT), "the adapter is still running")
        finally:
            quiet_stop(q)
            a.close()
            for k, v in old.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v


worker_setup = c07.worker_setup

TESTS = [
    Test("launch", lambda: launches, launch, quick=800, thorough=30000, case_timeout=240, shrink_s=40),
    Test("early-end", lambda: early, early_end, quick=280, thorough=8000, case_timeout=240, shrink_s=60, confirm=1),
    Test("attach", lambda: attach_tls, attach_end_to_end, quick=320, thorough=8000, case_timeout=240),
    Test("attach-arguments", lambda: attach_args, attach_arguments, quick=2400, thorough=60000),
    Test("launch-arguments", lambda: launch_args, launch_arguments, quick=2400, thorough=60000),
]
TESTS[0].share = 3.0
TESTS[1].share = 1.5
