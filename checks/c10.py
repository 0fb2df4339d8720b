"""C10: connect/listen start ansible-playbook with the user's setup intact."""
from __future__ import annotations

import json
import os
import pathlib
import signal
import sys
import threading
import time
import traceback

from vf import HarnessError, PYTHON, Recorder, REPO, Test, Violation, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansible.config import manager as cfgm

from ansibug import _mp_queue as mpq
from ansibug import dap
from ansibug._tls import create_client_tls_context
import ansibug.__main__ as amain
import c07
from c06 import forked
from c09 import word, fname
from chan import Bg, Rec, Scratch, quiet_stop
from stub import make_stub, read_argv, read_env

PROPERTY = "C10"
TECHNIQUE = "property-based testing: generated command lines, environments and Ansible configurations, with the started program replaced by a recorder and the result judged by Ansible's own configuration code (metamorphic: with and without the debugger)"
LEVEL_NOTE = "Random search. The real entry point runs in a child process up to and including its exec; Ansible's ConfigManager, trusted, says what each environment means. The settings test drives the real callback plugin with a real connection."
RULE = (
    "A case is a command line with generated options and playbook arguments in a generated environment and configuration, or a set of options given to the real callback. "
    "Non-trivial: at least one option, or user configuration of callbacks, collections or the Python path, or an unusual character."
)
ASSUMPTIONS = [
    "The first playbook argument does not start with a dash, and no argument abbreviates several of ansibug's own options.",
    "Empty PYTHONPATH entries, which mean the current directory that is searched anyway, may be dropped.",
    "Configured names and the working directory have no separators, quotes or dollar signs in them, which Ansible's path settings cannot express.",
]
BUDGET_S = {"quick": 55, "thorough": 900}

OPTIONS = ["--addr", "--no-wait", "--log-file", "--log-level", "--wrap-tls", "--tls-cert", "--tls-key", "--tls-key-pass", "--tls-client-ca", "--help"]


def plain_arg(x):
    head = x.split("=")[0]
    return not (head.startswith("--") and len(head) > 2 and sum(o.startswith(head) for o in OPTIONS) > 1 and head not in OPTIONS)


# Ansible's path settings have no way to write these.
pname = fname.map(lambda x: x.translate({ord(c): "_" for c in "$:,'\"{}"}))
arg = word.filter(plain_arg)
first = st.one_of(st.just("main.yml"), arg).filter(lambda x: not x.startswith("-"))
names = st.text(st.sampled_from("abzé _.%@+0"), min_size=1, max_size=8).map(lambda x: x.strip() or "n").filter(lambda x: x not in (".", ".."))
path_value = st.one_of(
    names, names.map(lambda x: "/abs/" + x), names.map(lambda x: "~/" + x), names.map(lambda x: "$V_DIR/" + x), names.map(lambda x: "${V_DIR}/" + x), names.map(lambda x: "../" + x), names.map(lambda x: "sub/" + x),
    names.map(lambda x: "$V_UNSET/" + x), names.map(lambda x: "./" + x),
)
maybe_path = st.one_of(st.none(), path_value)
callback_names = st.sampled_from(["profile_tasks", "ansible.posix.timer", "mail", "my_cb", "ns.col.cb", "junit"])
str_list = st.lists(callback_names, max_size=3)
coll_paths = st.lists(st.one_of(names.map(lambda x: "/c/" + x), names.map(lambda x: "~/" + x), names, names.map(lambda x: "$V_DIR/" + x)), max_size=3)
cfg = st.fixed_dictionaries(
    {},
    optional={
        "callbacks_enabled": str_list.map(",".join),
        "collections_path": coll_paths.map(":".join),
        "verbosity": st.sampled_from(["0", "1", "3", "4"]),
        "strategy": st.sampled_from(["linear", "free"]),
        "debug": st.sampled_from(["True", "False"]),
        "log_path": st.just("ansible.log"),
        "inventory": st.just("inv"),
        "stdout_callback": st.sampled_from(["minimal", "default"]),
        "display_skipped_hosts": st.just("no"),
        "nocows": st.just("1"),
        "strategy_plugins": st.just("splug"),
    },
)
where = st.sampled_from(["none", "none", "cwd", "cwd", "env", "home"])
user_env = st.fixed_dictionaries(
    {},
    optional={
        "ANSIBLE_CALLBACKS_ENABLED": str_list.map(",".join),
        "ANSIBLE_COLLECTIONS_PATH": coll_paths.map(":".join),
        "ANSIBLE_STRATEGY": st.sampled_from(["free", "linear"]),
        "ANSIBLE_VERBOSITY": st.sampled_from(["0", "2"]),
        "ANSIBLE_DEBUG": st.sampled_from(["0", "1", "true"]),
        "ANSIBLE_NOCOLOR": st.just("1"),
        "ANSIBLE_FORCE_COLOR": st.just("1"),
        "ANSIBLE_INVENTORY": st.just("host,"),
        "PYTHONPATH": st.lists(st.one_of(names.map(lambda x: "/p/" + x), st.just(""), st.just("rel"), st.just("@src")), max_size=3).map(":".join),
        "V_X": word,
        "V_Y": word,
        "ANSIBUG_TLS_KEY_PASS": word.filter(bool),
        "LANG": st.just("C.UTF-8"),
    },
)
addr = st.one_of(st.none(), st.sampled_from(["uds://", "tcp://:0", "tcp://[::1]:5", "uds:///tmp/a b"]), word.filter(lambda x: not x.startswith("-")))
level = st.one_of(st.none(), st.sampled_from(["info", "debug", "warning", "error"]))
commands = st.tuples(
    st.sampled_from(["connect", "listen", "listen"]),
    addr,
    st.booleans(),
    maybe_path,
    level,
    st.booleans(),  # --wrap-tls
    maybe_path,
    maybe_path,
    st.one_of(st.none(), word.filter(lambda x: not x.startswith("-"))),
    maybe_path,
    st.booleans(),  # --opt=value spelling
    st.permutations(range(8)),
    st.tuples(first, st.lists(arg, max_size=5)),
    user_env,
    where,
    cfg,
    pname,
)

_cm = {}


def worker_setup(index):
    c07.worker_setup(index)
    _cm["cm"] = cfgm.ConfigManager()


def ansible_settings(env, cwd):
    """What Ansible makes of an environment (all base settings)."""

    def go():
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        cm = _cm["cm"]
        cm._config_file = cfgm.find_ini_config_file(set())
        cm._parsers = {}
        if cm._config_file:
            cm._parse_config_file()
        out = {}
        for name in cm.get_configuration_definitions():
            try:
                v = cm.get_config_value(name, variables=out)
            except Exception as e:
                v = f"error {type(e).__name__}"
            if name == "DEFAULT_LOCAL_TMP":
                v = os.path.dirname(v)  # the rest is random
            out[name] = v if isinstance(v, (str, int, float, bool, type(None), list)) else str(v)
        out["CONFIG_FILE"] = cm._config_file
        return out

    r = forked(go)
    if "error" in r:
        raise HarnessError(str(r))
    return r["value"]


def command_line(case):
    mode, ad, no_wait, logf, lvl, wrap, cert, key, pw, ca, eq, order, (pb, rest), env, wh, cf, cwd = case
    opts = []

    def opt(name, value):
        if value is not None:
            opts.append([f"{name}={value}"] if eq else [name, value])

    if mode == "connect" and ad is None:
        ad = "uds://x"
    opt("--addr", ad)
    if no_wait:
        opts.append(["--no-wait"])
    opt("--log-file", logf)
    opt("--log-level", lvl)
    if mode == "listen":
        if wrap:
            opts.append(["--wrap-tls"])
        opt("--tls-cert", cert)
        opt("--tls-key", key)
        opt("--tls-key-pass", pw)
        opt("--tls-client-ca", ca)
    opts = [opts[i] for i in sorted(range(len(opts)), key=lambda i: order[i % 8] + 8 * (i // 8))]
    return ad, [mode] + [y for x in opts for y in x] + [pb, *rest]


def command(case, rec: Recorder):
    mode, ad, no_wait, logf, lvl, wrap, cert, key, pw, ca, eq, order, (pb, rest), env, wh, cf, cwd = case
    ad, line = command_line(case)
    if len(line) > 2 + len(rest) or env or (cf and wh != "none"):
        rec.nontrivial()
    with Scratch() as work:
        home = os.path.join(work, "home é")
        here = os.path.join(work, cwd)
        sdir = os.path.join(work, "stub")
        for d in (home, sdir, os.path.join(work, "vdir")):
            os.mkdir(d)
        os.makedirs(here, exist_ok=True)
        stub = make_stub(sdir)
        full = dict(PATH=os.environ["PATH"], HOME=home, LC_ALL="C.UTF-8", TMPDIR=work, V_DIR=os.path.join(work, "vdir"), **env)
        if "PYTHONPATH" in full:
            # The location of ansibug itself, not as the first one.
            full["PYTHONPATH"] = full["PYTHONPATH"].replace("@src", str(REPO / "src"))
        ini = "[defaults]\n" + "".join(f"{k} = {v}\n" for k, v in cf.items())
        if wh == "cwd":
            pathlib.Path(here, "ansible.cfg").write_text(ini)
        elif wh == "home":
            pathlib.Path(home, ".ansible.cfg").write_text(ini)
        elif wh == "env":
            pathlib.Path(work, "my.cfg").write_text(ini)
            full["ANSIBLE_CONFIG"] = os.path.join(work, "my.cfg")
        before = ansible_settings(full, here)
        err = os.path.join(work, "err")
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(100)
                fd = os.open(err, os.O_WRONLY | os.O_CREAT, 0o600)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                os.chdir(here)
                os.environ.clear()
                os.environ.update(full)
                sys.executable = stub
                sys.argv = ["ansibug", *line]
                try:
                    amain.main()
                except BaseException:
                    os.write(2, traceback.format_exc().encode(errors="backslashreplace"))
            finally:
                os._exit(99)
        _, status = os.waitpid(pid, 0)
        if not os.path.exists(os.path.join(sdir, "argv")):
            text = pathlib.Path(err).read_text(errors="backslashreplace")
            raise Violation(f"{line!r} did not start ansible-playbook (status {status}): {text[-900:]}")
        with open(os.path.join(sdir, "pid")) as f:
            require(int(f.read()) == pid, "ansible-playbook did not replace the process")
        argv = [os.fsdecode(x) for x in read_argv(sdir)]
        require(argv == ["-m", "ansible", "playbook", pb, *rest], lambda: f"started {argv!r} for the arguments {[pb, *rest]!r}")
        with open(os.path.join(sdir, "cwd"), "rb") as f:
            require(os.fsdecode(f.read()[:-1]) == os.path.realpath(here), "started in another directory")
        got = {os.fsdecode(k): os.fsdecode(v) for k, v in read_env(sdir).items()}
        for k in ("PWD", "OLDPWD", "SHLVL", "_"):
            got.pop(k, None)

        # Nothing else changes.
        own = {"ANSIBLE_CALLBACKS_ENABLED", "ANSIBLE_COLLECTIONS_PATH", "ANSIBLE_STRATEGY", "PYTHONPATH"}
        mine = {k for k in got if k.startswith("ANSIBUG_")}
        rest_got = {k: v for k, v in got.items() if k not in own | mine}
        rest_want = {k: v for k, v in full.items() if k not in own and not k.startswith("ANSIBUG_")}
        require(rest_got == rest_want, lambda: f"environment (expected, got): {[(k, rest_want.get(k), rest_got.get(k)) for k in set(rest_got) | set(rest_want) if rest_got.get(k) != rest_want.get(k)]}")
        src = os.path.realpath(str(REPO / "src"))
        pp = [x for x in got["PYTHONPATH"].split(":") if x]
        require(os.path.realpath(pp[0]) == src, lambda: f"PYTHONPATH is {got['PYTHONPATH']!r}")
        others = lambda v: [x for x in v if x and os.path.realpath(x) != src]
        require(others(pp[1:]) == others(full.get("PYTHONPATH", "").split(":")), lambda: f"PYTHONPATH {full.get('PYTHONPATH')!r} became {got['PYTHONPATH']!r}")

        # What Ansible makes of it.
        after = ansible_settings(got, here)
        require(after["DEFAULT_STRATEGY"] == "ansibug.dap.debug", lambda: f"the strategy is {after['DEFAULT_STRATEGY']!r}")
        require(after["CALLBACKS_ENABLED"] == ["ansibug.dap.debug"] + before["CALLBACKS_ENABLED"], lambda: f"callbacks {before['CALLBACKS_ENABLED']!r} became {after['CALLBACKS_ENABLED']!r}")
        cp = after["COLLECTIONS_PATHS"]
        require(os.path.realpath(cp[0]) == src + "/ansibug" and cp[1:] == before["COLLECTIONS_PATHS"], lambda: f"collection paths {before['COLLECTIONS_PATHS']!r} became {cp!r}")
        diff = {k: (before[k], after.get(k)) for k in before if before[k] != after.get(k) and k not in ("DEFAULT_STRATEGY", "CALLBACKS_ENABLED", "COLLECTIONS_PATHS")}
        require(not diff, lambda: f"other settings changed: {diff}")

        # ansibug's own settings.
        def path(v):
            def dollar(v):
                for a in ("$V_DIR", "${V_DIR}"):
                    v = v.replace(a, full["V_DIR"])
                return v

            v = dollar(v)
            if v.startswith("~/"):
                v = home + v[1:]
            return os.path.normpath(os.path.join(here, v))

        settings = {k: got.get(k) for k in ("ANSIBUG_TLS_SERVER_CERTFILE", "ANSIBUG_TLS_SERVER_KEYFILE", "ANSIBUG_TLS_CLIENT_CA", "ANSIBUG_LOG_FILE")}
        wanted = dict(
            ANSIBUG_TLS_SERVER_CERTFILE=cert if mode == "listen" else None, ANSIBUG_TLS_SERVER_KEYFILE=key if mode == "listen" else None, ANSIBUG_TLS_CLIENT_CA=ca if mode == "listen" else None, ANSIBUG_LOG_FILE=logf
        )
        for k, v in wanted.items():
            g = settings[k]
            if v is None:
                require(g is None, lambda: f"{k} is set to {g!r} without its option")
            else:
                require(g is not None and os.path.isabs(g) and os.path.normpath(g) == path(v), lambda: f"{k} is {g!r} for {v!r} in {here!r}")
        wpw = (pw if pw is not None else env.get("ANSIBUG_TLS_KEY_PASS")) if mode == "listen" else None
        require((got.get("ANSIBUG_TLS_SERVER_KEY_PASSWORD") or None) == (wpw or None), lambda: f"the key password is {got.get('ANSIBUG_TLS_SERVER_KEY_PASSWORD')!r}, expected {wpw!r}")
        require(got.get("ANSIBUG_MODE") == mode, lambda: f"mode {got.get('ANSIBUG_MODE')!r}")
        require(got.get("ANSIBUG_DEBUG_ADDR") == (ad if ad is not None else "uds://"), lambda: f"address {got.get('ANSIBUG_DEBUG_ADDR')!r} for {ad!r}")
        require(str(got.get("ANSIBUG_NO_WAIT_FOR_CONFIG_DONE")).lower() == str(no_wait).lower(), lambda: f"no wait is {got.get('ANSIBUG_NO_WAIT_FOR_CONFIG_DONE')!r}")
        require(str(got.get("ANSIBUG_USE_TLS")).lower() == str(wrap and mode == "listen").lower(), lambda: f"use TLS is {got.get('ANSIBUG_USE_TLS')!r}")
        if logf is not None:
            require(got.get("ANSIBUG_LOG_LEVEL") == (lvl or "info"), lambda: f"log level {got.get('ANSIBUG_LOG_LEVEL')!r}")
        rec.tag(mode)


# -- the documented settings reach the debuggee ------------------------------

settings_cases = st.tuples(
    st.sampled_from(["listen", "listen", "connect"]),
    st.sampled_from(["uds", "tcp"]),
    st.booleans(),  # no wait
    st.booleans(),  # TLS
    c07.files,
    st.one_of(st.none(), st.sampled_from(["A", "B"])),
    st.one_of(st.none(), st.sampled_from(["A-good", "B-good"])),
    st.one_of(st.none(), pname),  # log file
    level,
    st.one_of(st.none(), st.text(max_size=8)),  # playbook file
)


def numbered(m, seq):
    m.seq = seq
    return m


def settings_reach(case, rec: Recorder):
    mode, kind, no_wait, tls, files, ca, cert, logf, lvl, pbf = case
    tls = tls and mode == "listen"
    rec.nontrivial()
    P = c07.P
    with Scratch() as work:
        log = os.path.join(work, logf + ".log") if logf else None
        env = dict(ANSIBUG_MODE=mode, ANSIBUG_NO_WAIT_FOR_CONFIG_DONE=str(no_wait).lower(), ANSIBUG_USE_TLS=str(tls), TMPDIR=work)
        if log:
            env["ANSIBUG_LOG_FILE"] = log
            if lvl:
                env["ANSIBUG_LOG_LEVEL"] = lvl
        if mode == "listen":
            env["ANSIBUG_TLS_SERVER_CERTFILE"] = P("A-good." + {"combined": "combined", "split": "cert", "enc": "cert", "encboth": "encboth"}[files] + ".pem")
            if files in ("split", "enc"):
                env["ANSIBUG_TLS_SERVER_KEYFILE"] = P("A-good." + {"split": "key", "enc": "enc"}[files] + ".pem")
            if files.startswith("enc"):
                env["ANSIBUG_TLS_SERVER_KEY_PASSWORD"] = "pä ss"
            if ca:
                env["ANSIBUG_TLS_CLIENT_CA"] = P(f"ca{ca}.pem")
        rp = Rec()
        q = None
        if mode == "connect":
            q = mpq.ServerMPQueue(f"uds:{work}/s" if kind == "uds" else "tcp://127.0.0.1:0", proto=lambda: rp)
            env["ANSIBUG_DEBUG_ADDR"] = q.address
        else:
            env["ANSIBUG_DEBUG_ADDR"] = f"uds:{work}/s" if kind == "uds" else "tcp://127.0.0.1:0"
        r, w = os.pipe()
        go_r, go_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(100)
                os.close(go_w)
                fd = os.open(os.path.join(work, "out"), os.O_RDWR | os.O_CREAT, 0o600)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                import io

                sys.stdout = io.TextIOWrapper(io.FileIO(1, "w", closefd=False), write_through=True)
                sys.stderr = sys.stdout
                os.environ.update(env)
                from ansible.plugins.loader import callback_loader, init_plugin_loader

                init_plugin_loader([str(REPO / "src" / "ansibug")])
                cb = callback_loader.get("ansibug.dap.debug")
                cb.set_options()

                class Book:
                    _file_name = pbf

                    def get_plays(self):
                        return []

                cb.v2_playbook_on_start(Book())
                os.write(w, b"started\n")
                os.read(go_r, 1)
                cb.v2_playbook_on_stats(None)
                os.write(w, b"ended\n")
            except BaseException:
                os.write(w, b"failed\n")
                os.write(w, traceback.format_exc().encode(errors="backslashreplace"))
            finally:
                os._exit(0)
        os.close(w)
        os.close(go_r)
        news = []
        cond = threading.Condition()

        def read():
            with os.fdopen(r, "rb") as f:
                for line in f:
                    with cond:
                        news.append(line.decode(errors="replace"))
                        cond.notify_all()
            with cond:
                news.append("eof")
                cond.notify_all()

        t = threading.Thread(target=read, daemon=True)
        t.start()

        def wait_news(text, timeout):
            with cond:
                return cond.wait_for(lambda: any(text in n for n in news), timeout)

        what = f"{case!r}"
        try:
            if mode == "connect":
                Bg(lambda: q.start(timeout=30)).result(40, "waiting for the debuggee to connect")
                ok = True
            else:
                # The process file tells the address.
                info = os.path.join(work, f"ansibug-pid-{pid}")
                end = time.monotonic() + 40
                data = None
                while time.monotonic() < end and data is None:
                    try:
                        data = json.loads(pathlib.Path(info).read_text())
                    except (OSError, ValueError):
                        time.sleep(0.01)
                    if "eof" in news:
                        raise Violation(f"the debuggee failed: {news}")
                require(data, lambda: f"no process file within 40 s; {news}")
                require(data["pid"] == pid and data["use_tls"] == tls and data["playbook_file"] == pbf, lambda: f"process file {data}")
                ok = not tls or not ca or bool(cert and cert.startswith(ca))
                if ok or not tls:
                    pass
                else:
                    # Only the right client gets in.
                    bad = create_client_tls_context(P("caA.pem"), certfile=P(f"{cert}.combined.pem") if cert else None)
                    qb = mpq.ClientMPQueue(data["address"], proto=Rec, ssl_context=bad)
                    b = Bg(lambda: qb.start(timeout=30))
                    require(b.wait(40), "a client without the right certificate is kept waiting")
                    require(b.error is not None, "a client without the right certificate got in")
                    quiet_stop(qb)
                    rec.tag("client certificate refused")
                ctx = None
                if tls:
                    good = f"{ca}-good" if ca else None
                    ctx = create_client_tls_context(P("caA.pem") if kind == "tcp" else "ignore", certfile=P(f"{good}.combined.pem") if good else None)
                q = mpq.ClientMPQueue(data["address"], proto=lambda: rp, ssl_context=ctx)
                c = Bg(lambda: q.start(timeout=30))
                require(c.wait(40), f"{what}: the connection to the listener is not completed")
                if c.error:
                    raise Violation(f"{what}: the connection to {data} failed: {c.error!r}")
            q.send(dap.OutputEvent(category="ansibug_debug_configuration", output="", data=__import__("ansibug._debuggee", fromlist=["x"]).DebugConfiguration(path_mappings=[])))
            require(rp.wait(lambda: any(isinstance(m, dap.InitializedEvent) for m in rp.got), 30), "no initialized event")
            if no_wait:
                require(wait_news("started", 30), f"{what}: waits for the configuration although told not to")
            else:
                time.sleep(0.05)
                require(not any("started" in n for n in news), f"{what}: does not wait for the configuration")
                q.send(numbered(dap.ConfigurationDoneRequest(), 1))
                require(wait_news("started", 30), f"{what}: still waiting after the configuration is done")
            q.send(numbered(dap.DisconnectRequest(), 2))
            os.write(go_w, b"x")
            require(wait_news("ended", 30), lambda: f"{what}: the shut down does not end; {news}")
            t.join(10)
            require(not os.path.exists(os.path.join(work, f"ansibug-pid-{pid}")), "the process file is left")
            if log:
                text = pathlib.Path(log).read_text(encoding="utf-8", errors="replace") if os.path.exists(log) else None
                require(text is not None, f"{what}: no log file")
                wl = lvl or "info"
                has_info = "Staring Ansible Debugger" in text or "Processing msg" in text
                require(has_info == (wl in ("info", "debug")), f"{what}: log level {wl}, informational lines: {has_info}")
                has_debug = "cancellable function" in text or "MPQueue set on" in text or "Calling" in text
                require(has_debug == (wl == "debug"), f"{what}: log level {wl}, debug lines: {has_debug}")
            else:
                require(not any(n.endswith(".log") for n in os.listdir(work)), "a log file was written without being asked for")
        finally:
            os.close(go_w)
            quiet_stop(q)
            end = time.monotonic() + 3
            while True:
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                if time.monotonic() > end:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    break
                time.sleep(0.005)


TESTS = [
    Test("command", lambda: commands, command, quick=640, thorough=20000, case_timeout=240, shrink_s=60),
    Test("settings", lambda: settings_cases, settings_reach, quick=240, thorough=8000, case_timeout=240, shrink_s=60, confirm=1),
]
TESTS[0].share = 3.0
