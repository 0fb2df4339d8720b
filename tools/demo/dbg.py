"""A small debugger client for the demonstrations: runs a playbook with ansibug's listen mode."""
import json, os, pathlib, queue, shutil, signal, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
from ansibug import dap
from ansibug._mp_queue import ClientMPQueue, MPProtocol
from ansibug._debuggee import DebugConfiguration, PathMapping

INV = "localhost ansible_connection=local ansible_python_interpreter=%s\n" % sys.executable


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="dm-")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def inventory(*hosts):
    return "".join(f"{h} ansible_connection=local ansible_python_interpreter={sys.executable}\n" for h in hosts)


class Debug(MPProtocol):
    """Files are written to the scratch directory, main.yml is run."""

    def __init__(self, base, files, hosts=("h1",), args=(), wait=True, connect=True, env=()):
        self.base = base
        files = {"ansible.cfg": "[defaults]\nhost_key_checking=false\n", "inv": inventory(*hosts), **files}
        for name, text in files.items():
            p = pathlib.Path(base, name)
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(text)
        (pathlib.Path(base) / "tmp").mkdir(exist_ok=True)
        env = dict(os.environ, HOME=base, TMPDIR=base + "/tmp", ANSIBLE_NOCOWS="1", PYTHONPATH=os.getcwd() + "/src", LC_ALL="C.UTF-8", **dict(env))
        self.out = open(base + "/out", "w+b")
        cmd = [sys.executable, "-m", "ansibug", "listen"] + ([] if wait else ["--no-wait"])
        self.proc = subprocess.Popen(cmd + ["main.yml", "-i", "inv", *args], cwd=base, env=env,
                                     stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.out, start_new_session=True)
        self.got = []
        self.cond = threading.Condition()
        self.closed = False
        self.seq = 0
        self.seen = 0
        self.queue = None
        if connect:
            self.connect()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()
        if self.queue:
            self.queue.stop()

    def pidfile(self, timeout=60):
        p = pathlib.Path(self.base, "tmp", f"ansibug-pid-{self.proc.pid}")
        end = time.time() + timeout
        while time.time() < end:
            try:
                return json.loads(p.read_text())
            except (OSError, ValueError):
                if self.proc.poll() is not None:
                    break
            time.sleep(0.05)
        raise SystemExit("no process file\n" + self.text())

    def connect(self, mappings=()):
        self.queue = ClientMPQueue(self.pidfile()["address"], lambda: self)
        self.queue.start(timeout=30)
        self.queue.send(dap.OutputEvent(category=DebugConfiguration.OUTPUT_CATEGORY, output="",
                                        data=DebugConfiguration(path_mappings=list(mappings))))
        self.wait_for(lambda m: isinstance(m, dap.InitializedEvent))

    def text(self):
        return pathlib.Path(self.base, "out").read_text()

    def on_msg_received(self, msg):
        with self.cond:
            self.got.append(msg)
            self.cond.notify_all()

    def connection_closed(self, exp):
        with self.cond:
            self.closed = True
            self.cond.notify_all()

    def wait_for(self, what, start=0, timeout=60):
        def find():
            return next((m for m in self.got[start:] if what(m)), None)

        with self.cond:
            self.cond.wait_for(lambda: find() is not None or self.closed, timeout=timeout)
            return find()

    def ask(self, req, timeout=60):
        self.seq += 1
        object.__setattr__(req, "seq", self.seq)
        seq = self.seq
        self.queue.send(req)
        return self.wait_for(lambda m: isinstance(m, dap.Response) and m.request_seq == seq, timeout=timeout)

    def breakpoints(self, path, lines, base=None):
        bps = [dap.SourceBreakpoint(line=x) if isinstance(x, int) else dap.SourceBreakpoint(line=x[0], condition=x[1]) for x in lines]
        return self.ask(dap.SetBreakpointsRequest(source=dap.Source(path=os.path.join(base or self.base, path)), breakpoints=bps))

    def go(self, filters=()):
        if filters:
            self.ask(dap.SetExceptionBreakpointsRequest(filters=list(filters)))
        self.ask(dap.ConfigurationDoneRequest())

    def stop(self, timeout=60):
        """The next stop as (event, stack frames) or None when the playbook has ended."""
        def find():
            return next(((i, m) for i, m in enumerate(self.got) if i >= self.seen and isinstance(m, dap.StoppedEvent)), None)

        with self.cond:
            self.cond.wait_for(lambda: find() or self.closed, timeout=timeout)
            hit = find()
        if not hit:
            return None
        self.seen = hit[0] + 1
        st = self.ask(dap.StackTraceRequest(thread_id=hit[1].thread_id))
        return hit[1], st.stack_frames

    def names(self, resume=None, timeout=60):
        """Runs to the end, resume(number, event, frames) gives the request for each stop."""
        res = []
        while s := self.stop(timeout):
            ev, fr = s
            res.append((ev.reason.name.lower(), fr[0].name, ev.thread_id))
            req = resume(len(res) - 1, ev, fr) if resume else None
            self.ask(req or dap.ContinueRequest(thread_id=ev.thread_id))
        return res

    def scopes(self, frame):
        return {s.name: s for s in self.ask(dap.ScopesRequest(frame_id=frame)).scopes}

    def variables(self, ref):
        return {v.name: v for v in self.ask(dap.VariablesRequest(variables_reference=ref)).variables}

    def end(self, timeout=60):
        return self.proc.wait(timeout=timeout)


def check(cond, msg):
    if not cond:
        print("FAILED:", msg)
        os._exit(1)
