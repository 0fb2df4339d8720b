"""C05: socket address strings mean what is documented and round-trip."""
from __future__ import annotations

import ipaddress
import os
import socket
import string
import tempfile

from vf import HarnessError, Recorder, Test, Violation, guard, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import _mp_queue as mpq
from ansibug._socket_helper import parse_addr_string
from chan import Bg, Rec, Scratch, msg, quiet_stop

PROPERTY = "C05"
TECHNIQUE = "property-based testing: addresses generated from their structure and compared with it; real listeners round-tripped through the address they report"
LEVEL_NOTE = "Random search over address structures and legal path characters; listeners are real sockets on the loopback interface and in scratch directories."
RULE = (
    "A case is an endpoint (TCP host and port, or a Unix socket form with a path built from any legal characters) written as a documented address string, or a string of another form. "
    "Non-trivial: a non-plain host, a path with a character that means something in a URL, a refused string, or a live listener reached."
)
ASSUMPTIONS = ["Host names are compared without regard to case.", "Unix socket paths given in full are absolute."]
BUDGET_S = {"quick": 30, "thorough": 500}

url_chars = "?#%&=+:;@[]{}()<>|\\^`'\"~!$*, \t\n\r\x01\x1f\x7fé漢\u2100\U0001f600"
name_char = st.one_of(st.sampled_from(string.ascii_letters + string.digits + "-_."), st.sampled_from(url_chars), st.characters(blacklist_categories=("Cs",), blacklist_characters="/\x00"))
fnames = st.one_of(
    st.text(name_char, min_size=1, max_size=10),
    st.text(st.sampled_from(string.ascii_lowercase + string.digits + "-_."), min_size=1, max_size=12),
    st.sampled_from(["a?b", "a#b", "a b", "[x]", "x]", "[", "a%20b", "a:1", "user@host", "1", "a\nb", " lead", "trail ", "tab\t", "?", "#", "é", "\u2100", "ansibug-dap-sock", "//"]),
).filter(lambda n: "/" not in n and n not in (".", "..") and len(n.encode()) < 60)

labels = st.from_regex(r"\A[A-Za-z0-9]([A-Za-z0-9-]{0,8}[A-Za-z0-9])?\Z")
hosts = st.one_of(
    st.tuples(st.just("name"), st.lists(labels, min_size=1, max_size=3).map(".".join)),
    st.tuples(st.just("v4"), st.integers(0, 2**32 - 1).map(lambda i: str(ipaddress.IPv4Address(i)))),
    st.tuples(st.just("v6"), st.one_of(st.integers(0, 2**128 - 1), st.sampled_from([0, 1, 2**112, 0xFFFF7F000001])).map(lambda i: str(ipaddress.IPv6Address(i)))),
    st.tuples(st.just("v6"), st.integers(0, 2**128 - 1).map(lambda i: ipaddress.IPv6Address(i).exploded)),
    st.tuples(st.just("empty"), st.just("")),
)
ports = st.one_of(st.integers(0, 65535), st.sampled_from([0, 1, 80, 1234, 65535]))
schemes = st.sampled_from(["tcp", "TCP"])


def t_tcp(case, rec: Recorder):
    (kind, host), port = case
    text = f"tcp://[{host}]:{port}" if kind == "v6" else f"tcp://{host}:{port}"
    got = guard(lambda: parse_addr_string(text), f"parsing {text!r}")
    require(isinstance(got, tuple) and len(got) == 2, f"{text!r} was read as {got!r}")
    require(isinstance(got[1], int) and got[1] == port, f"{text!r}: port {got[1]!r}")
    if kind == "v6":
        require(ipaddress.ip_address(got[0]) == ipaddress.ip_address(host), f"{text!r}: host {got[0]!r}")
    else:
        require(got[0].lower() == host.lower(), f"{text!r}: host {got[0]!r}")
    rec.tag(kind)
    if kind != "name":
        rec.nontrivial()


def t_uds(case, rec: Recorder):
    """Pure parsing of the Unix socket forms."""
    form, tmpname, parts = case
    with Scratch() as base:
        tmp = os.path.join(base, tmpname)
        old = tempfile.tempdir
        tempfile.tempdir = tmp
        try:
            if form == "bare":
                text, want = "uds://" + parts[0], os.path.join(tmp, parts[0])
            elif form == "path":
                want = "/" + "/".join(parts)
                text = "uds:" + want
            elif form == "path3":
                want = "/" + "/".join(parts)
                text = "uds://" + want
            else:
                text, want = "uds://", None
            got = guard(lambda: parse_addr_string(text), f"parsing {text!r}")
            if want is None:
                more = [parse_addr_string(text) for _ in range(3)] + [got]
                require(len(set(more)) == 4, f"uds:// gave the same path twice: {more}")
                for m in more:
                    require(os.path.dirname(m) == tmp and os.path.basename(m) != "", f"uds:// gave {m!r}, outside the temporary directory {tmp!r}")
                    require(not os.path.lexists(m), "uds:// gave a path that exists")
            else:
                require(got == want, f"{text!r} was read as {got!r}, not {want!r}")
        finally:
            tempfile.tempdir = old
    rec.tag(form)
    if any(not (c.isascii() and (c.isalnum() or c in "-_./")) for c in text + tmpname) or form == "unique":
        rec.nontrivial()


bad_schemes = st.one_of(
    st.from_regex(r"\A[a-z][a-z0-9+.-]{0,6}\Z").filter(lambda s: s not in ("tcp", "uds")),
    st.sampled_from(["", "http", "udp", "tcp4", "tcps", "unix", "ud", "udss", "tc", "ssl"]),
)
bad = st.one_of(
    st.tuples(st.just("scheme"), st.tuples(bad_schemes, st.sampled_from(["://", ":", ":///"]), st.sampled_from(["localhost:1", "", "/tmp/x", "name", "tcp://x:1", "uds://x"])).map("".join)),
    st.tuples(st.just("scheme"), st.sampled_from(["", "localhost:1234", "/tmp/sock", "sock", "1234", "127.0.0.1:80", "//localhost:1", ":1234"])),
    st.tuples(st.just("port"), hosts.filter(lambda h: h[0] != "empty").map(lambda h: f"tcp://[{h[1]}]" if h[0] == "v6" else f"tcp://{h[1]}")),
    st.tuples(st.just("port"), hosts.filter(lambda h: h[0] != "empty").map(lambda h: f"tcp://[{h[1]}]:" if h[0] == "v6" else f"tcp://{h[1]}:")),
    st.tuples(st.just("port"), st.tuples(labels, st.one_of(st.sampled_from(["abc", "-1", "65536", "99999", "1x", "0x10", "1.5"]))).map(lambda x: f"tcp://{x[0]}:{x[1]}")),
)


def t_bad(case, rec: Recorder):
    kind, text = case
    try:
        got = parse_addr_string(text)
    except ValueError as e:
        require(str(e).strip() != "", f"{text!r} was refused without an explanation")
    except Exception as e:
        raise Violation(f"{text!r} was refused with an internal failure {e!r}")
    else:
        raise Violation(f"{text!r} was accepted as {got!r}")
    rec.tag(kind)
    rec.nontrivial()


# live listeners -----------------------------------------------------------

dirnames = fnames
live = st.one_of(
    st.tuples(st.just("path"), fnames, fnames),
    st.tuples(st.just("path3"), fnames, fnames),
    st.tuples(st.just("bare"), fnames, fnames),
    st.tuples(st.just("unique"), fnames, fnames),
    st.tuples(st.just("tcp"), st.sampled_from(["tcp://", "tcp://:0", "tcp://127.0.0.1:0", "tcp://localhost:0", "tcp://[::1]:0", "tcp://[::]:0", "tcp://0.0.0.0:0", "tcp://127.0.0.2:0", "tcp://[::ffff:127.0.0.1]:0"]), st.just("")),
)


def has_v6():
    try:
        with socket.socket(socket.AF_INET6, socket.SOCK_STREAM) as s:
            s.bind(("::1", 0))
        return socket.has_dualstack_ipv6()
    except OSError:
        return False


V6 = has_v6()


def t_live(case, rec: Recorder):
    form, a, b = case
    if form == "tcp" and "[" in a and not V6:
        return
    with Scratch("/tmp") as base:
        old = tempfile.tempdir
        where = None
        tmp = os.path.join(base, a)
        if form != "tcp":
            os.mkdir(tmp)
            tempfile.tempdir = tmp
        server = client = None
        try:
            if form == "tcp":
                text = a
            elif form == "unique":
                text = "uds://"
            elif form == "bare":
                text, where = "uds://" + b, os.path.join(tmp, b)
            else:
                where = os.path.join(tmp, b)
                text = ("uds:" if form == "path" else "uds://") + where
            # AF_UNIX paths hold at most 107 bytes.
            if form != "tcp" and len(tmp.encode()) + 50 > 107:
                return
            srec, crec = Rec(), Rec()
            server = guard(lambda: mpq.ServerMPQueue(text, lambda: srec), f"listening on {text!r}")
            if form != "tcp":
                files = os.listdir(tmp)
                require(len(files) == 1, f"listening on {text!r} left {files} in {tmp!r}")
                if where:
                    require(os.path.exists(where), f"{text!r} listens somewhere else than {where!r}: {files}")
            address = server.address
            if form == "tcp":
                host = a[6:].rpartition(":")[0]
                got = parse_addr_string(address)
                require(got[1] != 0, f"the reported address {address!r} has no port")
                want = {"": None, "127.0.0.1": "127.0.0.1", "localhost": None, "[::1]": "::1", "[::]": None, "0.0.0.0": None, "127.0.0.2": "127.0.0.2", "[::ffff:127.0.0.1]": None}[host]
                if want:
                    require(ipaddress.ip_address(got[0]) == ipaddress.ip_address(want), f"listening on {text!r} reports {address!r}")
                # The endpoint asked for, by a plain socket's view of the world.
                targets = {"": ["127.0.0.1", "::1"], "[::]": ["::1"], "0.0.0.0": ["127.0.0.1"], "[::ffff:127.0.0.1]": ["127.0.0.1"]}.get(host, [host.strip("[]")])
            else:
                targets = []
            accepted = Bg(lambda: server.start(timeout=30))
            # The listener is found through the address it reports.
            client = guard(lambda: mpq.ClientMPQueue(address, lambda: crec), f"using the reported address {address!r}")
            starting = Bg(lambda: client.start(timeout=20))
            if not starting.wait(25):
                raise Violation(f"connecting to the reported address {address!r} hangs")
            if starting.error:
                raise Violation(f"connecting to {address!r}, the address reported for {text!r}, failed: {starting.error!r}")
            accepted.result(20, f"the listener of {text!r}")
            server.send(msg("to client"))
            client.send(msg("to server"))
            require(srec.wait(lambda: srec.got, 15) and srec.got[0].output == "to server", f"{address!r} reaches something else")
            require(crec.wait(lambda: crec.got, 15) and crec.got[0].output == "to client", f"{address!r} reaches something else")
        finally:
            quiet_stop(client, server)
            tempfile.tempdir = old
    rec.tag(form if form != "tcp" else a)
    rec.nontrivial()


def t_wildcard(case, rec: Recorder):
    """A listener on all interfaces is reached over each loopback family it must serve."""
    text, target = case
    if ":" in target and not V6:
        return
    srec = Rec()
    server = guard(lambda: mpq.ServerMPQueue(text, lambda: srec), f"listening on {text!r}")
    try:
        port = parse_addr_string(server.address)[1]
        accepted = Bg(lambda: server.start(timeout=30))
        fam = socket.AF_INET6 if ":" in target else socket.AF_INET
        try:
            with socket.socket(fam, socket.SOCK_STREAM) as s:
                s.settimeout(10)
                s.connect((target, port))
                require(s.recv(1) != b"", f"{text!r} accepted and dropped a connection to {target}")
        except OSError as e:
            raise Violation(f"a listener on {text!r} is not reached at {target}: {e!r}")
        accepted.result(20, "accept")
    finally:
        quiet_stop(server)
    rec.tag(f"{text} {target}")
    rec.nontrivial()


TESTS = [
    Test("tcp", lambda: st.tuples(hosts, ports), t_tcp, quick=6000, thorough=100000),
    Test("uds", lambda: st.tuples(st.sampled_from(["bare", "bare", "path", "path3", "unique"]), fnames, st.lists(fnames, min_size=1, max_size=3)), t_uds, quick=8000, thorough=120000),
    Test("bad", lambda: bad, t_bad, quick=3000, thorough=30000),
    Test("live", lambda: live, t_live, quick=1200, thorough=20000, case_timeout=120),
    Test("wildcard", lambda: st.sampled_from([("tcp://", "127.0.0.1"), ("tcp://", "::1"), ("tcp://:0", "127.0.0.1"), ("tcp://[::1]:0", "::1"), ("tcp://127.0.0.1:0", "127.0.0.1"), ("tcp://0.0.0.0:0", "127.0.0.1")]), t_wildcard, quick=64, thorough=200, case_timeout=120),
]
