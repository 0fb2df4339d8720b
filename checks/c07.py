"""C07: TLS connects exactly the peers its settings allow."""
from __future__ import annotations

import datetime
import ipaddress
import os
import socket
import ssl
import struct
import subprocess
import time

from vf import HarnessError, Recorder, Test, Violation, guard, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import _mp_queue as mpq
from ansibug._socket_helper import parse_addr_string
from ansibug._tls import create_client_tls_context, create_server_tls_context
from chan import Bg, Rec, Scratch, msg, quiet_stop

PROPERTY = "C07"
TECHNIQUE = "property-based testing: generated certificates, settings and connection attempts against a model of who may connect"
LEVEL_NOTE = "Random search over certificate, trust, name and client-certificate settings and histories of failed attempts; real TLS over loopback. Trusts OpenSSL and a table of which generated certificate is acceptable to which setting."
RULE = (
    "A case is a server certificate and client-CA setting and a list of connection attempts (clients with generated settings, plaintext, aborted and broken ones), ended by an acceptable client. "
    "Non-trivial: at least one refused attempt before the last client, or a client whose outcome depends on a certificate; settings refused up front."
)
ASSUMPTIONS = ["The platform's default trust is a generated file (SSL_CERT_FILE); explicit CA settings are tested with empty default trust.", "An attempt refused by the other end is reported within 30 s."]
BUDGET_S = {"quick": 50, "thorough": 900}
WAIT = 30

PKI = {}


def make_pki(base):
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec

    now = datetime.datetime.now(datetime.timezone.utc)
    S = serialization

    def cert(cn, issuer, sans=(), start=-2, end=30, ca=False, usage=None):
        key = ec.generate_private_key(ec.SECP256R1())
        name = x509.Name([x509.NameAttribute(x509.NameOID.ORGANIZATION_NAME, "vf"), x509.NameAttribute(x509.NameOID.COMMON_NAME, cn)])
        iname, ikey = (issuer[0].subject, issuer[1]) if issuer else (name, key)
        b = (
            x509.CertificateBuilder().subject_name(name).issuer_name(iname).public_key(key.public_key()).serial_number(x509.random_serial_number())
            .not_valid_before(now + datetime.timedelta(days=start)).not_valid_after(now + datetime.timedelta(days=end))
            .add_extension(x509.BasicConstraints(ca, None), critical=True)
            .add_extension(x509.SubjectKeyIdentifier.from_public_key(key.public_key()), critical=False)
        )
        if issuer:
            b = b.add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(ikey.public_key()), critical=False)
        if ca:
            b = b.add_extension(x509.KeyUsage(False, False, False, False, False, True, True, False, False), critical=True)
        if sans:
            b = b.add_extension(x509.SubjectAlternativeName([x509.IPAddress(ipaddress.ip_address(s)) if s[0].isdigit() or ":" in s else x509.DNSName(s) for s in sans]), critical=False)
        return b.sign(ikey, hashes.SHA256()), key

    def pem(c):
        return c.public_bytes(S.Encoding.PEM)

    def kpem(k, pw=None):
        return k.private_bytes(S.Encoding.PEM, S.PrivateFormat.PKCS8, S.BestAvailableEncryption(pw.encode()) if pw else S.NoEncryption())

    def w(name, data):
        p = os.path.join(base, name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    cas = {n: cert(f"CA {n}", None, ca=True) for n in "AB"}
    for n, (c, k) in cas.items():
        w(f"ca{n}.pem", pem(c))
        d = os.path.join(base, f"cadir{n}")
        os.mkdir(d)
        p = w(f"cadir{n}/ca.pem", pem(c))
        h = subprocess.run(["openssl", "x509", "-noout", "-hash", "-in", p], capture_output=True, text=True, check=True).stdout.strip()
        os.symlink("ca.pem", os.path.join(d, f"{h}.0"))
    w("caAB.pem", pem(cas["A"][0]) + pem(cas["B"][0]))
    w("empty.pem", b"")
    os.mkdir(os.path.join(base, "emptydir"))
    both = ("localhost", "127.0.0.1", "::1")
    specs = {
        "A-good": dict(issuer="A", sans=both), "B-good": dict(issuer="B", sans=both), "A-dns": dict(issuer="A", sans=("localhost",)),
        "A-ip": dict(issuer="A", sans=("127.0.0.1",)), "A-other": dict(issuer="A", sans=("other.example",)), "A-none": dict(issuer="A", sans=()),
        "A-expired": dict(issuer="A", sans=both, start=-20, end=-1), "A-future": dict(issuer="A", sans=both, start=5, end=30), "self": dict(issuer=None, sans=both),
    }
    for name, s in specs.items():
        c, k = cert(name, cas[s["issuer"]] if s["issuer"] else None, s["sans"], s.get("start", -2), s.get("end", 30))
        w(f"{name}.combined.pem", kpem(k) + pem(c))
        w(f"{name}.cert.pem", pem(c))
        w(f"{name}.key.pem", kpem(k))
        w(f"{name}.enc.pem", kpem(k, "pä ss"))
        w(f"{name}.encboth.pem", kpem(k, "pä ss") + pem(c))
    return specs


def worker_setup(index):
    base = os.path.join(os.environ["HOME"], "pki dir")
    os.mkdir(base)
    PKI["specs"] = make_pki(base)
    PKI["base"] = base
    PKI["half_hello"] = None
    os.environ["PKIBASE"] = base
    os.environ["SSL_CERT_DIR"] = os.path.join(base, "emptydir")
    os.environ["SSL_CERT_FILE"] = os.path.join(base, "empty.pem")


def P(n):
    return os.path.join(PKI["base"], n)


def spell(path, how):
    """The same path as a user may write it."""
    if how == "tilde":
        return "~/" + os.path.relpath(path, os.environ["HOME"])
    if how == "var":
        return "$PKIBASE/" + os.path.relpath(path, PKI["base"])
    if how == "braces":
        return "${PKIBASE}/" + os.path.relpath(path, PKI["base"])
    return path


SERVER_CERTS = ["A-good", "A-good", "A-good", "B-good", "A-dns", "A-ip", "A-other", "A-none", "A-expired", "A-future", "self"]
CLIENT_CERTS = ["A-good", "A-other", "B-good", "A-expired", "A-future", "self"]
spelling = st.sampled_from(["plain", "plain", "tilde", "var", "braces"])
files = st.sampled_from(["combined", "split", "enc", "encboth"])
trust = st.sampled_from(["A", "B", "AB", "dirA", "dirB"])
server = st.tuples(st.sampled_from(SERVER_CERTS), files, st.one_of(st.none(), trust), spelling)
targets = st.sampled_from(["localhost", "127.0.0.1", "[::1]", "127.0.0.1"])
verifies = st.one_of(
    st.tuples(st.just("verify"), st.sampled_from(["A", "B", "none"])),
    st.tuples(st.just("ignore"), st.just("none")),
    st.tuples(st.just("path"), trust),
)
client = st.tuples(verifies, st.one_of(st.none(), st.tuples(st.sampled_from(CLIENT_CERTS), files)), spelling, targets)
aligned = st.tuples(st.sampled_from(["none", "none", "ca", "name", "no cert", "other ca cert", "expired cert", "self cert"]), st.sampled_from(["verify", "path", "dir"]), files, spelling, st.integers(0, 2))
attempts = st.one_of(
    st.tuples(st.just("client"), client),
    # Acceptable settings for whatever the server has, with at most one thing changed.
    st.tuples(st.just("aligned"), aligned),
    st.tuples(st.just("aligned"), aligned),
    st.tuples(st.just("raw"), st.sampled_from(["plain", "plain-frame", "close", "rst", "half-hello", "half-hello-rst", "hello-rst", "hello-close", "nocert-send", "nocert-close", "old-version", "plain-client"])),
)
sessions = st.tuples(server, st.lists(attempts, max_size=4))


def ca_path(t, how):
    return spell(P({"A": "caA.pem", "B": "caB.pem", "AB": "caAB.pem", "dirA": "cadirA", "dirB": "cadirB"}[t]), how)


def trusted(t):
    return {"A": "A", "B": "B", "AB": "AB", "dirA": "A", "dirB": "B", "none": ""}[t]


def chain_ok(name, cas):
    s = PKI["specs"][name]
    return bool(s["issuer"]) and s["issuer"] in cas and s.get("end", 30) > 0 and s.get("start", -2) < 0


def name_ok(name, target):
    return target.strip("[]") in PKI["specs"][name]["sans"]


def cert_args(name, how):
    if how == "combined":
        return dict(certfile=P(f"{name}.combined.pem"))
    if how == "split":
        return dict(certfile=P(f"{name}.cert.pem"), keyfile=P(f"{name}.key.pem"))
    if how == "enc":
        return dict(certfile=P(f"{name}.cert.pem"), keyfile=P(f"{name}.enc.pem"), password="pä ss")
    return dict(certfile=P(f"{name}.encboth.pem"), password="pä ss")


def allowed(srv, cli):
    (sname, _, ca, _), ((mode, t), cert, _, target) = srv, cli
    server_ok = mode == "ignore" or (chain_ok(sname, trusted(t)) and name_ok(sname, target))
    client_ok = ca is None or (cert is not None and chain_ok(cert[0], trusted(ca)))
    return server_ok, client_ok


def align(srv, arg):
    """A client whose settings fit this server, except for one thing."""
    change, mode, cfiles, how, pick = arg
    sname, _, ca, _ = srv
    issuer = PKI["specs"][sname]["issuer"] or "A"
    if change == "ca":
        issuer = "B" if issuer == "A" else "A"
    verify = (mode, issuer) if mode != "dir" else ("path", "dir" + issuer)
    names = [("[%s]" % n if ":" in n else n) for n in PKI["specs"][sname]["sans"] if n != "other.example"] or ["localhost"]
    target = names[pick % len(names)]
    if change == "name":
        target = [t for t in ("localhost", "127.0.0.1", "[::1]") if t not in names or len(names) == 3][0]
    cert = None
    if ca and change != "no cert":
        c = trusted(ca)[0]
        name = {"other ca cert": "B-good" if c == "A" else "A-good", "expired cert": "A-expired", "self cert": "self"}.get(change, f"{c}-good")
        cert = (name, cfiles)
    return (verify, cert, how, target)


def client_ctx(cli):
    (mode, t), cert, how, _ = cli
    os.environ["SSL_CERT_FILE"] = P({"A": "caA.pem", "B": "caB.pem", "none": "empty.pem"}[t] if mode == "verify" else "empty.pem")
    try:
        return create_client_tls_context(mode if mode != "path" else ca_path(t, how), **(cert_args(*cert) if cert else {}))
    finally:
        os.environ["SSL_CERT_FILE"] = P("empty.pem")


def hello():
    c = ssl.create_default_context()
    inc, out = ssl.MemoryBIO(), ssl.MemoryBIO()
    o = c.wrap_bio(inc, out, server_hostname="localhost")
    try:
        o.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return out.read()


def rst(s):
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()


def frame(text):
    """The bytes a channel puts on the wire for a message, taken from the code."""
    from ansibug._socket_helper import SocketHelper

    a, b = socket.socketpair()
    with a, b:
        mpq.MPQueue(SocketHelper("x", a), mpq.MPProtocol).send(msg(text))
        return b.recv(65536)


def raw_attempt(how, port, needs_cert):
    s = socket.create_connection(("127.0.0.1", port), timeout=WAIT)
    try:
        if how == "plain":
            s.sendall(b"GET / HTTP/1.1\r\n\r\n")
            s.recv(10)
        elif how == "plain-frame":
            s.sendall(frame("plaintext"))
            s.recv(10)
        elif how == "close":
            pass
        elif how == "rst":
            rst(s)
        elif how.startswith("half-hello"):
            h = hello()
            s.sendall(h[: len(h) // 2])
            if how.endswith("rst"):
                rst(s)
        elif how.startswith("hello"):
            s.sendall(hello())
            if how == "hello-rst":
                s.recv(5)
                rst(s)
        elif how in ("nocert-send", "nocert-close"):
            if not needs_cert:
                return
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            c.check_hostname = False
            c.verify_mode = ssl.CERT_NONE
            w = c.wrap_socket(s, server_hostname="localhost")
            try:
                if how == "nocert-send":
                    w.sendall(frame("unauthorised"))
                    w.settimeout(2)
                    w.recv(1)
            finally:
                w.close()
        elif how == "old-version":
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            c.check_hostname = False
            c.verify_mode = ssl.CERT_NONE
            c.set_ciphers("ALL:@SECLEVEL=0")
            c.options |= ssl.OP_NO_TLSv1_2 | ssl.OP_NO_TLSv1_3
            try:
                c.minimum_version = ssl.TLSVersion.TLSv1
            except ValueError:
                return
            c.wrap_socket(s, server_hostname="localhost").close()
    except OSError:
        pass
    finally:
        try:
            s.close()
        except OSError:
            pass


def t_sessions(case, rec: Recorder):
    srv, tries = case
    sname, sfiles, ca, how = srv
    needs = ca is not None
    srec = Rec()
    ctx = guard(lambda: create_server_tls_context(ca_trust=ca_path(ca, how) if ca else None, **cert_args(sname, sfiles)), f"server settings {srv}")
    server = mpq.ServerMPQueue("tcp://", lambda: srec, ssl_context=ctx)
    clients = []
    refused = 0
    try:
        port = parse_addr_string(server.address)[1]
        accepting = Bg(lambda: server.start(timeout=120))
        # Somebody who is allowed whatever the server shows.
        good = ("client", (("ignore", "none"), (("A-good" if not ca or "A" in trusted(ca) else "B-good"), "combined"), "plain", "127.0.0.1"))
        for i, (kind, arg) in enumerate(list(tries) + [good]):
            if kind == "aligned":
                kind, arg = "client", align(srv, arg)
            what = f"attempt {i} ({kind} {arg}) of {case}"
            if kind == "raw" and arg != "plain-client":
                raw_attempt(arg, port, needs)
                refused += 1
                rec.tag(f"raw {arg}")
                continue
            crec = Rec()
            if kind == "raw":
                client = mpq.ClientMPQueue(f"tcp://127.0.0.1:{port}", lambda: crec)
                limit, want = 0.3, (False, False)
            else:
                cctx = guard(lambda: client_ctx(arg), f"client settings {arg}")
                client = mpq.ClientMPQueue(f"tcp://{arg[3]}:{port}", lambda: crec, ssl_context=cctx)
                limit, want = WAIT, allowed(srv, arg)
            clients.append(client)
            b = Bg(lambda: client.start(timeout=limit))
            until = time.monotonic() + WAIT + 10
            while not b.wait(0.25) and time.monotonic() < until:
                if accepting.done.is_set() and accepting.error:
                    break
            if not b.done.is_set():
                raise Violation(f"{what}: connecting neither succeeds nor fails" + (f"; the listener ended with {accepting.error!r}" if accepting.done.is_set() else ""))
            if accepting.done.is_set() and accepting.error:
                raise Violation(f"{what}: the listener gave up: {accepting.error!r}")
            if all(want):
                if b.error:
                    raise Violation(f"{what}: an acceptable client was refused: {b.error!r}")
                accepting.result(WAIT, f"{what}: the listener")
                for q, r in ((client, srec), (server, crec)):
                    q.send(msg(f"hello {i}"))
                    require(r.wait(lambda: r.got, WAIT) and r.got[0].output == f"hello {i}", f"{what}: the first message was {r.got}")
                rec.tag("accepted " + arg[0][0])
                break
            if not b.error:
                raise Violation(f"{what}: the client was told it is connected (server acceptable: {want[0]}, client acceptable: {want[1]})")
            if not isinstance(b.error, (OSError, ssl.SSLError, ValueError)):
                raise Violation(f"{what}: refused with an internal failure {b.error!r}")
            refused += 1
            rec.tag("refused " + ("plain client" if kind == "raw" else f"{want}"))
            Bg(client.stop).result(WAIT, f"{what}: stop")
            require(not srec.got, f"{what}: a message crossed: {srec.got}")
            if accepting.done.is_set():
                raise Violation(f"{what}: the listener took it for a session (server acceptable: {want[0]}, client acceptable: {want[1]})")
        require(len(srec.got) == 1, f"{case}: unexpected messages {srec.got}")
    finally:
        quiet_stop(*clients, server)
    if refused or ca or arg[0][0] != "ignore":
        rec.nontrivial()


# Refused up front -----------------------------------------------------------

bad_settings = st.one_of(
    st.tuples(st.just("ca-missing"), st.booleans(), st.sampled_from(["/nonexistent/ca.pem", "~/nope.pem", "$PKIBASE/nope", "nope", "$UNSET_VARIABLE/x", "Verify", "IGNORE"]), spelling),
    st.tuples(st.just("key-mismatch"), st.booleans(), st.tuples(st.sampled_from(CLIENT_CERTS), st.sampled_from(CLIENT_CERTS)).filter(lambda x: x[0] != x[1]), st.sampled_from(["key", "enc"])),
    st.tuples(st.just("password"), st.booleans(), st.sampled_from(CLIENT_CERTS), st.sampled_from(["enc", "encboth"])),
    st.tuples(st.just("no-key"), st.booleans(), st.sampled_from(CLIENT_CERTS), st.just("")),
    st.tuples(st.just("cert-missing"), st.booleans(), st.sampled_from(CLIENT_CERTS), st.just("")),
    st.tuples(st.just("ca-garbage"), st.booleans(), st.just("empty.pem"), st.just("")),
)


def t_bad_settings(case, rec: Recorder):
    kind, for_server, a, b = case
    good = dict(certfile=P("A-good.combined.pem"))
    if kind == "ca-missing":
        fn = (lambda: create_server_tls_context(ca_trust=a, **good)) if for_server else (lambda: create_client_tls_context(a))
    elif kind == "ca-garbage":
        fn = (lambda: create_server_tls_context(ca_trust=P(a), **good)) if for_server else (lambda: create_client_tls_context(P(a)))
    else:
        if kind == "key-mismatch":
            args = dict(certfile=P(f"{a[0]}.cert.pem"), keyfile=P(f"{a[1]}.{b}.pem"), password="pä ss")
        elif kind == "password":
            args = dict(certfile=P(f"{a}.cert.pem"), keyfile=P(f"{a}.enc.pem"), password="wrong") if b == "enc" else dict(certfile=P(f"{a}.encboth.pem"), password="wrong")
        elif kind == "no-key":
            args = dict(certfile=P(f"{a}.cert.pem"))
        else:
            args = dict(certfile=P(f"{a}.missing.pem"))
        fn = (lambda: create_server_tls_context(**args)) if for_server else (lambda: create_client_tls_context("ignore", **args))
    try:
        fn()
    except (ValueError, OSError):
        pass
    except Exception as e:
        raise Violation(f"{case} was refused with an internal failure {e!r}")
    else:
        raise Violation(f"{case} was accepted")
    rec.tag(kind)
    rec.nontrivial()


TESTS = [
    Test("sessions", lambda: sessions, t_sessions, quick=1600, thorough=40000, case_timeout=300, confirm=0),
    Test("bad_settings", lambda: bad_settings, t_bad_settings, quick=600, thorough=3000),
]
