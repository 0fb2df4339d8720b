From 79e1654677b15ed3b0c6d069f0697cf9ab12c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 01/43] fix: keep the stepIn targetId apart from the thread id

The targetId property was mapped onto thread_id, so a client that sent it
stepped the wrong thread.
---
 src/ansibug/dap/_requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_requests.py b/src/ansibug/dap/_requests.py
index 3d391e3..efd852a 100644
--- a/src/ansibug/dap/_requests.py
+++ b/src/ansibug/dap/_requests.py
@@ -488,7 +488,7 @@ class StepInRequest(
         "arguments": {
             "threadId": "thread_id",
             "singleThread": "single_thread",
-            "targetId": "thread_id",
+            "targetId": "target_id",
             "granularity": "granularity",
         }
     },
-- 
2.43.0


From 7c206be3a29ac1e378fc25aacde45b009f3a6f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 02/43] fix: ignore a property named __types in an incoming
 message

---
 src/ansibug/dap/_messages.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_messages.py b/src/ansibug/dap/_messages.py
index bfa003f..63f0391 100644
--- a/src/ansibug/dap/_messages.py
+++ b/src/ansibug/dap/_messages.py
@@ -248,7 +248,8 @@ class DAPObjectMeta(type):
                 break
 
             for key, value in body.items():
-                if key not in mapping or value is None:
+                # __types is the cached type info and not a DAP property.
+                if key == "__types" or key not in mapping or value is None:
                     continue
 
                 field_meta = mapping[key]
-- 
2.43.0


From fcc359d9de788e903b1758071a281e3a776dc60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 03/43] fix: accept header values that contain a colon

---
 src/ansibug/dap/_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_adapter.py b/src/ansibug/dap/_adapter.py
index 6ffcb83..10f2267 100644
--- a/src/ansibug/dap/_adapter.py
+++ b/src/ansibug/dap/_adapter.py
@@ -52,7 +52,7 @@ class DebugAdapterConnection:
             return None
 
         raw_headers = bytes(self._in_buffer[:header_idx])
-        headers = dict(h.split(b": ", 2) for h in raw_headers.split(b"\r\n"))
+        headers = dict(h.split(b": ", 1) for h in raw_headers.split(b"\r\n"))
         if b"Content-Length" not in headers:
             raise ValueError("Expected Content-Length header before message payload but none found")
 
-- 
2.43.0


From 04834b14fb13fba33c97f96fb3a7cb546c07c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 04/43] fix: parse console commands without splitting their
 expression

---
 .../dap/plugins/plugin_utils/_repl_util.py    | 49 +++++++++++--------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
index c0d8b85..760cf7f 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
@@ -117,15 +117,33 @@ def parse_repl_args(
         help="Template an expression",
     )
 
-    # The provided value from the repl is just a string, we need to convert it
-    # to a command line and parse the known args. We only do the known args
-    # because some commands need the raw value provided outside of a cmd split
-    # processing argparse uses.
-    split_args = shlex.split(args)
-
+    # The provided value from the repl is just a string, only the command and
+    # the name are split using shell like rules. Whatever comes after that is
+    # the raw expression which may not be a valid command line, for example it
+    # can contain unbalanced quotes or values that look like an option.
+    lexer = shlex.shlex(args, posix=True)
+    lexer.whitespace_split = True
+    lexer.commenters = ""
+
+    name = ""
     try:
-        parsed_args = parser.parse_known_args(split_args)[0]
-    except ReturnErrorMessage as e:
+        command_args = [v for v in [lexer.get_token()] if v is not None]
+        if command_args and command_args[0] not in ["template", "t"]:
+            raw_name = lexer.get_token()
+            if raw_name in ["-h", "--help"]:
+                command_args.append(raw_name)
+            elif raw_name is not None:
+                # The value is a placeholder so that argparse won't treat a
+                # name starting with - as an option.
+                name = raw_name
+                command_args.append("name")
+
+        expr = lexer.instream.read().lstrip()
+        if command_args and command_args[0] in ["template", "t"] and expr.rstrip() in ["-h", "--help"]:
+            command_args.append(expr.rstrip())
+
+        parsed_args = parser.parse_known_args(command_args)[0]
+    except (ReturnErrorMessage, ValueError) as e:
         return str(e)
 
     command = str(parsed_args.command)
@@ -141,21 +159,10 @@ def parse_repl_args(
                 break
 
     if parsed_args.command == "template":
-        # The value after the command needs to be extracted.
-        expr = args[args.index(command) + len(command) :].lstrip()
-
         return TemplateCommand(command="template", expression=expr)
 
     elif parsed_args.command in ["set_option", "set_hostvar"]:
-        # The value after the option/var name needs to be extracted.
-        remaining = args[args.index(command) + len(command) :].lstrip()
-        remaining = remaining[remaining.index(parsed_args.name) + len(parsed_args.name) :]
-        if remaining.startswith('"') or remaining.startswith("'"):
-            remaining = remaining[1:]
-
-        expr = remaining.lstrip()
-
-        return SetVarCommand(parsed_args.command, parsed_args.name, expr)
+        return SetVarCommand(parsed_args.command, name, expr)
 
     else:
-        return RemoveVarCommand(parsed_args.command, parsed_args.name)
+        return RemoveVarCommand(parsed_args.command, name)
-- 
2.43.0


From 46cb3e199e7e30ef269d2dc53cac4c4e9393c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 05/43] fix: keep every character of a uds address path

---
 src/ansibug/_socket_helper.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index facca38..abdb3c0 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -68,7 +68,16 @@ def parse_addr_string(
     Returns:
         Any: The required address for the scheme specified.
     """
-    value_split = urllib.parse.urlsplit(value)
+    scheme, _, uds_path = value.partition(":")
+    if scheme.lower() == "uds":
+        # A path can contain characters that have a special meaning in a URL.
+        uds_name = ""
+        if uds_path.startswith("//"):
+            uds_name, sep, uds_path = uds_path[2:].partition("/")
+            uds_path = sep + uds_path
+        value_split = urllib.parse.SplitResult("uds", uds_name, uds_path, "", "")
+    else:
+        value_split = urllib.parse.urlsplit(value)
 
     if value_split.scheme == "tcp":
         if not value_split.netloc and not value_split.port:
-- 
2.43.0


From 16abea62b6165405653085f2d35f8b078f93683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 06/43] fix: listen on tcp hosts that only have an IPv4 address

---
 src/ansibug/_mp_queue.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 5275979..94544df 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -218,7 +218,13 @@ class ServerMPQueue(MPQueue):
 
         else:
             sock_kwargs: dict[str, t.Any] = {}
-            if socket.has_dualstack_ipv6():  # pragma: nocover
+            family = socket.AF_INET6
+            if parsed_addr[0]:
+                # A specific host might not have an IPv6 address to bind to.
+                addr_info = socket.getaddrinfo(*parsed_addr, type=socket.SOCK_STREAM, flags=socket.AI_PASSIVE)
+                family = addr_info[0][0]
+
+            if family == socket.AF_INET6 and socket.has_dualstack_ipv6():  # pragma: nocover
                 # Allows the server to bind on both IPv4 and IPv6.
                 sock_kwargs |= {
                     "family": socket.AF_INET6,
-- 
2.43.0


From 33cf7b1bfffc7bc6a031dabe06429a1573007e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 07/43] fix: do not mix parts of messages sent by multiple
 threads

---
 src/ansibug/_mp_queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 94544df..fd98da9 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -45,6 +45,7 @@ class MPQueue:
         self._proto = proto()
         self._cancel_token = cancel_token or SocketCancellationToken()
         self._recv_thread: threading.Thread | None = None
+        self._send_lock = threading.Lock()
 
     def __enter__(self) -> MPQueue:
         return self
@@ -78,7 +79,11 @@ class MPQueue:
     ) -> None:
         b_data = pickle.dumps(data)
         b_len = len(b_data).to_bytes(4, byteorder="little")
-        self._socket.send(b_len + b_data, self._cancel_token)
+
+        # Multiple threads can send messages, a large message might be sent in
+        # parts which must not be mixed with the parts of another message.
+        with self._send_lock:
+            self._socket.send(b_len + b_data, self._cancel_token)
 
     def start(
         self,
-- 
2.43.0


From c826d61040ee8cf4e5e6a75c50075089a4f7bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 08/43] fix: do not report an orderly TLS shutdown as an error
 to the peer

---
 src/ansibug/_socket_helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index abdb3c0..5983992 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -321,7 +321,9 @@ class SocketCancellationToken:
         buffer: bytearray | memoryview,
         n: int,
     ) -> int:
-        with self.with_cancel(lambda: sock.shutdown(socket.SHUT_RD)):
+        # Shutting down only the read side of a TLS socket has it send an alert
+        # to the peer which will see that as an error.
+        with self.with_cancel(lambda: sock.shutdown(socket.SHUT_RDWR)):
             res = sock.recv_into(buffer, n)
             if self._cancelled:
                 raise CancelledError()
-- 
2.43.0


From bc460cafa4e5beabb82148bf3044875676cf3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 09/43] fix: have every blocking socket operation end when it
 is cancelled

---
 src/ansibug/_mp_queue.py      |  2 ++
 src/ansibug/_socket_helper.py | 48 +++++++++++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index fd98da9..b6d15a0 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -189,6 +189,7 @@ class ClientMPQueue(MPQueue):
         if self._ssl_context:
             self._socket.wrap_tls(
                 self._ssl_context,
+                self._cancel_token,
                 server_side=False,
                 server_hostname=ssl_hostname,
             )
@@ -272,6 +273,7 @@ class ServerMPQueue(MPQueue):
                 try:
                     conn.wrap_tls(
                         self._ssl_context,
+                        self._cancel_token,
                         server_side=True,
                     )
                     # The client will read a single byte after the handshake to
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 5983992..349e002 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -227,13 +227,15 @@ class SocketHelper:
     def wrap_tls(
         self,
         ssl_context: ssl.SSLContext,
+        cancel_token: SocketCancellationToken,
         *,
         server_side: bool = True,
         server_hostname: str | None = None,
     ) -> None:
         log.debug("Wrapping socket with TLS context")
-        self._sock = ssl_context.wrap_socket(
+        self._sock = cancel_token.do_handshake(
             self._sock,
+            ssl_context,
             server_side=server_side,
             server_hostname=server_hostname,
         )
@@ -305,6 +307,10 @@ class SocketCancellationToken:
             except BlockingIOError:
                 pass
 
+            if self._cancelled:
+                # Was cancelled before there was a connection to shutdown.
+                raise CancelledError()
+
             _, wd, _ = select.select([], [sock], [], timeout or None)
             if not wd:
                 raise TimeoutError("Timed out waiting for socket.connect")
@@ -315,6 +321,31 @@ class SocketCancellationToken:
 
             sock.setblocking(True)
 
+    def do_handshake(
+        self,
+        sock: socket.socket,
+        ssl_context: ssl.SSLContext,
+        server_side: bool = True,
+        server_hostname: str | None = None,
+    ) -> ssl.SSLSocket:
+        # The socket might already be closed by the cancellation.
+        with self.with_cancel(lambda: None):
+            tls_sock = ssl_context.wrap_socket(
+                sock,
+                server_side=server_side,
+                server_hostname=server_hostname,
+                do_handshake_on_connect=False,
+            )
+
+        with self.with_cancel(lambda: tls_sock.shutdown(socket.SHUT_RDWR)):
+            try:
+                tls_sock.do_handshake()
+            except Exception:
+                tls_sock.close()
+                raise
+
+        return tls_sock
+
     def recv_into(
         self,
         sock: socket.socket,
@@ -350,7 +381,12 @@ class SocketCancellationToken:
 
             for cancel_id, func in self._cancel_funcs.items():
                 log.debug("Cancelling function with id %d", cancel_id)
-                func()
+                try:
+                    func()
+                except OSError:
+                    # The socket might not be connected anymore, the remaining
+                    # functions still need to be cancelled.
+                    pass
 
             self._cancel_funcs = {}
 
@@ -371,6 +407,14 @@ class SocketCancellationToken:
             log.debug("Calling cancellable function with id %d", cancel_id)
             yield
 
+        except Exception:
+            # How the operation fails depends on what it was up to when its
+            # socket was shutdown or closed.
+            if self._cancelled:
+                raise CancelledError()
+            else:
+                raise
+
         finally:
             with self._lock:
                 self._cancel_funcs.pop(cancel_id, None)
-- 
2.43.0


From 011647ae8574e0a97dee1b0285f4b7cf28fc817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 10/43] fix: keep listening when a client goes away during the
 TLS handshake

---
 src/ansibug/_mp_queue.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index b6d15a0..2448556 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -282,7 +282,9 @@ class ServerMPQueue(MPQueue):
                     # handshake.
                     conn.send(b"\x00", self._cancel_token)
 
-                except ssl.SSLError:
+                except OSError:
+                    # This is either a ssl.SSLError or the client went away
+                    # before it was done.
                     log.exception("Server TLS handshake failed, trying again")
                     conn.close()
                     conn = self._socket.accept(
-- 
2.43.0


From 88aedec089be94e40886794d7ce6b8483ef7914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 11/43] fix: apply the connect timeout until the server has
 confirmed the connection

---
 src/ansibug/_mp_queue.py      | 14 ++++++++++++--
 src/ansibug/_socket_helper.py |  8 ++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 2448556..4724fb9 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -186,6 +186,11 @@ class ClientMPQueue(MPQueue):
         else:
             raise error
 
+        # The server might never respond, for example if only one side is using
+        # TLS, so the timeout applies until the server has confirmed it is
+        # connected.
+        self._socket.settimeout(timeout or None, self._cancel_token)
+
         if self._ssl_context:
             self._socket.wrap_tls(
                 self._ssl_context,
@@ -196,11 +201,16 @@ class ClientMPQueue(MPQueue):
             # TLS 1.3 won't validate their cert was accepted until its first
             # read. This ensures the connection is validated before it is
             # going to be used.
-            self._socket.recv(1, self._cancel_token)
+            confirmation = self._socket.recv(1, self._cancel_token)
         else:
             # Ensures that the server is actually connected to us and we aren't
             # in the backlog waiting for an accept().
-            self._socket.recv(1, self._cancel_token)
+            confirmation = self._socket.recv(1, self._cancel_token)
+
+        if not confirmation:
+            raise ConnectionError("The server closed the connection before it was established")
+
+        self._socket.settimeout(None, self._cancel_token)
 
         super().start()
 
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 349e002..df0def6 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -215,6 +215,14 @@ class SocketHelper:
             log.debug("Socket %s send: '%s'", self.use, base64.b64encode(data).decode())
         cancel_token.sendall(self._sock, data)
 
+    def settimeout(
+        self,
+        timeout: float | None,
+        cancel_token: SocketCancellationToken,
+    ) -> None:
+        with cancel_token.with_cancel(lambda: None):
+            self._sock.settimeout(timeout)
+
     def shutdown(
         self,
         how: int,
-- 
2.43.0


From 79cd7cffb8fd605e247c71e3791b997bd6473717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 12/43] fix: end the debug adapter when the client closes its
 input

---
 src/ansibug/_debug_adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 4ea010a..746a0ad 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -281,6 +281,9 @@ class DAServer:
         is_connected = True
         while is_connected:
             data = stdin.read(4096)
+            if not data:
+                # The client is gone without sending a disconnect message.
+                break
 
             if log.isEnabledFor(logging.DEBUG):
                 log.debug("STDIN: %s", data.decode())
-- 
2.43.0


From 54c2d6dba46e31fc470adfebb55102084386cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 13/43] fix: do not fail to log client input that is cut inside
 a character

---
 src/ansibug/_debug_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 746a0ad..8e04613 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -286,7 +286,7 @@ class DAServer:
                 break
 
             if log.isEnabledFor(logging.DEBUG):
-                log.debug("STDIN: %s", data.decode())
+                log.debug("STDIN: %s", data.decode(errors="backslashreplace"))
             adapter.receive_data(data)
 
             while msg := adapter.next_message():
-- 
2.43.0


From fec92e233e93915a2835b3b1fc844ffdd3009387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 14/43] fix: write each message to the client once and in one
 piece

---
 src/ansibug/_debug_adapter.py | 40 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 8e04613..0de9134 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -13,6 +13,7 @@ import pathlib
 import shlex
 import sys
 import tempfile
+import threading
 import traceback
 import types
 import typing as t
@@ -255,6 +256,7 @@ class DAServer:
         self._run_in_response_data: dict[int, _RunInTerminalDetails] = {}
         self._temp_dir = temp_dir
         self._terminated_sent = False
+        self._client_lock = threading.RLock()
 
     def __enter__(self) -> DAServer:
         return self
@@ -342,15 +344,17 @@ class DAServer:
             self._debuggee.stop()
             self._debuggee = None
 
-        if self._launch_queue:
-            self._launch_queue.stop()
-            self._launch_queue = None
+        launch_queue, self._launch_queue = self._launch_queue, None
+        if launch_queue:
+            launch_queue.stop()
 
-        if not self._terminated_sent:
-            # Both the debuggee or start() end will hit the code here. We only
-            # need to send one TerminatedEvent() for whichever was first.
-            self.send_to_client(dap.TerminatedEvent())
-            self._terminated_sent = True
+        with self._client_lock:
+            if not self._terminated_sent:
+                # Both the debuggee or start() end will hit the code here. We
+                # only need to send one TerminatedEvent() for whichever was
+                # first.
+                self._terminated_sent = True
+                self.send_to_client(dap.TerminatedEvent())
 
     def send_to_client(
         self,
@@ -358,16 +362,20 @@ class DAServer:
     ) -> int:
         stdout = sys.stdout.buffer
 
-        req_no = self._adapter.queue_msg(msg)
-        data = self._adapter.data_to_send() or b""
-        if log.isEnabledFor(logging.DEBUG):
-            log.debug("STDOUT: %s", data.decode())
+        # Messages are sent by both the thread that runs start() and the one that
+        # receives the messages of the debuggee.
+        with self._client_lock:
+            if isinstance(msg, dap.Response) and not self._incoming_requests.pop(msg.request_seq, None):
+                # Was already answered when the session was stopped.
+                return 0
 
-        stdout.write(data)
-        stdout.flush()
+            req_no = self._adapter.queue_msg(msg)
+            data = self._adapter.data_to_send() or b""
+            if log.isEnabledFor(logging.DEBUG):
+                log.debug("STDOUT: %s", data.decode())
 
-        if isinstance(msg, dap.Response):
-            self._incoming_requests.pop(msg.request_seq, None)
+            stdout.write(data)
+            stdout.flush()
 
         return req_no
 
-- 
2.43.0


From 92039a4fb065147661a9876b2364ceecf9041947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 15/43] fix: answer the requests that are outstanding when the
 debuggee is gone

---
 src/ansibug/_debug_adapter.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 0de9134..ef0d520 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -302,7 +302,7 @@ class DAServer:
                         is_connected = False
                         self._send_disconnect(msg, self._debuggee)
                     else:
-                        self._debuggee.send(msg)
+                        self._send_debuggee(msg, self._debuggee)
 
                 else:
                     self._process_msg(msg)
@@ -356,6 +356,19 @@ class DAServer:
                 self._terminated_sent = True
                 self.send_to_client(dap.TerminatedEvent())
 
+            # There is no debuggee left to answer these. A DisconnectRequest that
+            # has just arrived is answered when start() ends.
+            for req in list(self._incoming_requests.values()):
+                if isinstance(req, dap.DisconnectRequest):
+                    continue
+
+                resp = dap.ErrorResponse(
+                    command=req.command,
+                    request_seq=req.seq,
+                    message="The debug session has ended",
+                )
+                self.send_to_client(resp)
+
     def send_to_client(
         self,
         msg: dap.ProtocolMessage,
@@ -379,6 +392,23 @@ class DAServer:
 
         return req_no
 
+    def _send_debuggee(
+        self,
+        msg: dap.Request,
+        debuggee: MPQueue,
+    ) -> None:
+        try:
+            debuggee.send(msg)
+        except OSError as e:
+            # The debuggee has gone, the messages it sent before that might
+            # still be waiting to be sent to the client.
+            resp = dap.ErrorResponse(
+                command=msg.command,
+                request_seq=msg.seq,
+                message=f"Failed to send request to the debuggee: {e}",
+            )
+            self.send_to_client(resp)
+
     def _send_disconnect(
         self,
         msg: dap.DisconnectRequest,
-- 
2.43.0


From c7b9002b558017d392ef0a7f65e9a0452703682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 16/43] fix: release the debuggee when the client can no longer
 be written to

---
 src/ansibug/_debug_adapter.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index ef0d520..7ed2b19 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -323,6 +323,16 @@ class DAServer:
             from_debuggee: The stop is being called as the debuggee has
                 disconnected.
         """
+        # The client might not be there anymore to send something to.
+        try:
+            self._stop_requests(exp)
+        finally:
+            self._stop_debuggee(from_debuggee)
+
+    def _stop_requests(
+        self,
+        exp: BaseException | None,
+    ) -> None:
         # Ensure the DisconnectResponse is sent if there is an outstanding
         # request.
         for req in list(self._incoming_requests.values()):
@@ -340,6 +350,10 @@ class DAServer:
                 )
                 self.send_to_client(resp)
 
+    def _stop_debuggee(
+        self,
+        from_debuggee: bool,
+    ) -> None:
         if not from_debuggee and self._debuggee:
             self._debuggee.stop()
             self._debuggee = None
-- 
2.43.0


From 9d83283e1ec8a7fa965719b4885bf9a7e0cc5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 17/43] fix: answer the requests that are sent after the
 debuggee is gone

---
 src/ansibug/_debug_adapter.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 7ed2b19..b4addaa 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -411,17 +411,25 @@ class DAServer:
         msg: dap.Request,
         debuggee: MPQueue,
     ) -> None:
+        error = "the debug session has ended"
         try:
             debuggee.send(msg)
         except OSError as e:
             # The debuggee has gone, the messages it sent before that might
             # still be waiting to be sent to the client.
-            resp = dap.ErrorResponse(
-                command=msg.command,
-                request_seq=msg.seq,
-                message=f"Failed to send request to the debuggee: {e}",
-            )
-            self.send_to_client(resp)
+            error = str(e)
+
+        else:
+            # It is not always an error to send to a debuggee that is gone.
+            if not self._terminated_sent:
+                return
+
+        resp = dap.ErrorResponse(
+            command=msg.command,
+            request_seq=msg.seq,
+            message=f"Failed to send request to the debuggee: {error}",
+        )
+        self.send_to_client(resp)
 
     def _send_disconnect(
         self,
-- 
2.43.0


From 7ae54fc0748f1d1b8c80a029bf4a84ef79bdb58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 18/43] fix: signal the end of a launched process when its
 terminal is closed

---
 src/ansibug/_debug_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index b4addaa..5945fd2 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -577,7 +577,7 @@ except OSError:
 "
 }}
 
-trap cleanup EXIT INT ABRT KILL TERM
+trap cleanup EXIT INT ABRT KILL TERM HUP QUIT
 
 rm -f "$0"
 {python} {ansibug_args} "$@"
-- 
2.43.0


From 79dc0be9b37830c9ae9d73a26e6ded0b9cfef364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 19/43] fix: launch with a log file that starts with a dash

---
 src/ansibug/_debug_adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 5945fd2..e4acadc 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -542,8 +542,8 @@ class DAServer:
         if launch_args.log_file is not None:
             ansibug_args.extend(
                 [
-                    "--log-file",
-                    launch_args.log_file,
+                    # Can start with a - which looks like another option.
+                    f"--log-file={launch_args.log_file}",
                     "--log-level",
                     launch_args.log_level,
                 ]
-- 
2.43.0


From 81373ab29816a1bc1f506476ac925dae085ba0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 20/43] fix: start the playbook when Ansible's debug output is
 enabled

ansible config dump writes the debug lines to stdout as well, so its
JSON could not be parsed.
---
 src/ansibug/_exec_playbook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_exec_playbook.py b/src/ansibug/_exec_playbook.py
index bacea42..1ced4ed 100644
--- a/src/ansibug/_exec_playbook.py
+++ b/src/ansibug/_exec_playbook.py
@@ -184,8 +184,8 @@ def _configure_ansible_env() -> dict[str, str]:
             "json",
         ],
         # Explicitly set verbosity so it doesn't display version info breaking
-        # the json parsing.
-        env=os.environ | {"ANSIBLE_VERBOSITY": "0"},
+        # the json parsing. The debug lines go to stdout as well.
+        env=os.environ | {"ANSIBLE_VERBOSITY": "0"} | {"ANSIBLE_DEBUG": "0"},
         capture_output=True,
         check=True,  # FUTURE: Maybe a nicer exception would be useful
     )
-- 
2.43.0


From edec3a3720045427fa8f561bee0c4ab46e68def0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 21/43] fix: handle requests while no play is running

A request that needs a play waited for one for ever, which blocked the
configuration or the end of the process. A disconnect did the same, and
a terminate before the first play or between two plays was lost.
---
 src/ansibug/_debuggee.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 95bde9a..a5b4e73 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -239,6 +239,11 @@ class AnsibleDebugger(metaclass=Singleton):
         self._strategy: DebugState | None = None
         self._terminated = False
 
+        # The strategy of a play is not going to connect while waiting for the
+        # configuration or once shut down. Guarded by _strategy_connected.
+        self._waiting_for_config = False
+        self._is_shutdown = False
+
         self._thread_counter = 2  # 1 is always the main thread
         self._stackframe_counter = 1
         self._variable_counter = 1
@@ -301,6 +306,9 @@ class AnsibleDebugger(metaclass=Singleton):
             strategy: The strategy to set.
         """
         with self._strategy_connected:
+            if self._terminated:
+                raise EndStrategy()
+
             self._strategy = strategy
             self._strategy_connected.notify_all()
 
@@ -343,6 +351,10 @@ class AnsibleDebugger(metaclass=Singleton):
             timeout: The maximum time, in seconds, to wait until the debug
                 adapter is connected and ready.
         """
+        with self._strategy_connected:
+            self._waiting_for_config = True
+            self._strategy_connected.notify_all()
+
         self._configuration_done.wait(timeout=timeout)
 
     def get_breakpoint(
@@ -454,6 +466,11 @@ class AnsibleDebugger(metaclass=Singleton):
         """
         log.debug("Shutting down DebugServer")
 
+        # A request might be waiting for a strategy that is not coming anymore.
+        with self._strategy_connected:
+            self._is_shutdown = True
+            self._strategy_connected.notify_all()
+
         if not from_send_thread and self._send_thread:
             # If we aren't connected we need to cancel the queue start method
             # before trying to join the thread. If we are connected we want to
@@ -588,7 +605,14 @@ class AnsibleDebugger(metaclass=Singleton):
 
     def _get_strategy(self) -> DebugState:
         with self._strategy_connected:
-            self._strategy_connected.wait_for(lambda: self._strategy is not None)
+            self._strategy_connected.wait_for(
+                lambda: self._strategy is not None
+                or self._is_shutdown
+                or (self._waiting_for_config and not self._configuration_done.is_set())
+            )
+            if self._strategy is None:
+                raise RuntimeError("The request cannot be processed as no play is running")
+
             return t.cast(DebugState, self._strategy)
 
     @functools.singledispatchmethod
@@ -621,6 +645,8 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.DisconnectRequest,
     ) -> None:
+        if msg.terminate_debuggee:
+            self._terminated = True
         self._disconnect(msg)
         self._send_queue.put(None)
         # The response is sent by the debug adapter.
@@ -863,8 +889,13 @@ class AnsibleDebugger(metaclass=Singleton):
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
 
-        strategy = self._get_strategy()
-        strategy.disconnect(msg)
+        # There might not be a play, the next one will check for itself if it
+        # should be ended.
+        with self._strategy_connected:
+            strategy = self._strategy
+
+        if strategy:
+            strategy.disconnect(msg)
 
     def _send_task(
         self,
-- 
2.43.0


From e28db66e123421e9dc8953045873647cd9485cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 22/43] fix: do not stop on exceptions once the client is gone

The exception breakpoints stayed set after a disconnect or a lost
connection, the next failed task then waited for ever.
---
 src/ansibug/_debuggee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index a5b4e73..5423caa 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -487,6 +487,7 @@ class AnsibleDebugger(metaclass=Singleton):
         # breakpoints and our debug config no longer applies
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         # Ensure the callback plugin isn't stuck waiting for this
         self._configuration_done.set()
@@ -888,6 +889,7 @@ class AnsibleDebugger(metaclass=Singleton):
     ) -> None:
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         # There might not be a play, the next one will check for itself if it
         # should be ended.
-- 
2.43.0


From 52b7cc7169cd9aff7676d8fa69a874e6104fa1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 23/43] fix: do not change the threads while a request goes
 through them

The play adds and removes threads while the thread of the connection
lists or resumes them, either could fail on the changed dict.
---
 .../ansibug/dap/plugins/strategy/debug.py       | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 9daf0ab..f667fdc 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -657,7 +657,9 @@ class AnsibleDebugState(DebugState):
             if tid == 1:
                 continue
 
-            del self.threads[tid]
+            with self._waiting_condition:
+                del self.threads[tid]
+
             self._debugger.queue_msg(
                 ansibug.dap.ThreadEvent(
                     reason="exited",
@@ -686,7 +688,8 @@ class AnsibleDebugState(DebugState):
         request: ansibug.dap.DisconnectRequest,
     ) -> None:
         state = ThreadState.END if request.terminate_debuggee else ThreadState.CONTINUE
-        self._resume_threads(list(self.threads.keys()), state)
+        with self._waiting_condition:
+            self._resume_threads(list(self.threads.keys()), state)
 
     def get_scopes(
         self,
@@ -870,9 +873,12 @@ class AnsibleDebugState(DebugState):
         self,
         request: ansibug.dap.ThreadsRequest,
     ) -> ansibug.dap.ThreadsResponse:
+        with self._waiting_condition:
+            threads = [t.to_dap() for t in self.threads.values()]
+
         return ansibug.dap.ThreadsResponse(
             request_seq=request.seq,
-            threads=[t.to_dap() for t in self.threads.values()],
+            threads=threads,
         )
 
     def get_variables(
@@ -964,10 +970,13 @@ class AnsibleDebugState(DebugState):
     ) -> AnsibleThread:
         tid = self._debugger.next_thread_id()
 
-        thread = self.threads[tid] = AnsibleThread(
+        thread = AnsibleThread(
             id=tid,
             host=host,
         )
+        with self._waiting_condition:
+            self.threads[tid] = thread
+
         self._debugger.queue_msg(
             ansibug.dap.ThreadEvent(
                 reason="started",
-- 
2.43.0


From 9f5d5dd931625e23d1d9cbc19d08308ead866161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 24/43] fix: start no further task after a terminate request

The request was only seen when a task that was running ended, or was
lost if the host did not have a thread yet.
---
 .../ansibug/dap/plugins/strategy/debug.py                    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index f667fdc..4ff0b84 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -514,6 +514,11 @@ class AnsibleDebugState(DebugState):
         if not thread:
             thread = self._add_thread(host)
 
+        # The client might have requested to terminate the debuggee before the
+        # thread was added or while it was not running a task.
+        if ThreadState.END in (thread.state, self.threads[1].state):
+            raise EndStrategy()
+
         if thread.stack_frames:
             # The parent is the implicit block and we want the parent of that.
             parent_task = task._parent._parent
-- 
2.43.0


From dc5910a311605085893da16940c6809291ed37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 25/43] fix: keep listening when a client goes away before it
 is accepted

Without TLS the confirmation could not be sent to such a client, which
ended the listener.
---
 src/ansibug/_mp_queue.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 4724fb9..6ccf643 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -310,7 +310,21 @@ class ServerMPQueue(MPQueue):
             # The client will read a single byte after the connection to verify
             # it is actually connected to a server and not just part of the
             # backlog.
-            conn.send(b"\x00", self._cancel_token)
+            while True:
+                try:
+                    conn.send(b"\x00", self._cancel_token)
+
+                except OSError:
+                    log.exception("Client went away before it was connected, trying again")
+                    conn.close()
+                    conn = self._socket.accept(
+                        self._cancel_token,
+                        timeout=timeout,
+                        cancel_socket=cancel_socket,
+                    )
+
+                else:
+                    break
 
         # The original server socket is no longer needed, replace it with the
         # client connection one.
-- 
2.43.0


From 55b499d735e7e710ec555aaeefc1bbd2f415b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 26/43] fix: do not wait for the configuration if the
 connection has failed

---
 src/ansibug/_debuggee.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 5423caa..fd38347 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -930,6 +930,11 @@ class AnsibleDebugger(metaclass=Singleton):
 
         finally:
             mp_queue.stop()
+            if not self._adapter_connected:
+                # The connection was never established so nothing else will
+                # do this.
+                self._configuration_done.set()
+
             self._adapter_connected = False
 
         log.debug("Debuggee server send thread ended")
-- 
2.43.0


From ad97f2161125ccf7bd17b5a38d76d545e1aa6369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 27/43] fix: do not lose breakpoint changes to a race

The connection thread sets breakpoints while the play registers lines
and looks breakpoints up. A breakpoint set while its file was loaded
could stay pending for ever, and either side could fail on a dict that
was changed by the other.
---
 src/ansibug/_debuggee.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index fd38347..139f052 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -253,6 +253,10 @@ class AnsibleDebugger(metaclass=Singleton):
         self._breakpoints: dict[int, AnsibleLineBreakpoint] = {}
         self._breakpoint_counter = 1
 
+        # The connection thread sets breakpoints while the play registers
+        # lines and looks up breakpoints.
+        self._breakpoint_lock = threading.RLock()
+
         # Key is the path, the value is a list of the lines in that file where:
         #   None - Line is a continuation of a breakpoint range
         #   0    - Line is not something a breakpoint can be set at.
@@ -376,7 +380,10 @@ class AnsibleDebugger(metaclass=Singleton):
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
             args if present.
         """
-        for b in self._breakpoints.values():
+        with self._breakpoint_lock:
+            breakpoints = list(self._breakpoints.values())
+
+        for b in breakpoints:
             if (
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
@@ -562,6 +569,15 @@ class AnsibleDebugger(metaclass=Singleton):
             bp_type: Set to 1 for a valid breakpoint and 0 for an invalid
                 breakpoint section.
         """
+        with self._breakpoint_lock:
+            self._register_path_breakpoint(path, line, bp_type)
+
+    def _register_path_breakpoint(
+        self,
+        path: str,
+        line: int,
+        bp_type: int,
+    ) -> None:
         # Ensure each new entry has a starting value of 0 which denotes that
         # a breakpoint cannot be set at the start of the file. It can only be
         # set when a line was registered.
@@ -695,6 +711,13 @@ class AnsibleDebugger(metaclass=Singleton):
     def _(
         self,
         msg: dap.SetBreakpointsRequest,
+    ) -> None:
+        with self._breakpoint_lock:
+            self._set_breakpoints(msg)
+
+    def _set_breakpoints(
+        self,
+        msg: dap.SetBreakpointsRequest,
     ) -> None:
         # FIXME: Deal with source_reference if set
         source_path = msg.source.path or ""
-- 
2.43.0


From c1b2cdc43e1f6ef6cf10ed2b0328f67ba164a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 28/43] fix: match the roots of path mappings by whole path
 components

A root also matched siblings which merely start with the same name, and
a trailing slash on one side only joined the wrong path.
---
 src/ansibug/_debuggee.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 139f052..5454f77 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -104,6 +104,15 @@ def get_pid_info_path(pid: int) -> pathlib.Path:
     return pathlib.Path(tmpdir) / f"ansibug-pid-{pid}"
 
 
+def _map_path(path: str, from_root: str, to_root: str) -> str | None:
+    """Replaces from_root of the path with to_root, None if the path is not in from_root."""
+    from_root = from_root.rstrip("/")
+    if path == from_root or path.startswith(f"{from_root}/"):
+        return to_root.rstrip("/") + path[len(from_root) :]
+
+    return None
+
+
 class EndStrategy(Exception):
     """Exception used to end the strategy plugin."""
 
@@ -546,8 +555,9 @@ class AnsibleDebugger(metaclass=Singleton):
             str: The converted path.
         """
         for mapping in self._debug_config.path_mappings:
-            if path.startswith(mapping.remote_root):
-                return mapping.local_root + path[len(mapping.remote_root) :]
+            mapped = _map_path(path, mapping.remote_root, mapping.local_root)
+            if mapped is not None:
+                return mapped
 
         else:
             return path
@@ -727,8 +737,9 @@ class AnsibleDebugger(metaclass=Singleton):
         # source mappings are keyed by the Ansible paths.
         actual_path = source_path
         for mapping in self._debug_config.path_mappings:
-            if actual_path.startswith(mapping.local_root):
-                actual_path = mapping.remote_root + actual_path[len(mapping.local_root) :]
+            mapped = _map_path(source_path, mapping.local_root, mapping.remote_root)
+            if mapped is not None:
+                actual_path = mapped
                 break
 
         source_info = self._source_info.get(actual_path, None)
-- 
2.43.0


From 63bc8057a2a2f512eaf0897bc3d7a54e75cb1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 29/43] fix: consider every breakpoint of a task when a
 condition is not met

---
 src/ansibug/_debuggee.py                                 | 4 ++++
 .../ansibug/dap/plugins/strategy/debug.py                | 9 +--------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 5454f77..48f7b61 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -374,6 +374,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         path: str,
         line: int,
+        condition: collections.abc.Callable[[str], bool] | None = None,
     ) -> AnsibleLineBreakpoint | None:
         """Gets the breakpoint for the path/line specified.
 
@@ -384,6 +385,8 @@ class AnsibleDebugger(metaclass=Singleton):
         Args:
             path: The path of the file to check.
             line: The line in the file to check.
+            condition: Evaluates the condition of a breakpoint, a breakpoint
+                with a condition that is not met is not considered.
 
         Returns:
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
@@ -397,6 +400,7 @@ class AnsibleDebugger(metaclass=Singleton):
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
                 and (b.breakpoint.end_line is None or b.breakpoint.end_line >= line)
+                and (not condition or not b.source_breakpoint.condition or condition(b.source_breakpoint.condition))
             ):
                 return b
 
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 4ff0b84..a47489c 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -589,14 +589,7 @@ class AnsibleDebugState(DebugState):
         with self._waiting_condition:
             tid = thread.id
 
-            line_breakpoint = self._debugger.get_breakpoint(path, line)
-            if (
-                line_breakpoint
-                and line_breakpoint.source_breakpoint.condition
-                and not eval_condition(line_breakpoint.source_breakpoint.condition)
-            ):
-                line_breakpoint = None
-
+            line_breakpoint = self._debugger.get_breakpoint(path, line, eval_condition)
             stopped_event = thread.should_break(task, line_breakpoint)
 
             if stopped_event:
-- 
2.43.0


From d9298602770e5900af44c3fa52acf4bc9a1044da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 30/43] fix: step over and out of the include a task is in

---
 .../ansibug/dap/plugins/strategy/debug.py     | 46 ++++++++-----------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index a47489c..90fa8b1 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -100,6 +100,16 @@ class ThreadState(enum.Enum):
     """Thread has been requested to end and should not process any more tasks."""
 
 
+def _get_parent_includes(task: Task) -> list[Task]:
+    """Gets the include tasks that a task was included through, innermost first."""
+    includes = []
+    while task := task._parent:
+        if isinstance(task, Task) and task.action in C._ACTION_ALL_INCLUDES:
+            includes.append(task)
+
+    return includes
+
+
 class AnsibleThread:
     def __init__(
         self,
@@ -129,12 +139,7 @@ class AnsibleThread:
             # If a thread has been set to step out we want to make comparisons
             # later on easier by setting the stopped task to the parent include
             # task.
-            task = self._stopped_task
-            while task := task._parent:
-                if isinstance(task, Task) and task.action in C._ACTION_ALL_INCLUDES:
-                    break
-
-            self._stopped_task = task
+            self._stopped_task = next(iter(_get_parent_includes(self._stopped_task)), None)
 
         elif (
             state == ThreadState.STEP_IN
@@ -244,11 +249,11 @@ class AnsibleThread:
         if self.state != ThreadState.STEP_OVER or not self._stopped_task:
             return False
 
-        # Get the parent task of the current task being evaluated as well as
-        # the task which was resumed with step over. If they are the same then
-        # the task should stop.
-        task_parent = self._get_parent_task(task)
-        stopped_parent = self._get_parent_task(self._stopped_task)
+        # Get the include of the current task being evaluated as well as the
+        # task which was resumed with step over. If they are the same then the
+        # task should stop.
+        task_parent = next(iter(_get_parent_includes(task)), None)
+        stopped_parent = next(iter(_get_parent_includes(self._stopped_task)), None)
 
         return getattr(task_parent, "_uuid", None) == getattr(stopped_parent, "_uuid", None)
 
@@ -263,21 +268,10 @@ class AnsibleThread:
         if self.state != ThreadState.STEP_OUT or not self._stopped_task:
             return False
 
-        # If step out, we only want to break if the current task's parent does
-        # not match the stopped task stored at state change (the include). If
-        # the parent matches it means we are still in the same include scope.
-        task_parent = self._get_parent_task(task)
-        return getattr(task_parent, "_uuid", None) != self._stopped_task._uuid
-
-    def _get_parent_task(
-        self,
-        task: Task,
-    ) -> Task | None:
-        while task := task._parent:
-            if isinstance(task, Task):
-                return task
-
-        return None
+        # If step out, we only want to break if the current task is not in the
+        # include that was stored as the stopped task at state change. It might
+        # be in there through another include.
+        return all(i._uuid != self._stopped_task._uuid for i in _get_parent_includes(task))
 
 
 class AnsibleStackFrame:
-- 
2.43.0


From 3c827d871e5411fd0543fee6f71728f1844cc498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 31/43] fix: treat every failure of a breakpoint condition as
 not met

---
 .../ansibug/dap/plugins/strategy/debug.py                  | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 90fa8b1..b3a166e 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -24,7 +24,7 @@ import traceback
 import typing as t
 
 from ansible import constants as C
-from ansible.errors import AnsibleError, AnsibleUndefinedVariable
+from ansible.errors import AnsibleUndefinedVariable
 from ansible.executor.play_iterator import PlayIterator
 from ansible.executor.task_queue_manager import TaskQueueManager
 from ansible.executor.task_result import TaskResult
@@ -44,7 +44,6 @@ from ansible.vars.manager import VariableManager
 # minimum supported version.
 POST_DATATAGGING = False
 try:
-    from ansible.errors import AnsibleBrokenConditionalError
     from ansible.template import trust_as_template
     from ansible.utils.display import _DeferredWarningContext
 
@@ -566,7 +565,7 @@ class AnsibleDebugState(DebugState):
 
                 try:
                     return templar.evaluate_conditional(template)
-                except (AnsibleBrokenConditionalError, AnsibleUndefinedVariable):
+                except Exception:
                     return False
 
         else:
@@ -577,7 +576,7 @@ class AnsibleDebugState(DebugState):
 
                 try:
                     return cond.evaluate_conditional(templar, templar.available_variables)
-                except AnsibleError:
+                except Exception:
                     return False
 
         with self._waiting_condition:
-- 
2.43.0


From aa1b2a09c48d766a8c212405580496f1f8898e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 32/43] fix: show exactly the includes a task is in

Frames were matched with the direct parent of a task, which is wrong for tasks
in blocks and imports, and for several includes that start or end at once. The
roles of an include_role were only registered with its first task if it was
not in a block, without the dependencies of the role.
---
 .../ansibug/dap/plugins/strategy/debug.py     | 111 ++++++++++++------
 1 file changed, 73 insertions(+), 38 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index b3a166e..e113e39 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -32,7 +32,9 @@ from ansible.inventory.host import Host
 from ansible.parsing.dataloader import DataLoader
 from ansible.playbook.block import Block
 from ansible.playbook.conditional import Conditional
+from ansible.playbook.handler import Handler
 from ansible.playbook.play_context import PlayContext
+from ansible.playbook.role import Role
 from ansible.playbook.task import Task
 from ansible.plugins.strategy.linear import StrategyModule as LinearStrategy
 from ansible.template import Templar
@@ -102,9 +104,14 @@ class ThreadState(enum.Enum):
 def _get_parent_includes(task: Task) -> list[Task]:
     """Gets the include tasks that a task was included through, innermost first."""
     includes = []
-    while task := task._parent:
-        if isinstance(task, Task) and task.action in C._ACTION_ALL_INCLUDES:
-            includes.append(task)
+    parent = task
+    while parent := parent._parent:
+        if isinstance(parent, Task) and parent.action in C._ACTION_ALL_INCLUDES:
+            # A handler of an included role is run when the include is done.
+            if isinstance(task, Handler) and not isinstance(parent, Handler):
+                break
+
+            includes.append(parent)
 
     return includes
 
@@ -483,6 +490,10 @@ class AnsibleDebugState(DebugState):
         self._variable_mamanger = variable_manager
         self._waiting_condition = threading.Condition()
 
+        # Roles do not have an id, they are stored so their object id is not
+        # reused by another one.
+        self._registered_roles: dict[int, Role] = {}
+
     def start_task(
         self,
         host: Host,
@@ -512,39 +523,21 @@ class AnsibleDebugState(DebugState):
         if ThreadState.END in (thread.state, self.threads[1].state):
             raise EndStrategy()
 
-        if thread.stack_frames:
-            # The parent is the implicit block and we want the parent of that.
-            parent_task = task._parent._parent
-            last_frame_id = thread.stack_frames[0]
-            last_frame = self.stackframes[last_frame_id]
-            if not parent_task or (last_frame.task and last_frame.task._uuid != parent_task._uuid):
-                thread.stack_frames.pop(0)
-                self.stackframes.pop(last_frame_id)
-                for variable_id in last_frame.variables:
-                    del self.variables[variable_id]
-
-            # If this is the first task in a role included by include_role we
-            # need to scan the tasks and handlers to validate the breakpoints
-            if (
-                parent_task
-                and last_frame.task
-                and last_frame.task.action in C._ACTION_INCLUDE_ROLE
-                and hasattr(task, "_role")
-            ):
-                task_handlers = task._role.get_task_blocks()
-                role_handlers = task._role.get_handler_blocks(task.play)
-                register_block_breakpoints(self._debugger, task_handlers)
-                register_block_breakpoints(self._debugger, role_handlers)
+        # Remove the frames of the includes that have ended and add the ones of
+        # the includes that are not on the stack, like after the thread was
+        # started in an include.
+        includes = _get_parent_includes(task)
+        include_ids = [i._uuid for i in includes]
+        while thread.stack_frames and self.stackframes[thread.stack_frames[0]].task._uuid not in include_ids:
+            self._remove_stackframe(thread)
 
-        sfid = self._debugger.next_stackframe_id()
+        frame_ids = [self.stackframes[sfid].task._uuid for sfid in thread.stack_frames]
+        for include in reversed(includes):
+            if include._uuid not in frame_ids:
+                self._add_stackframe(thread, include, task_vars)
 
-        sf = self.stackframes[sfid] = AnsibleStackFrame(
-            id=sfid,
-            task=task,
-            task_vars=task_vars,
-            debugger=self._debugger,
-        )
-        thread.stack_frames.insert(0, sfid)
+        sf = self._add_stackframe(thread, task, task_vars)
+        self._register_role_breakpoints(task)
 
         # Some implicit meta tasks are added without a loader so won't have
         # a path. We can't set breakpoints on these tasks so skip the check.
@@ -632,10 +625,7 @@ class AnsibleDebugState(DebugState):
                 raise EndStrategy()
 
         if task.action not in C._ACTION_ALL_INCLUDES:
-            sfid = thread.stack_frames.pop(0)
-            sf = self.stackframes.pop(sfid)
-            for variable_id in sf.variables:
-                del self.variables[variable_id]
+            self._remove_stackframe(thread)
 
     def exit_threads(self) -> None:
         """Exits all active threads.
@@ -955,6 +945,24 @@ class AnsibleDebugState(DebugState):
     ) -> None:
         self._resume_threads([request.thread_id], ThreadState.STEP_OVER)
 
+    def _add_stackframe(
+        self,
+        thread: AnsibleThread,
+        task: Task,
+        task_vars: dict[str, t.Any],
+    ) -> AnsibleStackFrame:
+        sfid = self._debugger.next_stackframe_id()
+
+        sf = self.stackframes[sfid] = AnsibleStackFrame(
+            id=sfid,
+            task=task,
+            task_vars=task_vars,
+            debugger=self._debugger,
+        )
+        thread.stack_frames.insert(0, sfid)
+
+        return sf
+
     def _add_thread(
         self,
         host: Host,
@@ -999,6 +1007,33 @@ class AnsibleDebugState(DebugState):
 
         return var
 
+    def _register_role_breakpoints(
+        self,
+        task: Task,
+    ) -> None:
+        """Registers the tasks and handlers of the task's role.
+
+        A role that is included by a task is only loaded once the include is
+        run. There is no hook for when that happens so this is done with the
+        first task that is run in the role.
+        """
+        role = task._role
+        if not role or id(role) in self._registered_roles:
+            return
+
+        self._registered_roles[id(role)] = role
+        register_block_breakpoints(self._debugger, role.get_task_blocks())
+        register_block_breakpoints(self._debugger, role.get_handler_blocks(task.play))
+
+    def _remove_stackframe(
+        self,
+        thread: AnsibleThread,
+    ) -> None:
+        sfid = thread.stack_frames.pop(0)
+        sf = self.stackframes.pop(sfid)
+        for variable_id in sf.variables:
+            del self.variables[variable_id]
+
     def _resume_threads(
         self,
         thread_ids: collections.abc.Iterable[int],
-- 
2.43.0


From 404dc1ab3022429a957f98e0a26135121d92c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 33/43] fix: step from the task of an exception stop

The step was relative to the last task that was stopped at before it, or was
lost if there was none.
---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index e113e39..70d3063 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -618,6 +618,9 @@ class AnsibleDebugState(DebugState):
                 result_variable = self._add_variable(sf, result._result)
                 sf.variables_result_id = result_variable.id
 
+                # The step_* actions are relative to this task.
+                thread._stopped_task = task
+
                 self._debugger.queue_msg(stopped_event)
                 self._waiting_condition.wait_for(lambda: self.threads[thread.id].state != ThreadState.WAIT)
 
-- 
2.43.0


From 245ee0d5d83445bff6756a6fdcecd6cbc27835fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 34/43] fix: stop on errors in rescue and always sections

A failure was seen as rescued if any of the parent blocks had a rescue section,
even if the task was in that rescue section or the always section. A handler
fails where the handlers are flushed and not where it is defined.
---
 .../ansibug/dap/plugins/strategy/debug.py     | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 70d3063..520b428 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -116,6 +116,20 @@ def _get_parent_includes(task: Task) -> list[Task]:
     return includes
 
 
+def _is_rescued(task: Task) -> bool:
+    """Checks if a failure of the task is going to be rescued."""
+    child = task
+    while parent := child._parent:
+        # A failure in the rescue or always section of a block is not rescued
+        # by that block.
+        if isinstance(parent, Block) and parent.rescue and any(t._uuid == child._uuid for t in parent.block):
+            return True
+
+        child = parent
+
+    return False
+
+
 class AnsibleThread:
     def __init__(
         self,
@@ -128,6 +142,7 @@ class AnsibleThread:
         self.stack_frames: list[int] = []
         self.state: ThreadState = ThreadState.CONTINUE
         self._stopped_task: Task | None = None
+        self._flush_task: Task | None = None
 
     def to_dap(self) -> ansibug.dap.Thread:
         return ansibug.dap.Thread(
@@ -215,15 +230,12 @@ class AnsibleThread:
         details: tuple[str, str] | None = None
 
         if result.is_failed() and not result._task_fields.get("ignore_errors", None):
-            is_rescued = False
-
+            # A handler is run where the handlers were flushed.
             task = result._task
-            while task := task._parent:
-                if isinstance(task, Block) and task.rescue:
-                    is_rescued = True
-                    break
+            if isinstance(task, Handler):
+                task = self._flush_task
 
-            if should_stop_on_error and not is_rescued:
+            if should_stop_on_error and not (task and _is_rescued(task)):
                 details = get_on_failed_details(result._result)
 
         elif result.is_unreachable() and not result._task_fields.get("ignore_unreachable", None):
@@ -536,6 +548,9 @@ class AnsibleDebugState(DebugState):
             if include._uuid not in frame_ids:
                 self._add_stackframe(thread, include, task_vars)
 
+        if task.action in C._ACTION_META and task.args.get("_raw_params", None) == "flush_handlers":
+            thread._flush_task = task
+
         sf = self._add_stackframe(thread, task, task_vars)
         self._register_role_breakpoints(task)
 
-- 
2.43.0


From 4da60d0d32cfee928603cfb514e988e3deed0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 35/43] fix: stop on skipped meta tasks

---
 .../ansibug/dap/plugins/strategy/debug.py                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 520b428..bda60c6 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -1151,8 +1151,10 @@ class StrategyModule(LinearStrategy):
 
         else:
             # Needed to ensure the stackframe is removed as these meta tasks
-            # have no results for _process_pending_results to handle.
-            self._debug_state.end_task(TaskResult(target_host, task, {}))
+            # have no results for _process_pending_results to handle. The
+            # result is not always for the task that was started.
+            for task_res in res:
+                self._debug_state.end_task(TaskResult(target_host, task, task_res._result))
 
         return res
 
-- 
2.43.0


From b202d9c9f318f1bcfe5877ba2b2fa84ea44868c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 36/43] fix: remove the stack frames of threads that have
 exited

The frames and variables of a thread that exited when the inventory was
refreshed were still valid for requests.
---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index bda60c6..a6c3ec5 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -657,7 +657,9 @@ class AnsibleDebugState(DebugState):
                 continue
 
             with self._waiting_condition:
-                del self.threads[tid]
+                thread = self.threads.pop(tid)
+                while thread.stack_frames:
+                    self._remove_stackframe(thread)
 
             self._debugger.queue_msg(
                 ansibug.dap.ThreadEvent(
-- 
2.43.0


From d4ffd7c293490f4e993b1f22966ae3016ac410a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 37/43] fix: end the process when the playbook ends with an
 error

The debugger was only shut down by the stats callback which is not called when
Ansible fails or is interrupted. The process never ended as the debugger threads
waited for the client, or a client to connect.
---
 src/ansibug/_debuggee.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 48f7b61..a32af16 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -3,6 +3,7 @@
 
 from __future__ import annotations
 
+import atexit
 import collections.abc
 import contextlib
 import dataclasses
@@ -466,8 +467,12 @@ class AnsibleDebugger(metaclass=Singleton):
             target=self._send_task,
             args=(mp_queue,),
             name="ansibug-debugger",
+            # The process might end without calling shutdown, like on an error
+            # or ctrl+c, it must not wait for the client in that case.
+            daemon=True,
         )
         self._send_thread.start()
+        atexit.register(self._shutdown_at_exit, os.getpid())
 
         return addr
 
@@ -527,6 +532,14 @@ class AnsibleDebugger(metaclass=Singleton):
 
         log.debug("DebugServer is shutdown")
 
+    def _shutdown_at_exit(
+        self,
+        pid: int,
+    ) -> None:
+        # Nothing is done in the forks of this process.
+        if pid == os.getpid():
+            self.shutdown()
+
     def queue_msg(
         self,
         msg: dap.ProtocolMessage | None,
-- 
2.43.0


From b13c9f50d8bbbb10e5fc390a498b2800217c8be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:54 +0000
Subject: [PATCH 38/43] fix: edit the options and variables of a task whose
 scopes were not requested

---
 .../ansibug/dap/plugins/strategy/debug.py              | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index a6c3ec5..16e18d8 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -819,12 +819,14 @@ class AnsibleDebugState(DebugState):
                 value, value_type = self._safe_evaluate_expression(repl_command.expression, sf.task_vars)
 
             elif isinstance(repl_command, RemoveVarCommand):
+                self._ensure_scopes(sf)
                 ansible_var = self.variables[sf.variables_options_id]
                 ansible_var.remove(repl_command.name)
 
             elif isinstance(repl_command, SetVarCommand):
                 new_value = self._template(repl_command.expression, sf.task_vars)
 
+                self._ensure_scopes(sf)
                 var_ids = []
                 if repl_command.command == "set_option":
                     var_ids += [sf.variables_options_id]
@@ -1027,6 +1029,14 @@ class AnsibleDebugState(DebugState):
 
         return var
 
+    def _ensure_scopes(
+        self,
+        stackframe: AnsibleStackFrame,
+    ) -> None:
+        """Adds the scope variables of the frame if the client has not requested them."""
+        if not stackframe.variables_options_id:
+            self.get_scopes(ansibug.dap.ScopesRequest(frame_id=stackframe.id))
+
     def _register_role_breakpoints(
         self,
         task: Task,
-- 
2.43.0


From c4f233ccda240db2c3a37a2d2a62062ece7705de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:54 +0000
Subject: [PATCH 39/43] fix: edit the entry that is shown with the name

---
 .../ansibug/dap/plugins/strategy/debug.py     | 35 +++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 16e18d8..ab13d67 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -390,7 +390,18 @@ class AnsibleListVariable(AnsibleVariable):
         index: str,
         value: t.Any,
     ) -> None:
-        self._ds[int(index)] = value  # type: ignore[index]
+        self._ds[self._get_key(index)] = value  # type: ignore[index]
+
+    def _get_key(
+        self,
+        index: str,
+    ) -> int:
+        """Gets the index of the entry that is shown with the name."""
+        key = int(index)
+        if str(key) != index or not 0 <= key < len(self._ds):
+            raise IndexError(f"There is no entry '{index}'")
+
+        return key
 
 
 class AnsibleDictVariable(AnsibleVariable):
@@ -416,15 +427,26 @@ class AnsibleDictVariable(AnsibleVariable):
         self,
         index: str,
     ) -> None:
-        if index in self._ds:
-            del self._ds[index]  # type: ignore[attr-defined]
+        key = self._get_key(index)
+        if key in self._ds:
+            del self._ds[key]  # type: ignore[attr-defined]
 
     def set(
         self,
         index: str,
         value: t.Any,
     ) -> None:
-        self._ds[index] = value  # type: ignore[index]
+        self._ds[self._get_key(index)] = value  # type: ignore[index]
+
+    def _get_key(
+        self,
+        index: str,
+    ) -> t.Any:
+        """Gets the key of the entry that is shown with the name, keys are not always a string."""
+        if index in self._ds:
+            return index
+
+        return next((k for k in self._ds if str(k) == index), index)
 
 
 class AnsibleDictWithRawStoreVariable(AnsibleDictVariable):
@@ -441,12 +463,13 @@ class AnsibleDictWithRawStoreVariable(AnsibleDictVariable):
         self._raw_ds = raw
 
     def remove(self, index: str) -> None:
+        key = self._get_key(index)
         super().remove(index)
-        self._raw_ds.pop(index, None)
+        self._raw_ds.pop(key, None)
 
     def set(self, index: str, value: t.Any) -> None:
         super().set(index, value)
-        self._raw_ds[index] = value
+        self._raw_ds[self._get_key(index)] = value
 
 
 class AnsibleHostVarsVariable(AnsibleDictVariable):
-- 
2.43.0


From 818aec27943e214d77d7df91fea2e4fb257f2858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:06 +0000
Subject: [PATCH 40/43] fix: edit nested variables without changing the ones
 they are shared with

A nested container was edited in place. It can be the one stored for other
hosts, tasks or variables and it was not the one used by the task for the
options and host variables.
---
 .../ansibug/dap/plugins/strategy/debug.py     | 158 +++++++++++++-----
 1 file changed, 116 insertions(+), 42 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index ab13d67..3c52a08 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -14,6 +14,7 @@ author: Jordan Borean (@jborean93)
 """
 
 import collections.abc
+import copy
 import dataclasses
 import enum
 import inspect
@@ -81,6 +82,25 @@ display = Display()
 log = logging.getLogger("ansibug.strategy")
 
 
+def _set_nested(
+    container: t.Any,
+    path: list[t.Any],
+    value: t.Any,
+) -> None:
+    """Sets the value in the container.
+
+    The nested containers are copied as they can be shared with other tasks,
+    hosts or variables.
+    """
+    key, *nested_path = path
+    if nested_path:
+        nested = copy.copy(container[key])
+        _set_nested(nested, nested_path, value)
+        value = nested
+
+    container[key] = value
+
+
 class ThreadState(enum.Enum):
     CONTINUE = enum.auto()
     """Thread will continue to run until a breakpoint is hit."""
@@ -333,13 +353,51 @@ class AnsibleStackFrame:
 class AnsibleVariable:
     """Structure needed for an AnsibleVariable implementation."""
 
+    _container_type: type
+
     def __init__(
         self,
         id: int,
         stackframe: AnsibleStackFrame,
+        value: t.Any,
+        parent: AnsibleVariable | None = None,
+        parent_key: t.Any = None,
     ) -> None:
         self.id = id
         self.stackframe = stackframe
+        self._value = value
+        self._parent = parent
+        self._parent_key = parent_key
+
+    @property
+    def _ds(self) -> t.Any:
+        """The datastore, a nested one is looked up as it is replaced by an edit."""
+        if not self._parent:
+            return self._value
+
+        value = self._parent._ds[self._parent_key]
+        if not isinstance(value, self._container_type) or isinstance(value, str):
+            raise ValueError(f"The variable '{self._parent_key}' has been replaced")
+
+        return value
+
+    def _get_key(
+        self,
+        index: str,
+    ) -> t.Any:
+        raise NotImplementedError()  # pragma: nocover
+
+    def _set_path(
+        self,
+        path: list[t.Any],
+        value: t.Any,
+    ) -> None:
+        """Sets the entry, that can be a nested one, in the datastore."""
+        if self._parent:
+            self._parent._set_path([self._parent_key, *path], value)
+
+        else:
+            _set_nested(self._ds, path, value)
 
     @property
     def named_variables(self) -> int:
@@ -349,7 +407,7 @@ class AnsibleVariable:
     def indexed_variables(self) -> int:
         return 0
 
-    def get(self) -> collections.abc.Iterable[tuple[str, t.Any]]:
+    def get(self) -> collections.abc.Iterable[tuple[t.Any, t.Any]]:
         raise NotImplementedError()  # pragma: nocover
 
     def remove(
@@ -369,28 +427,21 @@ class AnsibleVariable:
 class AnsibleListVariable(AnsibleVariable):
     """AnsibleVariable with a list datastore."""
 
-    def __init__(
-        self,
-        id: int,
-        stackframe: AnsibleStackFrame,
-        value: collections.abc.Sequence[t.Any],
-    ) -> None:
-        super().__init__(id, stackframe)
-        self._ds = value
+    _container_type = collections.abc.Sequence
 
     @property
     def indexed_variables(self) -> int:
         return len(self._ds)
 
-    def get(self) -> collections.abc.Iterable[tuple[str, t.Any]]:
-        return iter((str(k), v) for k, v in enumerate(self._ds))
+    def get(self) -> collections.abc.Iterable[tuple[t.Any, t.Any]]:
+        return enumerate(self._ds)
 
     def set(
         self,
         index: str,
         value: t.Any,
     ) -> None:
-        self._ds[self._get_key(index)] = value  # type: ignore[index]
+        self._set_path([self._get_key(index)], value)
 
     def _get_key(
         self,
@@ -407,21 +458,14 @@ class AnsibleListVariable(AnsibleVariable):
 class AnsibleDictVariable(AnsibleVariable):
     """AnsibleVariable with a dict datastore."""
 
-    def __init__(
-        self,
-        id: int,
-        stackframe: AnsibleStackFrame,
-        value: collections.abc.Mapping[t.Any, t.Any],
-    ) -> None:
-        super().__init__(id, stackframe)
-        self._ds = value
+    _container_type = collections.abc.Mapping
 
     @property
     def named_variables(self) -> int:
         return len(self._ds)
 
-    def get(self) -> collections.abc.Iterable[tuple[str, t.Any]]:
-        return iter((str(k), v) for k, v in self._ds.items())
+    def get(self) -> collections.abc.Iterable[tuple[t.Any, t.Any]]:
+        return self._ds.items()
 
     def remove(
         self,
@@ -429,14 +473,14 @@ class AnsibleDictVariable(AnsibleVariable):
     ) -> None:
         key = self._get_key(index)
         if key in self._ds:
-            del self._ds[key]  # type: ignore[attr-defined]
+            del self._ds[key]
 
     def set(
         self,
         index: str,
         value: t.Any,
     ) -> None:
-        self._ds[self._get_key(index)] = value  # type: ignore[index]
+        self._set_path([self._get_key(index)], value)
 
     def _get_key(
         self,
@@ -467,30 +511,47 @@ class AnsibleDictWithRawStoreVariable(AnsibleDictVariable):
         super().remove(index)
         self._raw_ds.pop(key, None)
 
-    def set(self, index: str, value: t.Any) -> None:
-        super().set(index, value)
-        self._raw_ds[self._get_key(index)] = value
+    def _set_path(self, path: list[t.Any], value: t.Any) -> None:
+        super()._set_path(path, value)
+        self._set_raw(self._raw_ds, self._ds, path)
+
+    def _set_raw(self, raw: t.Any, templated: t.Any, path: list[t.Any]) -> None:
+        """Copies the entry to the raw datastore, the others in there are still templates."""
+        key, *nested_path = path
+        value = templated[key]
+        if nested_path:
+            try:
+                nested = copy.copy(raw[key])
+                self._set_raw(nested, value, nested_path)
+                value = nested
+            except (IndexError, KeyError, TypeError):
+                # The raw value is a template of the container.
+                pass
 
+        raw[key] = value
 
-class AnsibleHostVarsVariable(AnsibleDictVariable):
-    """AnsibleDictVariable with integration into a host variable manager."""
+
+class AnsibleHostVarsVariable(AnsibleDictWithRawStoreVariable):
+    """AnsibleDictWithRawStoreVariable with integration into a host variable manager."""
 
     def __init__(
         self,
         id: int,
         stackframe: AnsibleStackFrame,
         value: collections.abc.Mapping[t.Any, t.Any],
+        raw: dict[t.Any, t.Any],
         host: str,
         variable_manager: VariableManager,
     ) -> None:
-        super().__init__(id, stackframe, value)
+        super().__init__(id, stackframe, value, raw)
         self._host = host
         self._variable_manager = variable_manager
 
-    def set(self, index: str, value: t.Any) -> None:
-        super().set(index, value)
+    def _set_path(self, path: list[t.Any], value: t.Any) -> None:
+        super()._set_path(path, value)
         # Persisting hostvars need to be done as a host_variable.
-        self._variable_manager.set_host_variable(self._host, index, value)
+        key = path[0]
+        self._variable_manager.set_host_variable(self._host, key, self._raw_ds[key])
 
 
 class AnsibleDebugState(DebugState):
@@ -741,21 +802,27 @@ class AnsibleDebugState(DebugState):
         # vars. The hostvars are a more persistent set of vars that last beyond
         # this task so is important to give the user a way to set these
         # persistently in the debugger.
+        host_vars_raw = sf.task_vars["hostvars"].raw_get(sf.task_vars["inventory_hostname"])
         host_vars_amalgamated = {k: v for k, v in sf.task_vars["hostvars"][sf.task_vars["inventory_hostname"]].items()}
         for k, v in task_vars.get():
             if k not in host_vars_amalgamated:
-                host_vars_amalgamated[k] = v
+                host_vars_amalgamated[k] = host_vars_raw[k] = v
 
         host_vars = self._add_variable(
             sf,
             host_vars_amalgamated,
             var_factory=lambda i: AnsibleHostVarsVariable(
-                i, sf, host_vars_amalgamated, sf.task_vars["inventory_hostname"], self._variable_mamanger
+                i,
+                sf,
+                host_vars_amalgamated,
+                host_vars_raw,
+                sf.task_vars["inventory_hostname"],
+                self._variable_mamanger,
             ),
         )
         sf.variables_hostvars_id = host_vars.id
 
-        global_vars = self._add_variable(sf, sf.task_vars["vars"])
+        global_vars = self._add_variable(sf, sf.task_vars["vars"], parent=task_vars, parent_key="vars")
 
         scopes: list[ansibug.dap.Scope] = [
             # Options for the module itself
@@ -914,10 +981,10 @@ class AnsibleDebugState(DebugState):
         variable = self.variables[request.variables_reference]
 
         variables: list[ansibug.dap.Variable] = []
-        for name, value in variable.get():
+        for key, value in variable.get():
             child_var: AnsibleVariable | None = None
             if isinstance(value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(value, str):
-                child_var = self._add_variable(variable.stackframe, value)
+                child_var = self._add_variable(variable.stackframe, value, parent=variable, parent_key=key)
             elif dataclasses.is_dataclass(value) and not isinstance(value, type):
                 child_var = self._add_variable(variable.stackframe, dataclasses.asdict(value))
 
@@ -934,7 +1001,7 @@ class AnsibleDebugState(DebugState):
 
             variables.append(
                 ansibug.dap.Variable(
-                    name=name,
+                    name=str(key),
                     value=value_repr,
                     type=get_canonicalized_variable_type(value),
                     named_variables=child_var.named_variables if child_var else 0,
@@ -961,7 +1028,12 @@ class AnsibleDebugState(DebugState):
         if isinstance(new_value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(
             new_value, str
         ):
-            new_container = self._add_variable(variable.stackframe, new_value)
+            new_container = self._add_variable(
+                variable.stackframe,
+                new_value,
+                parent=variable,
+                parent_key=variable._get_key(request.name),
+            )
 
         return ansibug.dap.SetVariableResponse(
             request_seq=request.seq,
@@ -1035,6 +1107,8 @@ class AnsibleDebugState(DebugState):
         stackframe: AnsibleStackFrame,
         value: collections.abc.Mapping[t.Any, t.Any] | collections.abc.Sequence[t.Any],
         var_factory: t.Callable[[int], AnsibleVariable] | None = None,
+        parent: AnsibleVariable | None = None,
+        parent_key: t.Any = None,
     ) -> AnsibleVariable:
         var_id = self._debugger.next_variable_id()
 
@@ -1042,10 +1116,10 @@ class AnsibleDebugState(DebugState):
             var = var_factory(var_id)
 
         elif isinstance(value, collections.abc.Mapping):
-            var = AnsibleDictVariable(var_id, stackframe, value)
+            var = AnsibleDictVariable(var_id, stackframe, value, parent, parent_key)
 
         else:
-            var = AnsibleListVariable(var_id, stackframe, value)
+            var = AnsibleListVariable(var_id, stackframe, value, parent, parent_key)
 
         self.variables[var_id] = var
         stackframe.variables.append(var_id)
-- 
2.43.0


From 22ff13d598467b72dbee6b660f759802d09d90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:06 +0000
Subject: [PATCH 41/43] fix: persist the edits of host variables that were set
 by set_fact or register

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 3c52a08..3fd412c 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -553,6 +553,10 @@ class AnsibleHostVarsVariable(AnsibleDictWithRawStoreVariable):
         key = path[0]
         self._variable_manager.set_host_variable(self._host, key, self._raw_ds[key])
 
+        # The variables set by set_fact and register are used before those.
+        if key in self._variable_manager._nonpersistent_fact_cache.get(self._host, {}):
+            self._variable_manager.set_nonpersistent_facts(self._host, {key: self._raw_ds[key]})
+
 
 class AnsibleDebugState(DebugState):
     """Ansible Debug State.
-- 
2.43.0


From bc73aa9a489bad019462be49306feffc230195c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:06 +0000
Subject: [PATCH 42/43] fix: show the variables and options when one of them
 cannot be templated

---
 .../ansibug/dap/plugins/strategy/debug.py     | 65 ++++++++++++++-----
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 3fd412c..04952e2 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -40,7 +40,7 @@ from ansible.playbook.task import Task
 from ansible.plugins.strategy.linear import StrategyModule as LinearStrategy
 from ansible.template import Templar
 from ansible.utils.display import Display
-from ansible.vars.hostvars import HostVars
+from ansible.vars.hostvars import HostVars, HostVarsVars
 from ansible.vars.manager import VariableManager
 
 # Data Tagging was introduced in 2.19, this can be removed once 2.19 is the
@@ -136,6 +136,44 @@ def _get_parent_includes(task: Task) -> list[Task]:
     return includes
 
 
+def _get_items(
+    value: collections.abc.Mapping[t.Any, t.Any],
+) -> collections.abc.Iterable[tuple[t.Any, t.Any]]:
+    """Gets the items of a dict with the raw value of a host variable that cannot be templated."""
+    if not isinstance(value, HostVarsVars):
+        return value.items()
+
+    items = {}
+    for k in value:
+        try:
+            items[k] = value[k]
+        except Exception:
+            items[k] = value._vars[k]
+
+    return items.items()
+
+
+def _get_repr(
+    value: t.Any,
+) -> str:
+    """Gets the repr of a value that might contain host variables that cannot be templated."""
+    if isinstance(value, HostVars):
+        # Data Tagging (2.19) removed the repr for HostVars so we just
+        # manually create the repr.
+        return repr({host: dict(_get_items(value[host])) for host in value})
+
+    if isinstance(value, HostVarsVars):
+        return repr(dict(_get_items(value)))
+
+    try:
+        return repr(value)
+    except Exception as e:
+        if isinstance(value, collections.abc.Mapping):
+            return "{" + ", ".join(f"{k!r}: {_get_repr(v)}" for k, v in value.items()) + "}"
+
+        return f"{type(e).__name__}: {e!s}"
+
+
 def _is_rescued(task: Task) -> bool:
     """Checks if a failure of the task is going to be rescued."""
     child = task
@@ -465,7 +503,7 @@ class AnsibleDictVariable(AnsibleVariable):
         return len(self._ds)
 
     def get(self) -> collections.abc.Iterable[tuple[t.Any, t.Any]]:
-        return self._ds.items()
+        return _get_items(self._ds)
 
     def remove(
         self,
@@ -788,7 +826,13 @@ class AnsibleDebugState(DebugState):
 
         # This is a very basic templating of the args and doesn't handle loops.
         templar = Templar(loader=self._loader, variables=sf.task_vars)
-        task_args = templar.template(sf.task.args, fail_on_undefined=False)
+        task_args = {}
+        for k, v in sf.task.args.items():
+            try:
+                task_args[k] = templar.template(v, fail_on_undefined=False)
+            except Exception:
+                task_args[k] = v
+
         module_opts = self._add_variable(
             sf,
             task_args,
@@ -807,7 +851,7 @@ class AnsibleDebugState(DebugState):
         # this task so is important to give the user a way to set these
         # persistently in the debugger.
         host_vars_raw = sf.task_vars["hostvars"].raw_get(sf.task_vars["inventory_hostname"])
-        host_vars_amalgamated = {k: v for k, v in sf.task_vars["hostvars"][sf.task_vars["inventory_hostname"]].items()}
+        host_vars_amalgamated = dict(_get_items(sf.task_vars["hostvars"][sf.task_vars["inventory_hostname"]]))
         for k, v in task_vars.get():
             if k not in host_vars_amalgamated:
                 host_vars_amalgamated[k] = host_vars_raw[k] = v
@@ -992,21 +1036,10 @@ class AnsibleDebugState(DebugState):
             elif dataclasses.is_dataclass(value) and not isinstance(value, type):
                 child_var = self._add_variable(variable.stackframe, dataclasses.asdict(value))
 
-            value_repr: str
-            if isinstance(value, HostVars):
-                # Data Tagging (2.19) removed the repr for HostVars so we just
-                # manually create the repr.
-                hostvars = {}
-                for inventory_host in value:
-                    hostvars[inventory_host] = value.get(inventory_host)
-                value_repr = repr(hostvars)
-            else:
-                value_repr = repr(value)
-
             variables.append(
                 ansibug.dap.Variable(
                     name=str(key),
-                    value=value_repr,
+                    value=_get_repr(value),
                     type=get_canonicalized_variable_type(value),
                     named_variables=child_var.named_variables if child_var else 0,
                     indexed_variables=child_var.indexed_variables if child_var else 0,
-- 
2.43.0


From 5c08e886602c9f4baec692344084ce25f23a6029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:19 +0000
Subject: [PATCH 43/43] fix: show vaulted and bytes values as a value rather
 than a list of characters

---
 .../dap/plugins/plugin_utils/_variables.py    | 22 +++++++++++++++++--
 .../ansibug/dap/plugins/strategy/debug.py     | 10 ++++-----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_variables.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_variables.py
index 39b2648..b54049a 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_variables.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_variables.py
@@ -6,6 +6,24 @@ from __future__ import annotations
 import collections.abc
 import datetime
 
+from ansible.parsing.yaml.objects import AnsibleVaultEncryptedUnicode
+
+
+def is_container(
+    variable: object,
+) -> bool:
+    """Checks if the variable is a dict or list like object.
+
+    Args:
+        variable: The variable to check.
+
+    Returns:
+        bool: The variable contains other variables.
+    """
+    return isinstance(variable, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(
+        variable, (str, bytes, bytearray, AnsibleVaultEncryptedUnicode)
+    )
+
 
 def get_canonicalized_variable_type(
     variable: object,
@@ -22,7 +40,7 @@ def get_canonicalized_variable_type(
     Returns:
         str: The type of the variable
     """
-    if isinstance(variable, str):
+    if isinstance(variable, (str, AnsibleVaultEncryptedUnicode)):
         return "str"
     elif isinstance(variable, bool):
         return "bool"
@@ -34,7 +52,7 @@ def get_canonicalized_variable_type(
         return "tuple"
     elif isinstance(variable, collections.abc.Mapping):
         return "dict"
-    elif isinstance(variable, collections.abc.Sequence):
+    elif isinstance(variable, collections.abc.Sequence) and is_container(variable):
         return "list"
     else:
         return type(variable).__name__
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 04952e2..c85b5d1 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -76,7 +76,7 @@ from ..plugin_utils._repl_util import (
     TemplateCommand,
     parse_repl_args,
 )
-from ..plugin_utils._variables import get_canonicalized_variable_type
+from ..plugin_utils._variables import get_canonicalized_variable_type, is_container
 
 display = Display()
 log = logging.getLogger("ansibug.strategy")
@@ -414,7 +414,7 @@ class AnsibleVariable:
             return self._value
 
         value = self._parent._ds[self._parent_key]
-        if not isinstance(value, self._container_type) or isinstance(value, str):
+        if not isinstance(value, self._container_type) or not is_container(value):
             raise ValueError(f"The variable '{self._parent_key}' has been replaced")
 
         return value
@@ -1031,7 +1031,7 @@ class AnsibleDebugState(DebugState):
         variables: list[ansibug.dap.Variable] = []
         for key, value in variable.get():
             child_var: AnsibleVariable | None = None
-            if isinstance(value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(value, str):
+            if is_container(value):
                 child_var = self._add_variable(variable.stackframe, value, parent=variable, parent_key=key)
             elif dataclasses.is_dataclass(value) and not isinstance(value, type):
                 child_var = self._add_variable(variable.stackframe, dataclasses.asdict(value))
@@ -1062,9 +1062,7 @@ class AnsibleDebugState(DebugState):
         variable.set(request.name, new_value)
 
         new_container = None
-        if isinstance(new_value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(
-            new_value, str
-        ):
+        if is_container(new_value):
             new_container = self._add_variable(
                 variable.stackframe,
                 new_value,
-- 
2.43.0

