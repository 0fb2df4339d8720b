"""Writes properties.jsonl (kept as code so that the wording is reviewable)."""
import json, pathlib

P = []
S = "src/ansibug/"
C = S + "ansible_collections/ansibug/dap/plugins/"

def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
    )
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "DAP framing is lossless under any chunking of the stream",
     "However a stream of valid DAP messages is cut into chunks, the adapter connection yields exactly those messages, once each and in order, and yields nothing for a message whose last byte has not arrived. Outgoing messages are numbered 1, 2, 3, ... and the bytes handed out, in whatever sizes they are asked for, concatenate to the frames of exactly those messages with byte-accurate lengths, any Unicode included. A message whose sequence number is not the next one, or a frame without a length, is refused with an error instead of being delivered.",
     ["inputs", "histories"], "all message sequences, all cuts of the byte stream, all interleavings of queueing, receiving and draining",
     "The unit tests feed one or two whole messages; they never cut inside a header, a multi-byte character or between pipelined messages.",
     [S + "dap/_adapter.py"], [("receive buffer and header parser", "DebugAdapterConnection.next_message"), ("sequence numbering and framing", "DebugAdapterConnection.queue_msg")])

prop("C02", "Every DAP message keeps every field under its protocol name",
     "Packing any protocol message the code can build produces a JSON object with exactly the Debug Adapter Protocol's property names holding that message's values, and unpacking a protocol message gives an object whose every field holds the value sent under the matching protocol name, with the documented default where a property was absent or null. Properties the code does not know are ignored, and an unknown message type, command or event, or a non-success response, is recognised as such (refused, or read as an error response) rather than mistaken for another message.",
     ["inputs"], "all message types with all combinations of present, absent, null and unknown properties and all property values",
     "The tests pack or unpack one instance per message type, mostly with few optional properties set, so a swapped or dropped optional property is not seen.",
     [S + "dap/_messages.py", S + "dap/_requests.py", S + "dap/_responses.py", S + "dap/_events.py", S + "dap/_types.py"],
     [("field mapping metaclass", "DAPObjectMeta.default_pack/default_unpack"), ("type registry", "ProtocolMessage.unpack")])

prop("C03", "The adapter-debuggee channel delivers every message once and in order",
     "Over a Unix socket or TCP, with or without TLS, every message sent by one end of an open channel is received by the other end exactly once, unchanged and in the order sent, in both directions at once, whatever the message sizes and however the transport splits the bytes. A peer that goes away, even in the middle of a message, never makes the other end deliver a partial or invented message.",
     ["inputs", "schedules", "fault_sequences"], "all message sequences and sizes, all splits of the byte stream, simultaneous traffic in both directions, loss of the peer at any byte",
     "The unit tests send one small message each way; they never split a length prefix, exceed a socket buffer or cut the stream mid-message.",
     [S + "_mp_queue.py", S + "_socket_helper.py"], [("length-prefixed messages", "MPQueue.send / MPQueue._recv_handler"), ("exact reads", "SocketHelper.recv"), ("complete writes", "SocketHelper.send")])

prop("C04", "Stop, cancel and timeouts always end a blocked channel operation",
     "Stopping a channel or cancelling its token from another thread promptly ends whatever it is blocked in (waiting for a peer, connecting, a TLS handshake, receiving, sending to a peer that does not read), and once cancelled every later operation is refused as cancelled. A wait with a timeout fails with a timeout error no earlier than that timeout and does not disturb a connection that arrives in time. The owner is told that an established channel closed exactly once, with the error if there was one, whichever side closed it, and the channel's Unix socket file is gone after stop.",
     ["schedules", "fault_sequences", "histories"], "all orders of start, peer arrival, peer loss, send, stop and cancel, at every blocking point",
     "The tests cancel a few operations at one point each, after a sleep; combinations (several concurrent operations, peers that connect and go silent, stop before start) are not explored.",
     [S + "_socket_helper.py", S + "_mp_queue.py"], [("cancellation token", "SocketCancellationToken"), ("stop", "MPQueue.stop / ServerMPQueue.stop"), ("launch cancel queue", "ServerMPQueue.start(cancel_queue)")])

prop("C05", "Socket address strings mean what is documented and round-trip",
     "Every address string in a documented form denotes exactly the documented endpoint (host and port for TCP with IPv4, IPv6, names, an empty host or nothing; a full path, a bare file name in the temporary directory, or a fresh unique path for Unix sockets), and any other scheme or a TCP address without a port is refused with an error. The address a listening channel reports can always be given back to reach that same listener, whatever legal characters the path or temporary directory contains.",
     ["inputs", "configurations"], "all hosts, ports, paths and temporary directories",
     "The unit test parses a dozen literal addresses with plain characters; reported addresses are only reused with plain temporary directories.",
     [S + "_socket_helper.py", S + "_mp_queue.py"], [("address grammar", "parse_addr_string"), ("reported address", "MPQueue.address")])

prop("C06", "Sockets and launch scripts are private to the user at all times",
     "Whatever the process umask (short of one that denies the owner itself), a Unix socket the tool listens on and the launch script it writes grant no access to group or others at any moment they exist at their path, the owner can use them, and the process umask is left as it was. A launch script is a new file in the requested directory that never overwrites or follows something already there.",
     ["configurations", "schedules"], "all umasks, directories and observation moments",
     "One unit test checks the final mode of one socket under the default umask; the script's mode and the moments between creation and restriction are not looked at.",
     [S + "_socket_helper.py", S + "_debug_adapter.py"], [("masked bind", "create_uds_with_mask"), ("temporary launch script", "DAServer launch handler")])

prop("C07", "TLS connects exactly the peers its settings allow",
     "With TLS, a session is established exactly when the client's verification setting (verify, ignore, or a CA file or directory) accepts the server's certificate and name, and the server's client-CA setting, if any, accepts the client's certificate; otherwise no message crosses and the client gets an error. A listener that met any number of failed, aborted or plaintext connection attempts still accepts the next acceptable client. A CA path that does not exist, or a key that does not fit, is refused up front.",
     ["configurations", "fault_sequences"], "all combinations of server certificate, name, client verification, client certificate and CA settings; all sequences of failed attempts before a good one",
     "The tests cover about ten fixed combinations and one failed attempt before a success, failing in one way.",
     [S + "_tls.py", S + "_mp_queue.py", S + "_debug_adapter.py"], [("context construction", "create_client_tls_context / create_server_tls_context"), ("handshake retry", "ServerMPQueue.start")])

prop("C08", "The adapter answers every request once and ends with one terminated event",
     "Over any client session, the debug adapter's output is a sequence of whole, consecutively numbered DAP messages in which requests meant for the debuggee are forwarded in order, every message from the debuggee reaches the client exactly once and in order until the client ends the session, no request is answered twice, and every request outstanding when the debuggee is lost or the session is disconnected or fails is answered. Exactly one terminated event is sent per session, after the answer to a disconnect request. This holds whatever the timing of client input, debuggee messages and debuggee loss, including end of client input, which ends the adapter.",
     ["schedules", "histories", "fault_sequences"], "all client request sequences and chunkings, all interleavings with messages from and loss of the debuggee, in attach and launch sessions",
     "The tests drive well-behaved sessions, one message at a time; nothing forces the reader and the debuggee threads to write at the same moment, cuts the input, or loses the debuggee at a chosen point.",
     [S + "_debug_adapter.py"], [("main loop", "DAServer.start"), ("shutdown", "DAServer.stop"), ("output", "DAServer.send_to_client")])

prop("C09", "A launch runs exactly the requested playbook command",
     "For a launch request, running the terminal command the adapter asks for, in the directory and environment it asks for, executes ansibug's connect mode with exactly the requested playbook, arguments, working directory, environment and log settings, byte for byte, whatever characters they contain, and connects to this adapter. The script removes itself, and if the launched process ends before connecting the session ends promptly instead of waiting for the timeout. Attach and launch arguments take their documented defaults when absent, and invalid ones (no playbook, unknown console, neither process nor address, unknown process) are refused with an error.",
     ["inputs", "configurations", "fault_sequences"], "all playbooks, argument lists, environments, directories and temporary directory names, including ones with spaces, quotes, newlines and shell metacharacters; process exits at any point before connecting",
     "The tests launch a few playbooks with plain names and arguments, and none checks the generated script with unusual characters.",
     [S + "_debug_adapter.py"], [("launch script", "DAServer launch handler"), ("argument parsing", "LaunchArguments.from_json / AttachArguments.from_json"), ("early exit detection", "launch queue")])

prop("C10", "connect/listen start ansible-playbook with the user's setup intact",
     "Starting a playbook through the command line replaces the process with ansible-playbook run with exactly the user's arguments in the same directory, with the debugger's callback, strategy and collection path added in front of whatever callbacks, collection paths and Python path the user's configuration already had, and every other environment variable unchanged. Each command line option (address, wait, logging, TLS certificate, key, password, client CA) reaches the debuggee under its documented setting, with relative, ~ and $VAR paths resolved in the user's context and unset options not passed.",
     ["inputs", "configurations"], "all combinations of options, playbook arguments, environment variables and ansible.cfg / environment configuration",
     "Tests cover one existing-config case and a few option combinations, and look at the effect of a single setting each.",
     [S + "_exec_playbook.py", S + "__main__.py"], [("environment construction", "_exec_playbook / _configure_ansible_env"), ("option parsing", "parse_args")])

prop("C11", "Breakpoint answers always reflect what Ansible has loaded",
     "At every moment, the client's view of each breakpoint (the answer to its set-breakpoints request plus the change events since) is what the lines loaded so far say: verified with the start and end line of the task covering the requested line, not verified on lines where no task can stop, pending for files not loaded, refused for modified sources. Setting breakpoints for a source replaces that source's earlier ones and no others, identifiers are never reused, and a change event is sent exactly when a breakpoint's verification or lines change. A task matches a breakpoint exactly when the breakpoint's current range in that file covers the task's line.",
     ["histories", "inputs", "schedules"], "all interleavings of set-breakpoints requests and line registrations over any files and lines, including concurrent ones",
     "The tests register lines once per file, in order, and set one breakpoint; re-registration, out-of-order lines, several breakpoints and concurrent setting and loading are not covered.",
     [S + "_debuggee.py", C + "plugin_utils/_breakpoints.py"], [("breakpoint table and line map", "AnsibleDebugger.register_path_breakpoint / set breakpoints handler / get_breakpoint")])

prop("C12", "Path mappings are applied consistently in both directions",
     "With path mappings configured, a breakpoint set on a client path applies to, and is answered for, the file whose path is that path with the first matching local root replaced by its remote root, and stack frames show paths with the first matching remote root replaced by its local root; paths under no root pass unchanged. A root matches only whole path components, so a sibling directory whose name merely starts the same is not mapped. Mapping to the debuggee and back returns the original path when the mappings are unambiguous.",
     ["inputs", "configurations"], "all mapping lists and paths",
     "The tests use one mapping and paths inside it; sibling prefixes, nested roots and order between several mappings are not tried.",
     [S + "_debuggee.py"], [("to client", "AnsibleDebugger.convert_to_client_path"), ("from client", "set breakpoints handler")])

prop("C13", "A debugged playbook always ends when its client goes away",
     "Whatever the client has done so far and whenever it disconnects, terminates, or its connection is lost (before or during configuration, between plays, while running, stopped or stepping, or never connecting at all when waiting is off), the playbook process does not hang: without terminate it runs to completion exactly as it would undebugged and stops nowhere any more, with terminate it starts no further task and ends. While listening, a process file names the process, its real address, TLS use and playbook, and it and the socket are gone when the process ends.",
     ["fault_sequences", "histories", "schedules"], "all client histories cut by disconnect, terminate or connection loss at any point, over all playbooks",
     "The tests disconnect or terminate at one stop in simple plays; loss before configuration, with exception breakpoints still set, while a task runs or between plays is not covered.",
     [S + "_debuggee.py", C + "callback/debug.py", C + "strategy/debug.py"], [("shutdown", "AnsibleDebugger.shutdown"), ("disconnect", "AnsibleDebugger._disconnect / AnsibleDebugState.disconnect"), ("configuration wait", "AnsibleDebugger.wait_for_config_done")])

prop("C14", "The debuggee answers each request exactly once, errors included",
     "Every request that reaches the debuggee on an open connection is answered exactly once, in order, with the response type of that request carrying its sequence number, or with an error response when it cannot be honoured (unknown thread, frame or variable reference, bad arguments, unsupported request). A failing request changes nothing else: the session goes on, the play is neither resumed nor stopped by it, and later requests are answered as if it had not been sent.",
     ["histories", "inputs"], "all request sequences, valid and invalid, at any stop",
     "The tests check a couple of invalid requests in isolation; sequences mixing failing and valid requests are not explored.",
     [S + "_debuggee.py", C + "strategy/debug.py"], [("dispatch", "AnsibleDebugger.process_message"), ("error conversion", "DAProtocol.on_msg_received")])

prop("C15", "Debugging does not change what the playbook does",
     "For any playbook, inventory and sequence of inspection and resume requests (no edits, no terminate), a run under the debugger executes the same tasks on the same hosts in the same order with the same results, variables and exit status as a run under the plain linear strategy. This includes failures, rescue, handlers, includes, roles, loops, conditions, run_once, meta tasks and several plays.",
     ["programs", "histories"], "all playbooks the linear strategy runs, all breakpoint sets and resume/inspect sequences",
     "The tests compare a handful of fixed playbooks with expected stops; none compares whole runs with and without the debugger.",
     [C + "strategy/debug.py", C + "callback/debug.py"], [("strategy hooks around the linear strategy", "StrategyModule")])

prop("C16", "Breakpoints and steps stop exactly where they should",
     "A host's thread stops before a task exactly when a breakpoint covers the task's line (and its condition, if any, is true in that task's variables), when a step-in entered an include, when a step-over (or a step-in on something that is not an include) reaches the next task in the same file scope, or when a step-out reaches the first task outside the include it left; while stepping out breakpoints are ignored, and otherwise it runs. The stop carries the right thread, reason and breakpoint, other hosts' stepping is unaffected, and a continue for all threads cancels every pending step. Every task that runs from a loaded file can be stopped at by a breakpoint on its line.",
     ["programs", "histories"], "all playbooks (includes nested and looped, imports, roles, blocks, handlers, several hosts and plays) and all command sequences",
     "The tests step through a few fixed plays of depth one or two; combinations of step kinds, nesting, hosts and breakpoints are not covered.",
     [C + "strategy/debug.py", S + "_debuggee.py", C + "plugin_utils/_breakpoints.py"], [("thread state machine", "AnsibleThread.should_break / set_state"), ("task hooks", "AnsibleDebugState.start_task")])

prop("C17", "The stack trace is the current task plus its chain of includes",
     "At every stop, the stopped thread's stack trace is the task about to run (or just finished, for an exception stop) followed by exactly the include_tasks / include_role tasks it was included through, innermost first, each with its name, file and line; nothing stale from includes that have ended, and nothing missing. Threads of other hosts show only what they are in at that moment.",
     ["programs", "histories"], "all playbooks with nested, consecutive, looped, skipped and failed includes, blocks inside includes and several hosts; at every stop",
     "The tests look at stacks of depth at most two in fixed plays and never after two includes end at once or inside a block or import in an include.",
     [C + "strategy/debug.py"], [("frame push and pop", "AnsibleDebugState.start_task / end_task"), ("frame conversion", "AnsibleStackFrame.to_dap")])

prop("C18", "Variables shown and expressions evaluated match what the task sees",
     "At a stop, the scopes show the task's options, task, host and global variables, every container can be expanded and its children, counts, types and textual values are exactly those of the data, and an expression evaluates (watch, clipboard or console) to the value the task itself would get for it, with an undefined or broken expression reported as text and no side effect. After an exception stop the module result is shown the same way.",
     ["programs", "inputs"], "all variable values and nestings (any key and value types), all expressions, all stops",
     "The tests expand a fixed set of simple values and evaluate a few expressions.",
     [C + "strategy/debug.py", C + "plugin_utils/_variables.py"], [("scopes and expansion", "AnsibleDebugState.get_scopes / get_variables"), ("evaluation", "AnsibleDebugState.evaluate")])

prop("C19", "Edits made at a stop take effect exactly as asked",
     "Setting a variable, element or key from a scope or the console changes exactly that entry, to exactly the value of the expression, both in what is shown afterwards and in what the stopped task then uses; task options set or removed apply to that task, task variables to that task only, and host variables also to that host's later tasks and to no other host. Nothing else changes: a stop with edits behaves as the playbook with those values would, and a failed edit leaves everything as it was.",
     ["programs", "histories", "inputs"], "all edit sequences (scope, depth, key type, value) at any stop of any host",
     "The tests set a few top-level values of simple types with string keys and check one following task.",
     [C + "strategy/debug.py", C + "plugin_utils/_repl_util.py"], [("variable stores", "AnsibleListVariable / AnsibleDictVariable / AnsibleDictWithRawStoreVariable / AnsibleHostVarsVariable"), ("console edits", "AnsibleDebugState.evaluate")])

prop("C20", "Exception breakpoints stop on exactly the unhandled results asked for",
     "With a filter set, a thread stops after a task exactly when that task failed without being ignored or rescued (failed filter), was unreachable without being ignored (unreachable filter), or was skipped (skipped filter), with the message of the result; with a filter unset it never stops for that kind. A failure counts as rescued exactly when Ansible will run a rescue section for it, wherever the failing task sits among nested blocks, rescue and always sections and includes.",
     ["programs", "configurations"], "all block structures, failure kinds and filter sets, filters changed at any stop",
     "The tests use a failing task directly in a block with rescue, and no failure inside rescue or always sections or nested blocks.",
     [C + "strategy/debug.py", C + "plugin_utils/_breakpoints.py"], [("exception decision", "AnsibleThread.should_stop_on_exception")])

prop("C21", "Console commands are parsed faithfully and malformed ones explained",
     "A console command (remove option, set option, set host variable, template, or their short forms) is understood with exactly the name given, unquoted when quoted, and the expression exactly as typed after it, whatever quotes, operators, dashes, spaces or repeated words it contains. Anything else (unknown command, missing name, unbalanced quotes, a help request) yields an explanatory message and no action, and never an internal failure.",
     ["inputs"], "all command lines",
     "The tests parse a few commands with simple names and expressions.",
     [C + "plugin_utils/_repl_util.py"], [("parser", "parse_repl_args")])

prop("C22", "Threads are paired, identifiers unique and stale references refused",
     "Every host that runs a task in a play has exactly one live thread, announced by a started event before its first stop and an exited event when the play (or inventory) ends; the thread list is at every stop exactly the main thread and the live hosts, and each thread is named after its host. Thread, frame and variable identifiers are never reused within a session, and a reference to a frame or variable of a task that has finished is refused rather than answered with another task's data.",
     ["programs", "histories"], "all playbooks, hosts, plays, refreshes and request sequences using old identifiers",
     "The tests check thread events in two fixed plays and never use a stale reference.",
     [C + "strategy/debug.py", S + "_debuggee.py"], [("thread lifecycle", "AnsibleDebugState._add_thread / exit_threads"), ("id counters", "AnsibleDebugger.next_*_id")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
