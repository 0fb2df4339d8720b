"""C02: every DAP message keeps every field under its protocol name.

The tables below are written from the Debug Adapter Protocol specification: for
each message, property name -> (attribute, kind, default)."""
from __future__ import annotations

import json

from vf import HarnessError, Recorder, Test, Violation, guard, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

from ansibug import dap
from ansibug.dap import DebugAdapterConnection

try:
    from ansibug.dap import Checksum, ExceptionFilterOptions, ExceptionOptions, ExceptionPathSegment, StackFrameFormat, VariablePresentationHint
except ImportError as e:  # pragma: no cover
    raise HarnessError(str(e))

PROPERTY = "C02"
TECHNIQUE = "property-based testing: generated messages against a table of protocol names written from the DAP specification"
LEVEL_NOTE = "Random search over all message types and property subsets; trusts the table in the check (written from the DAP specification) and the public constructor argument names."
RULE = (
    "A case is a message type with a random subset of its properties given random values, others absent or null, plus unknown properties. "
    "Non-trivial: at least two optional properties present, or a refused/erroneous message."
)
ASSUMPTIONS = ["A property packed as null is equivalent to an absent one."]
BUDGET_S = {"quick": 35, "thorough": 600}

REQ = object()
# kinds
I, S, B, ANY, STRS, INTS, MAP, NMAP = "int", "str", "bool", "any", "strs", "ints", "map", "nmap"


class E:  # one of
    def __init__(self, *v):
        self.v = v


class O:  # object of type
    def __init__(self, n):
        self.n = n


class L:  # list of objects of type
    def __init__(self, n):
        self.n = n


def opt(attr, kind, default=None):
    return (attr, kind, default)


def req(attr, kind):
    return (attr, kind, REQ)


LIST = "EMPTYLIST"
DICT = "EMPTYDICT"
GRAN = E("statement", "line", "instruction")

TYPES = {
    "Source": (dap.Source, {
        "name": opt("name", S), "path": opt("path", S), "sourceReference": opt("source_reference", I, 0),
        "presentationHint": opt("presentation_hint", E("normal", "emphasize", "deemphasize"), "normal"),
        "origin": opt("origin", S), "sources": opt("sources", L("Source"), LIST), "adapterData": opt("adapter_data", ANY),
        "checksums": opt("checksums", L("Checksum"), LIST)}),
    "Checksum": (Checksum, {"algorithm": req("algorithm", E("MD5", "SHA1", "SHA256", "timestamp")), "checksum": req("checksum", S)}),
    "Breakpoint": (dap.Breakpoint, {
        "id": opt("id", I), "verified": opt("verified", B, False), "message": opt("message", S), "source": opt("source", O("Source")),
        "line": opt("line", I), "column": opt("column", I), "endLine": opt("end_line", I), "endColumn": opt("end_column", I),
        "instructionReference": opt("instruction_reference", S), "offset": opt("offset", I)}),
    "Capabilities": (dap.Capabilities, {
        "supportsConfigurationDoneRequest": opt("supports_configuration_done_request", B, False),
        "supportsFunctionBreakpoints": opt("supports_function_breakpoints", B, False),
        "supportsConditionalBreakpoints": opt("supports_conditional_breakpoints", B, False),
        "supportsHitConditionalBreakpoints": opt("supports_hit_conditional_breakpoints", B, False),
        "supportsEvaluateForHovers": opt("supports_evaluate_for_hovers", B, False),
        "exceptionBreakpointFilters": opt("exception_breakpoints_filters", L("ExceptionBreakpointsFilter"), LIST),
        "supportsStepBack": opt("supports_step_back", B, False),
        "supportsSetVariable": opt("supports_set_variable", B, False),
        "supportsRestartFrame": opt("supports_restart_frame", B, False),
        "supportsGotoTargetsRequest": opt("supports_goto_targets_request", B, False),
        "supportsStepInTargetsRequest": opt("supports_step_in_targets_request", B, False),
        "supportsCompletionsRequest": opt("supports_completions_request", B, False),
        "supportTerminateDebuggee": opt("supports_terminate_debuggee", B, False),
        "supportSuspendDebuggee": opt("supports_suspend_debuggee", B, False),
        "supportsTerminateRequest": opt("supports_terminate_request", B, False),
        "supportsClipboardContext": opt("supports_clipboard_context", B, False)}),
    "ExceptionBreakpointsFilter": (dap.ExceptionBreakpointsFilter, {
        "filter": req("filter", S), "label": req("label", S), "description": opt("description", S), "default": opt("default", B, False),
        "supportsCondition": opt("supports_condition", B, False), "conditionDescription": opt("condition_description", S)}),
    "ExceptionFilterOptions": (ExceptionFilterOptions, {"filterId": req("filter_id", S), "condition": opt("condition", S)}),
    "ExceptionOptions": (ExceptionOptions, {
        "path": req("path", L("ExceptionPathSegment")), "breakMode": req("break_mode", E("never", "always", "unhandled", "userUnhandled"))}),
    "ExceptionPathSegment": (ExceptionPathSegment, {"negate": opt("negate", B, False), "names": opt("names", STRS, LIST)}),
    "Message": (dap.Message, {
        "id": req("id", I), "format": req("format", S), "variables": opt("variables", MAP, DICT), "sendTelemetry": opt("send_telemetry", B, False),
        "showUser": opt("show_user", B, False), "url": opt("url", S), "urlLabel": opt("url_label", S)}),
    "Scope": (dap.Scope, {
        "name": req("name", S), "variablesReference": req("variables_reference", I), "presentationHint": opt("presentation_hint", E("arguments", "locals", "registers")),
        "namedVariables": opt("named_variables", I), "indexedVariables": opt("indexed_variables", I), "expensive": opt("expensive", B, False),
        "source": opt("source", O("Source")), "line": opt("line", I), "column": opt("column", I), "endLine": opt("end_line", I), "endColumn": opt("end_column", I)}),
    "SourceBreakpoint": (dap.SourceBreakpoint if hasattr(dap, "SourceBreakpoint") else None, {
        "line": req("line", I), "column": opt("column", I), "condition": opt("condition", S), "hitCondition": opt("hit_condition", S), "logMessage": opt("log_message", S)}),
    "StackFrame": (dap.StackFrame, {
        "id": req("id", I), "name": req("name", S), "source": opt("source", O("Source")), "line": opt("line", I, 0), "column": opt("column", I, 0),
        "endLine": opt("end_line", I), "endColumn": opt("end_column", I), "canRestart": opt("can_restart", B, False),
        "instructionPointerReference": opt("instruction_pointer_reference", S), "moduleId": opt("module_id", S),
        "presentationHint": opt("presentation_hint", E("normal", "label", "subtle"), "normal")}),
    "StackFrameFormat": (StackFrameFormat, {
        "parameters": opt("parameters", B, False), "parameterTypes": opt("parameter_types", B, False), "parameterNames": opt("parameter_names", B, False),
        "parameterValues": opt("parameter_values", B, False), "line": opt("line", B, False), "module": opt("module", B, False), "includeAll": opt("include_all", B, False)}),
    "Thread": (dap.Thread, {"id": req("id", I), "name": req("name", S)}),
    "ValueFormat": (dap.ValueFormat, {"hex": opt("hex", B, False)}),
    "Variable": (dap.Variable, {
        "name": req("name", S), "value": req("value", S), "type": opt("type", S), "presentationHint": opt("presentation_hint", O("VariablePresentationHint")),
        "evaluateName": opt("evaluate_name", S), "variablesReference": opt("variables_reference", I, 0), "namedVariables": opt("named_variables", I),
        "indexedVariables": opt("indexed_variables", I), "memoryReference": opt("memory_reference", S)}),
    "VariablePresentationHint": (VariablePresentationHint, {
        "kind": opt("kind", S), "attributes": opt("attributes", STRS, LIST), "visibility": opt("visibility", S), "lazy": opt("lazy", B, False)}),
}

REQUESTS = {
    "cancel": (dap.CancelRequest, {"requestId": opt("request_id", I), "progressId": opt("progress_id", I)}),
    "configurationDone": (dap.ConfigurationDoneRequest, None),
    "continue": (dap.ContinueRequest if hasattr(dap, "ContinueRequest") else None, {"threadId": req("thread_id", I), "singleThread": opt("single_thread", B, True)}),
    "disconnect": (dap.DisconnectRequest, {"restart": opt("restart", B, False), "terminateDebuggee": opt("terminate_debuggee", B), "suspendDebuggee": opt("suspend_debuggee", B, False)}),
    "evaluate": (dap.EvaluateRequest, {
        "expression": req("expression", S), "frameId": opt("frame_id", I), "context": opt("context", E("variables", "watch", "repl", "hover", "clipboard", "custom")),
        "format": opt("format", O("ValueFormat"))}),
    "initialize": (dap.InitializeRequest, {
        "clientID": opt("client_id", S), "clientName": opt("client_name", S), "adapterID": req("adapter_id", S), "locale": opt("locale", S),
        "linesStartAt1": opt("lines_start_at_1", B, True), "columnsStartAt1": opt("columns_start_at_1", B, True), "pathFormat": opt("path_format", E("path", "uri"), "path"),
        "supportsVariableType": opt("supports_variable_type", B, False), "supportsVariablePaging": opt("supports_variable_paging", B, False),
        "supportsRunInTerminalRequest": opt("supports_run_in_terminal_request", B, False), "supportsMemoryReferences": opt("supports_memory_references", B, False),
        "supportsProgressReporting": opt("supports_progress_reporting", B, False), "supportsInvalidatedEvent": opt("supports_invalidated_event", B, False),
        "supportsMemoryEvent": opt("supports_memory_event", B, False)}),
    "next": (dap.NextRequest, {"threadId": req("thread_id", I), "singleThread": opt("single_thread", B, False), "granularity": opt("granularity", GRAN, "statement")}),
    "runInTerminal": (dap.RunInTerminalRequest, {
        "kind": opt("kind", E("integrated", "external"), "integrated"), "title": opt("title", S), "cwd": opt("cwd", S, ""), "args": opt("args", STRS, LIST),
        "env": opt("env", NMAP, DICT)}),
    "scopes": (dap.ScopesRequest, {"frameId": req("frame_id", I)}),
    "setBreakpoints": (dap.SetBreakpointsRequest, {
        "source": req("source", O("Source")), "breakpoints": opt("breakpoints", L("SourceBreakpoint"), LIST), "lines": opt("lines", INTS, LIST),
        "sourceModified": opt("source_modified", B, False)}),
    "setExceptionBreakpoints": (dap.SetExceptionBreakpointsRequest, {
        "filters": opt("filters", STRS, LIST), "filterOptions": opt("filter_options", L("ExceptionFilterOptions"), LIST),
        "exceptionOptions": opt("exception_options", L("ExceptionOptions"), LIST)}),
    "setVariable": (dap.SetVariableRequest, {
        "variablesReference": req("variables_reference", I), "name": req("name", S), "value": req("value", S), "format": opt("format", O("ValueFormat"))}),
    "stackTrace": (dap.StackTraceRequest, {
        "threadId": req("thread_id", I), "startFrame": opt("start_frame", I), "levels": opt("levels", I), "format": opt("format", O("StackFrameFormat"))}),
    "stepIn": (dap.StepInRequest, {
        "threadId": req("thread_id", I), "singleThread": opt("single_thread", B, False), "targetId": opt("target_id", I), "granularity": opt("granularity", GRAN, "statement")}),
    "stepOut": (dap.StepOutRequest, {"threadId": req("thread_id", I), "singleThread": opt("single_thread", B, False), "granularity": opt("granularity", GRAN, "statement")}),
    "terminate": (dap.TerminateRequest, {"restart": opt("restart", B, False)}),
    "threads": (dap.ThreadsRequest, None),
    "variables": (dap.VariablesRequest, {
        "variablesReference": req("variables_reference", I), "filter": opt("filter", E("indexed", "named")), "start": opt("start", I), "count": opt("count", I),
        "format": opt("format", O("ValueFormat"))}),
}
HINT = O("VariablePresentationHint")
RESPONSES = {
    "attach": (dap.AttachResponse, None),
    "cancel": (dap.CancelResponse, None),
    "configurationDone": (dap.ConfigurationDoneResponse, None),
    "continue": (None, {"allThreadsContinued": opt("all_threads_continued", B, True)}),
    "disconnect": (dap.DisconnectResponse, None),
    "evaluate": (dap.EvaluateResponse, {
        "result": req("result", S), "type": opt("type", S), "presentationHint": opt("presentation_hint", HINT), "variablesReference": opt("variables_reference", I, 0),
        "namedVariables": opt("named_variables", I), "indexedVariables": opt("indexed_variables", I), "memoryReference": opt("memory_reference", S)}),
    "launch": (dap.LaunchResponse, None),
    "next": (dap.NextResponse, None),
    "runInTerminal": (dap.RunInTerminalResponse, {"processId": opt("process_id", I), "shellProcessId": opt("shell_process_id", I)}),
    "scopes": (dap.ScopesResponse, {"scopes": opt("scopes", L("Scope"), LIST)}),
    "setBreakpoints": (dap.SetBreakpointsResponse, {"breakpoints": opt("breakpoints", L("Breakpoint"), LIST)}),
    "setExceptionBreakpoints": (dap.SetExceptionBreakpointsResponse, {"breakpoints": opt("breakpoints", L("Breakpoint"), LIST)}),
    "setVariable": (dap.SetVariableResponse, {
        "value": req("value", S), "type": opt("type", S), "variablesReference": opt("variables_reference", I), "namedVariables": opt("named_variables", I),
        "indexedVariables": opt("indexed_variables", I)}),
    "stackTrace": (dap.StackTraceResponse, {"stackFrames": opt("stack_frames", L("StackFrame"), LIST), "totalFrames": opt("total_frames", I)}),
    "stepIn": (dap.StepInResponse, None),
    "stepOut": (dap.StepOutResponse, None),
    "terminate": (dap.TerminateResponse, None),
    "threads": (dap.ThreadsResponse, {"threads": opt("threads", L("Thread"), LIST)}),
    "variables": (dap.VariablesResponse, {"variables": opt("variables", L("Variable"), LIST)}),
}
STOP = E("step", "breakpoint", "exception", "pause", "entry", "goto", "function breakpoint", "data breakpoint", "instruction breakpoint")
EVENTS = {
    "breakpoint": (dap.BreakpointEvent, {"reason": req("reason", E("changed", "new", "removed")), "breakpoint": req("breakpoint", O("Breakpoint"))}),
    "exited": (dap.ExitedEvent, {"exitCode": req("exit_code", I)}),
    "initialized": (dap.InitializedEvent, None),
    "output": (dap.OutputEvent, {
        "category": req("category", S), "output": req("output", S), "group": opt("group", E("start", "startCollapsed", "end")),
        "variablesReference": opt("variables_reference", I), "source": opt("source", O("Source")), "line": opt("line", I), "column": opt("column", I), "data": opt("data", ANY)}),
    "stopped": (dap.StoppedEvent, {
        "reason": req("reason", STOP), "description": opt("description", S), "threadId": opt("thread_id", I), "preserveFocusHint": opt("preserve_focus_hint", B, False),
        "text": opt("text", S), "allThreadsStopped": opt("all_threads_stopped", B, False), "hitBreakpointIds": opt("hit_breakpoint_ids", INTS, LIST)}),
    "terminated": (dap.TerminatedEvent, {"restart": opt("restart", ANY)}),
    "thread": (dap.ThreadEvent, {"reason": req("reason", E("started", "exited")), "threadId": req("thread_id", I)}),
}


def find_class(name):
    import ansibug.dap as d

    for modname in ("", "._requests", "._responses", "._types"):
        try:
            m = __import__("ansibug.dap" + modname, fromlist=["x"])
        except ImportError:
            continue
        if hasattr(m, name):
            return getattr(m, name)
    raise HarnessError(f"no class {name}")


REQUESTS["continue"] = (find_class("ContinueRequest"), REQUESTS["continue"][1])
RESPONSES["continue"] = (find_class("ContinueResponse"), RESPONSES["continue"][1])
TYPES["SourceBreakpoint"] = (find_class("SourceBreakpoint"), TYPES["SourceBreakpoint"][1])

text = st.text(max_size=8) | st.sampled_from(["", "0", "null", "a.b", "\u2028", "threadId"])
ints = st.integers(-3, 40) | st.integers(-(2**40), 2**40)
anyjson = st.recursive(
    st.booleans() | st.integers(-9, 9) | text, lambda c: st.lists(c, max_size=3) | st.dictionaries(text, c, max_size=3), max_leaves=5
)
unknown_keys = st.sampled_from(["__types", "_dap", "foo", "thread_id", "Seq", "threadID", "ThreadId", "x-y", "", "single_thread", "variables_reference"]) | st.text(
    max_size=6
)


def kind_strategy(kind, depth):
    if kind == I:
        return ints
    if kind == S:
        return text
    if kind == B:
        return st.booleans()
    if kind == ANY:
        return anyjson
    if kind == STRS:
        return st.lists(text, max_size=3)
    if kind == INTS:
        return st.lists(ints, max_size=3)
    if kind == MAP:
        return st.dictionaries(text, text, max_size=3)
    if kind == NMAP:
        return st.dictionaries(text, text | st.none(), max_size=3)
    if isinstance(kind, E):
        return st.sampled_from(kind.v)
    if isinstance(kind, O):
        return body_strategy(TYPES[kind.n][1], depth + 1)
    if isinstance(kind, L):
        return st.lists(body_strategy(TYPES[kind.n][1], depth + 1), max_size=3 if depth == 0 else 1) if depth < 3 else st.just([])
    raise HarnessError(kind)


_cache = {}


def body_strategy(spec, depth=0):
    """{property name: value}; properties are required, present, or absent."""
    if spec is None:
        return st.just({})
    key = (id(spec), depth)
    if key not in _cache:
        need = {p: kind_strategy(k, depth) for p, (a, k, d) in spec.items() if d is REQ}
        may = {p: kind_strategy(k, depth) for p, (a, k, d) in spec.items() if d is not REQ}
        _cache[key] = st.fixed_dictionaries(need, optional=may)
    return _cache[key]


def default_of(d):
    return [] if d == LIST and isinstance(d, str) else {} if d == DICT and isinstance(d, str) else d


def build(cls, spec, body, extra=None):
    """The Python object with these property values, through the constructor."""
    kw = dict(extra or {})
    for p, v in body.items():
        attr, kind, _ = spec[p]
        kw[attr] = value_obj(kind, v)
    return cls(**kw)


def value_obj(kind, v):
    if isinstance(kind, O):
        return build(*TYPES[kind.n], v)
    if isinstance(kind, L):
        return [build(*TYPES[kind.n], x) for x in v]
    if kind is STOP:
        return dap.StoppedReason(v)
    return v


def expect_json(spec, body):
    """Everything the packed object must say, defaults included, nulls left out."""
    out = {}
    for p, (attr, kind, d) in (spec or {}).items():
        if p in body:
            v = body[p]
            if isinstance(kind, O):
                v = expect_json(TYPES[kind.n][1], v)
            elif isinstance(kind, L):
                v = [expect_json(TYPES[kind.n][1], x) for x in v]
        else:
            v = default_of(d)
        if v is not None:
            out[p] = v
    return out


def prune(spec, obj):
    """Drops nulls of known properties of the packed JSON (null = absent)."""
    if not isinstance(obj, dict):
        return obj
    out = {}
    for p, v in obj.items():
        if v is None:
            continue
        kind = spec[p][1] if spec and p in spec else None
        if isinstance(kind, O):
            v = prune(TYPES[kind.n][1], v)
        elif isinstance(kind, L) and isinstance(v, list):
            v = [prune(TYPES[kind.n][1], x) for x in v]
        out[p] = v
    return out


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def check_attrs(obj, spec, body, where):
    for p, (attr, kind, d) in (spec or {}).items():
        got = getattr(obj, attr)
        if p not in body or body[p] is None:
            want = default_of(d)
            require(got == want and type(got) is type(want), f"{where}.{p} absent: attribute {attr} is {got!r}, default is {want!r}")
            continue
        v = body[p]
        if isinstance(kind, O):
            require(isinstance(got, TYPES[kind.n][0]), f"{where}.{p}: {got!r} is not a {kind.n}")
            check_attrs(got, TYPES[kind.n][1], v, f"{where}.{p}")
        elif isinstance(kind, L):
            require(isinstance(got, list) and len(got) == len(v), f"{where}.{p}: {got!r} for {v!r}")
            for i, (g, x) in enumerate(zip(got, v)):
                require(isinstance(g, TYPES[kind.n][0]), f"{where}.{p}[{i}]: {g!r} is not a {kind.n}")
                check_attrs(g, TYPES[kind.n][1], x, f"{where}.{p}[{i}]")
        elif kind is STOP:
            require(got == dap.StoppedReason(v), f"{where}.{p}: {got!r} for {v!r}")
        else:
            require(got == v and type(got) is type(v), f"{where}.{p}: attribute {attr} is {got!r}, sent {v!r}")


def wire_of(msg):
    conn = DebugAdapterConnection()
    guard(lambda: conn.queue_msg(msg), f"packing {msg!r}")
    data = bytes(conn.data_to_send())
    return json.loads(data.partition(b"\r\n\r\n")[2])


def read(obj):
    conn = DebugAdapterConnection()
    body = json.dumps(obj).encode()
    conn.receive_data(b"Content-Length: %d\r\n\r\n" % len(body) + body)
    return conn.next_message()


GROUPS = {"request": REQUESTS, "response": RESPONSES, "event": EVENTS}
HEAD = {"request": "command", "response": "command", "event": "event"}
PART = {"request": "arguments", "response": "body", "event": "body"}


@st.composite
def any_message(draw):
    group = draw(st.sampled_from(["request", "request", "response", "event"]))
    name = draw(st.sampled_from(sorted(GROUPS[group])))
    return group, name, draw(body_strategy(GROUPS[group][name][1])), draw(ints)


def optional_count(spec, body):
    return sum(1 for p in body if spec[p][2] is not REQ)


def t_pack(case, rec: Recorder):
    group, name, body, rseq = case
    cls, spec = GROUPS[group][name]
    extra = {"request_seq": rseq} if group == "response" else {}
    msg = build(cls, spec or {}, body, extra)
    got = wire_of(msg)
    want = {"seq": 1, "type": group, HEAD[group]: name}
    if group == "response":
        want |= {"request_seq": rseq, "success": True}
    part = PART[group]
    got_body = got.pop(part, None)
    want_body = expect_json(spec, body)
    require(same(got, want), f"{name} {group} envelope {got!r}, expected {want!r}")
    got_body = prune(spec, got_body or {})
    if not same(got_body, want_body):
        bad = [k for k in sorted(set(got_body) | set(want_body)) if not same(got_body.get(k), want_body.get(k))]
        raise Violation(f"{name} {group} {part}: properties {bad} are {[got_body.get(k) for k in bad]!r}, expected {[want_body.get(k) for k in bad]!r}")
    rec.tag(group)
    if spec and optional_count(spec, body) >= 2:
        rec.nontrivial()


@st.composite
def incoming(draw):
    group, name, body, rseq = draw(any_message())
    spec = GROUPS[group][name][1] or {}
    absent = [p for p, (a, k, d) in spec.items() if d is not REQ and p not in body]
    nulls = draw(st.lists(st.sampled_from(absent), unique=True, max_size=3)) if absent else []
    extra_top = draw(st.dictionaries(unknown_keys, anyjson, max_size=2))
    extra_body = draw(st.dictionaries(unknown_keys, anyjson, max_size=2))
    extra_nested = draw(st.dictionaries(unknown_keys, anyjson, max_size=1))
    order = draw(st.booleans())
    drop = draw(st.booleans())
    return group, name, body, rseq, nulls, extra_top, extra_body, extra_nested, order, drop


def to_json(spec, body, extra_nested):
    out = {}
    for p, v in body.items():
        kind = spec[p][1]
        if isinstance(kind, O):
            sub = TYPES[kind.n][1]
            v = {**{k: x for k, x in extra_nested.items() if k not in sub}, **to_json(sub, v, extra_nested)}
        elif isinstance(kind, L):
            sub = TYPES[kind.n][1]
            v = [{**to_json(sub, x, extra_nested), **{k: y for k, y in extra_nested.items() if k not in sub}} for x in v]
        out[p] = v
    return out


def t_unpack(case, rec: Recorder):
    group, name, body, rseq, nulls, extra_top, extra_body, extra_nested, order, drop = case
    cls, spec = GROUPS[group][name]
    spec = spec or {}
    data = to_json(spec, body, extra_nested)
    for p in nulls:
        data[p] = None
    for k, v in extra_body.items():
        if k not in spec:
            data[k] = v
    if order:
        data = dict(reversed(list(data.items())))
    obj = {"seq": 1, "type": group, HEAD[group]: name}
    if group == "response":
        obj |= {"request_seq": rseq, "success": True}
    if data or not drop:
        obj[PART[group]] = data
    known = set(obj) | {"arguments", "body", "message", "success", "request_seq"}
    obj |= {k: v for k, v in extra_top.items() if k not in known}
    if order:
        obj = dict(reversed(list(obj.items())))
    # Twice: reading one message must not change how the next one is read.
    for attempt in (1, 2):
        msg = guard(lambda: read(obj), f"reading {json.dumps(obj)[:600]}")
        require(type(msg) is cls, f"{name} {group} was read as {type(msg).__name__}")
        require(msg.seq == 1, f"seq {msg.seq}")
        if group == "response":
            require(msg.request_seq == rseq and msg.success is True, f"{name}: request_seq {msg.request_seq} success {msg.success}")
        require((msg.event if group == "event" else msg.command).value == name, f"{name}: {msg!r}")
        check_attrs(msg, spec, body, name)
    rec.tag(group)
    if optional_count(spec, body) + len(nulls) >= 2:
        rec.nontrivial()


def t_free_args(case, rec: Recorder):
    """attach and launch keep whatever arguments the client sent."""
    name, args, restart, no_debug = case
    obj_args = {k: v for k, v in args.items() if k not in ("__restart", "noDebug")}
    sent = dict(obj_args)
    if restart is not None:
        sent["__restart"] = restart
    if name == "launch" and no_debug is not None:
        sent["noDebug"] = no_debug
    msg = guard(lambda: read({"seq": 1, "type": "request", "command": name, "arguments": sent}), f"reading {sent!r}")
    require(type(msg) is (dap.LaunchRequest if name == "launch" else dap.AttachRequest), f"{name} read as {msg!r}")
    got = {k: v for k, v in msg.arguments.items() if k not in ("__restart", "noDebug")}
    require(same(got, obj_args), f"arguments {got!r}, sent {obj_args!r}")
    require(same(msg.restart, restart), f"restart {msg.restart!r}, sent {restart!r}")
    if name == "launch":
        require(msg.no_debug is bool(no_debug), f"noDebug {msg.no_debug!r}, sent {no_debug!r}")
    kw = {"arguments": dict(obj_args), "restart": restart}
    if name == "launch" and no_debug is not None:
        kw["no_debug"] = no_debug
    packed = wire_of(type(msg)(**kw))
    back = {k: v for k, v in packed["arguments"].items() if not (k in ("__restart", "noDebug") and not v)}
    want = dict(obj_args)
    if restart:
        want["__restart"] = restart
    if name == "launch" and no_debug:
        want["noDebug"] = True
    require(same(back, want), f"packed arguments {back!r}, expected {want!r}")
    if len(obj_args) >= 2:
        rec.nontrivial()


def t_error(case, rec: Recorder):
    command, rseq, message, err, how = case
    spec = TYPES["Message"][1]
    commands = {c.value for c in dap.Command}
    if how == "pack":
        kw = {}
        if message is not None:
            kw["message"] = message
        if err is not None:
            kw["error"] = build(*TYPES["Message"], err)
        got = wire_of(dap.ErrorResponse(command=dap.Command(command), request_seq=rseq, **kw))
        body = prune({"error": opt("error", O("Message"))}, got.pop("body", None) or {})
        want = {"seq": 1, "type": "response", "request_seq": rseq, "success": False, "command": command}
        if message is not None:
            want["message"] = message
        got = {k: v for k, v in got.items() if v is not None}
        require(same(got, want), f"error response {got!r}, expected {want!r}")
        require(same(body, {} if err is None else {"error": expect_json(spec, err)}), f"error body {body!r} for {err!r}")
    else:
        obj = {"seq": 1, "type": "response", "request_seq": rseq, "success": False, "command": command}
        if message is not None:
            obj["message"] = message
        if err is not None:
            obj["body"] = {"error": to_json(spec, err, {})}
        msg = guard(lambda: read(obj), f"reading {obj!r}")
        require(isinstance(msg, dap.ErrorResponse), f"a non-success {command} response was read as {type(msg).__name__}")
        require(msg.request_seq == rseq and msg.success is False and msg.message == message, f"{msg!r} for {obj!r}")
        require(msg.command == dap.Command(command), f"{msg!r} for {obj!r}")
        if err is None:
            require(msg.error is None, f"{msg!r}")
        else:
            require(isinstance(msg.error, dap.Message), f"{msg!r}")
            check_attrs(msg.error, spec, err, "error")
    assert command in commands
    rec.nontrivial()


def t_unknown(case, rec: Recorder):
    kind, word, body = case
    known = {"request": set(REQUESTS) | {"attach", "launch"}, "response": set(RESPONSES) | {"initialize"}, "event": set(EVENTS)}
    if kind == "type":
        if word in known:
            return
        obj = {"seq": 1, "type": word, "command": "threads", "event": "initialized", "request_seq": 1, "success": True}
    else:
        if word in known[kind]:
            return
        obj = {"seq": 1, "type": kind, HEAD[kind]: word, PART[kind]: body, "request_seq": 1, "success": True}
    try:
        got = read(obj)
    except Exception:
        rec.nontrivial()
        return
    raise Violation(f"{obj!r} was read as {got!r}")


@st.composite
def caps(draw):
    return draw(body_strategy(TYPES["Capabilities"][1])), draw(ints)


def t_caps(case, rec: Recorder):
    body, rseq = case
    spec = TYPES["Capabilities"][1]
    got = wire_of(dap.InitializeResponse(request_seq=rseq, capabilities=build(*TYPES["Capabilities"], body)))
    got_body = prune(spec, got.pop("body"))
    require(same(got_body, expect_json(spec, body)), f"capabilities {got_body!r} for {body!r}")
    require(same(got, {"seq": 1, "type": "response", "request_seq": rseq, "success": True, "command": "initialize"}), f"{got!r}")
    msg = guard(lambda: read({"seq": 1, "type": "response", "request_seq": rseq, "success": True, "command": "initialize", "body": to_json(spec, body, {})}), f"{body!r}")
    require(isinstance(msg, dap.InitializeResponse), f"{msg!r}")
    check_attrs(msg.capabilities, spec, body, "capabilities")
    if len(body) >= 2:
        rec.nontrivial()


commands = st.sampled_from(sorted(c.value for c in dap.Command))
words = st.text(max_size=8) | st.sampled_from(
    ["Threads", "thread", "threads ", "stepBack", "error", "stopped", "initialized", "initialize", "pause", "response", "request", "event", "breakpoint", "launch", "goto", "REQUEST"]
)

TESTS = [
    Test("pack", any_message, t_pack, 8000, 200000),
    Test("unpack", incoming, t_unpack, 12000, 300000),
    Test(
        "free_args",
        lambda: st.tuples(st.sampled_from(["attach", "launch"]), st.dictionaries(text, anyjson | st.none(), max_size=5), st.none() | anyjson, st.none() | st.booleans()),
        t_free_args,
        2000,
        40000,
    ),
    Test(
        "error",
        lambda: st.tuples(commands, ints, st.none() | text, st.none() | body_strategy(TYPES["Message"][1]), st.sampled_from(["pack", "read"])),
        t_error,
        2000,
        40000,
    ),
    Test("unknown", lambda: st.tuples(st.sampled_from(["type", "request", "response", "event"]), words, anyjson | st.just({})), t_unknown, 2000, 40000),
    Test("capabilities", caps, t_caps, 1500, 40000),
]
