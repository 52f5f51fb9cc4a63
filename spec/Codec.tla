------------------------------- MODULE Codec -------------------------------
(* C15.  Debug Adapter Protocol messages and types: for every field its name   *)
(* in the protocol, where it sits, the attribute that carries it, its kind and *)
(* its default.  Pack and Unpack say what a message looks like as JSON and     *)
(* what JSON says as a message.                                                *)
(*                                                                             *)
(* Values are trees: atoms (their JSON text), objects, lists.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

At(c) == [k |-> "atom", c |-> c]
Null == At("null")
Lst(s) == [k |-> "list", s |-> s]
Obj(f) == [k |-> "obj", f |-> f]
None == [k |-> "none"]          \* no default: the field is required

\* field: protocol name, attribute, kind, type or members, default
F(j, a, k, t, d) == [j |-> j, a |-> a, k |-> k, t |-> t, d |-> d]
Int_(j, a) == F(j, a, "int", "", None)
OptInt(j, a) == F(j, a, "int", "", Null)
ZeroInt(j, a) == F(j, a, "int", "", At("0"))
Str(j, a) == F(j, a, "str", "", None)
OptStr(j, a) == F(j, a, "str", "", Null)
Bool(j, a, d) == F(j, a, "bool", "", At(d))
No(j, a) == Bool(j, a, "false")
AnyF(j, a) == F(j, a, "any", "", Null)
Strs(j, a) == F(j, a, "strs", "", Lst(<<>>))
Ints(j, a) == F(j, a, "ints", "", Lst(<<>>))
Map(j, a) == F(j, a, "map", "", At("{}"))
Of(j, a, t) == F(j, a, "obj", t, None)
OptOf(j, a, t) == F(j, a, "obj", t, Null)
Many(j, a, t) == F(j, a, "objs", t, Lst(<<>>))
Word(j, a, w, d) == F(j, a, "word", w, d)

Gran == Word("granularity", "granularity", <<"statement", "line", "instruction">>, At("\"statement\""))
Region == <<OptInt("line", "line"), OptInt("column", "column"), OptInt("endLine", "end_line"), OptInt("endColumn", "end_column")>>
Counts == <<OptInt("namedVariables", "named_variables"), OptInt("indexedVariables", "indexed_variables")>>

Types == [
  Breakpoint |-> <<OptInt("id", "id"), No("verified", "verified"), OptStr("message", "message"), OptOf("source", "source", "Source")>> \o Region \o
                 <<OptStr("instructionReference", "instruction_reference"), OptInt("offset", "offset")>>,
  Capabilities |-> <<No("supportsConfigurationDoneRequest", "supports_configuration_done_request"), No("supportsFunctionBreakpoints", "supports_function_breakpoints"),
                 No("supportsConditionalBreakpoints", "supports_conditional_breakpoints"), No("supportsHitConditionalBreakpoints", "supports_hit_conditional_breakpoints"),
                 No("supportsEvaluateForHovers", "supports_evaluate_for_hovers"), Many("exceptionBreakpointFilters", "exception_breakpoints_filters", "ExceptionBreakpointsFilter"),
                 No("supportsStepBack", "supports_step_back"), No("supportsSetVariable", "supports_set_variable"), No("supportsRestartFrame", "supports_restart_frame"),
                 No("supportsGotoTargetsRequest", "supports_goto_targets_request"), No("supportsStepInTargetsRequest", "supports_step_in_targets_request"),
                 No("supportsCompletionsRequest", "supports_completions_request"), No("supportTerminateDebuggee", "supports_terminate_debuggee"),
                 No("supportSuspendDebuggee", "supports_suspend_debuggee"), No("supportsTerminateRequest", "supports_terminate_request"),
                 No("supportsClipboardContext", "supports_clipboard_context")>>,
  Checksum |-> <<Word("algorithm", "algorithm", <<"MD5", "SHA1", "SHA256", "timestamp">>, None), Str("checksum", "checksum")>>,
  ExceptionBreakpointsFilter |-> <<Str("filter", "filter"), Str("label", "label"), OptStr("description", "description"), No("default", "default"),
                 No("supportsCondition", "supports_condition"), OptStr("conditionDescription", "condition_description")>>,
  ExceptionFilterOptions |-> <<Str("filterId", "filter_id"), OptStr("condition", "condition")>>,
  ExceptionOptions |-> <<F("path", "path", "objs", "ExceptionPathSegment", None), Word("breakMode", "break_mode", <<"never", "always", "unhandled", "userUnhandled">>, None)>>,
  ExceptionPathSegment |-> <<No("negate", "negate"), Strs("names", "names")>>,
  Message |-> <<Int_("id", "id"), Str("format", "format"), Map("variables", "variables"), No("sendTelemetry", "send_telemetry"), No("showUser", "show_user"),
                 OptStr("url", "url"), OptStr("urlLabel", "url_label")>>,
  Scope |-> <<Str("name", "name"), OptStr("presentationHint", "presentation_hint"), Int_("variablesReference", "variables_reference")>> \o Counts \o
                 <<No("expensive", "expensive"), OptOf("source", "source", "Source")>> \o Region,
  Source |-> <<OptStr("name", "name"), OptStr("path", "path"), ZeroInt("sourceReference", "source_reference"),
                 Word("presentationHint", "presentation_hint", <<"normal", "emphasize", "deemphasize">>, At("\"normal\"")), OptStr("origin", "origin"),
                 Many("sources", "sources", "Source"), AnyF("adapterData", "adapter_data"), Many("checksums", "checksums", "Checksum")>>,
  SourceBreakpoint |-> <<Int_("line", "line"), OptInt("column", "column"), OptStr("condition", "condition"), OptStr("hitCondition", "hit_condition"), OptStr("logMessage", "log_message")>>,
  StackFrame |-> <<Int_("id", "id"), Str("name", "name"), OptOf("source", "source", "Source"), ZeroInt("line", "line"), ZeroInt("column", "column"),
                 OptInt("endLine", "end_line"), OptInt("endColumn", "end_column"), No("canRestart", "can_restart"),
                 OptStr("instructionPointerReference", "instruction_pointer_reference"), OptStr("moduleId", "module_id"),
                 Word("presentationHint", "presentation_hint", <<"normal", "label", "subtle">>, At("\"normal\""))>>,
  StackFrameFormat |-> <<No("parameters", "parameters"), No("parameterTypes", "parameter_types"), No("parameterNames", "parameter_names"),
                 No("parameterValues", "parameter_values"), No("line", "line"), No("module", "module"), No("includeAll", "include_all")>>,
  Thread |-> <<Int_("id", "id"), Str("name", "name")>>,
  ValueFormat |-> <<No("hex", "hex")>>,
  Variable |-> <<Str("name", "name"), Str("value", "value"), OptStr("type", "type"), OptOf("presentationHint", "presentation_hint", "VariablePresentationHint"),
                 OptStr("evaluateName", "evaluate_name"), ZeroInt("variablesReference", "variables_reference")>> \o Counts \o <<OptStr("memoryReference", "memory_reference")>>,
  VariablePresentationHint |-> <<OptStr("kind", "kind"), Strs("attributes", "attributes"), OptStr("visibility", "visibility"), No("lazy", "lazy")>>
]

\* messages: what they are, the member of the message that holds the fields, the fields
\* ("" - none; "whole" - the member is itself one object of a type; "free" - free form with some named fields)
M(type, word, in, fs) == [type |-> type, word |-> word, in |-> in, fs |-> fs]
Req(w, fs) == M("request", w, IF fs = <<>> THEN "" ELSE "arguments", fs)
Resp(w, fs) == M("response", w, IF fs = <<>> THEN "" ELSE "body", fs)
Ev(w, fs) == M("event", w, IF fs = <<>> THEN "" ELSE "body", fs)
Single(d) == Bool("singleThread", "single_thread", d)
Tid == Int_("threadId", "thread_id")
Vref == Int_("variablesReference", "variables_reference")

Messages == [
  AttachRequest |-> M("request", "attach", "free", <<AnyF("__restart", "restart")>>),
  LaunchRequest |-> M("request", "launch", "free", <<No("noDebug", "no_debug"), AnyF("__restart", "restart")>>),
  CancelRequest |-> Req("cancel", <<OptInt("requestId", "request_id"), OptInt("progressId", "progress_id")>>),
  ConfigurationDoneRequest |-> Req("configurationDone", <<>>),
  ContinueRequest |-> Req("continue", <<Tid, Single("true")>>),
  DisconnectRequest |-> Req("disconnect", <<No("restart", "restart"), F("terminateDebuggee", "terminate_debuggee", "bool", "", Null), No("suspendDebuggee", "suspend_debuggee")>>),
  EvaluateRequest |-> Req("evaluate", <<Str("expression", "expression"), OptInt("frameId", "frame_id"), OptStr("context", "context"), OptOf("format", "format", "ValueFormat")>>),
  InitializeRequest |-> Req("initialize", <<OptStr("clientID", "client_id"), OptStr("clientName", "client_name"), Str("adapterID", "adapter_id"), OptStr("locale", "locale"),
       Bool("linesStartAt1", "lines_start_at_1", "true"), Bool("columnsStartAt1", "columns_start_at_1", "true"),
       Word("pathFormat", "path_format", <<"path", "uri">>, At("\"path\"")), No("supportsVariableType", "supports_variable_type"),
       No("supportsVariablePaging", "supports_variable_paging"), No("supportsRunInTerminalRequest", "supports_run_in_terminal_request"),
       No("supportsMemoryReferences", "supports_memory_references"), No("supportsProgressReporting", "supports_progress_reporting"),
       No("supportsInvalidatedEvent", "supports_invalidated_event"), No("supportsMemoryEvent", "supports_memory_event")>>),
  NextRequest |-> Req("next", <<Tid, Single("false"), Gran>>),
  RunInTerminalRequest |-> Req("runInTerminal", <<Word("kind", "kind", <<"integrated", "external">>, At("\"integrated\"")), OptStr("title", "title"),
       F("cwd", "cwd", "str", "", At("\"\"")), Strs("args", "args"), Map("env", "env")>>),
  ScopesRequest |-> Req("scopes", <<Int_("frameId", "frame_id")>>),
  SetBreakpointsRequest |-> Req("setBreakpoints", <<Of("source", "source", "Source"), Many("breakpoints", "breakpoints", "SourceBreakpoint"), Ints("lines", "lines"),
       No("sourceModified", "source_modified")>>),
  SetExceptionBreakpointsRequest |-> Req("setExceptionBreakpoints", <<Strs("filters", "filters"), Many("filterOptions", "filter_options", "ExceptionFilterOptions"),
       Many("exceptionOptions", "exception_options", "ExceptionOptions")>>),
  SetVariableRequest |-> Req("setVariable", <<Vref, Str("name", "name"), Str("value", "value"), OptOf("format", "format", "ValueFormat")>>),
  StackTraceRequest |-> Req("stackTrace", <<Tid, OptInt("startFrame", "start_frame"), OptInt("levels", "levels"), OptOf("format", "format", "StackFrameFormat")>>),
  StepInRequest |-> Req("stepIn", <<Tid, Single("false"), OptInt("targetId", "target_id"), Gran>>),
  StepOutRequest |-> Req("stepOut", <<Tid, Single("false"), Gran>>),
  TerminateRequest |-> Req("terminate", <<No("restart", "restart")>>),
  ThreadsRequest |-> Req("threads", <<>>),
  VariablesRequest |-> Req("variables", <<Vref, Word("filter", "filter", <<"indexed", "named">>, Null), OptInt("start", "start"), OptInt("count", "count"),
       OptOf("format", "format", "ValueFormat")>>),
  AttachResponse |-> Resp("attach", <<>>),
  CancelResponse |-> Resp("cancel", <<>>),
  ConfigurationDoneResponse |-> Resp("configurationDone", <<>>),
  ContinueResponse |-> Resp("continue", <<Bool("allThreadsContinued", "all_threads_continued", "true")>>),
  DisconnectResponse |-> Resp("disconnect", <<>>),
  EvaluateResponse |-> Resp("evaluate", <<Str("result", "result"), OptStr("type", "type"), OptOf("presentationHint", "presentation_hint", "VariablePresentationHint"),
       ZeroInt("variablesReference", "variables_reference")>> \o Counts \o <<OptStr("memoryReference", "memory_reference")>>),
  InitializeResponse |-> M("response", "initialize", "whole", <<Of("body", "capabilities", "Capabilities")>>),
  LaunchResponse |-> Resp("launch", <<>>),
  NextResponse |-> Resp("next", <<>>),
  RunInTerminalResponse |-> Resp("runInTerminal", <<OptInt("processId", "process_id"), OptInt("shellProcessId", "shell_process_id")>>),
  ScopesResponse |-> Resp("scopes", <<Many("scopes", "scopes", "Scope")>>),
  SetBreakpointsResponse |-> Resp("setBreakpoints", <<Many("breakpoints", "breakpoints", "Breakpoint")>>),
  SetExceptionBreakpointsResponse |-> Resp("setExceptionBreakpoints", <<Many("breakpoints", "breakpoints", "Breakpoint")>>),
  SetVariableResponse |-> Resp("setVariable", <<Str("value", "value"), OptStr("type", "type"), OptInt("variablesReference", "variables_reference")>> \o Counts),
  StackTraceResponse |-> Resp("stackTrace", <<Many("stackFrames", "stack_frames", "StackFrame"), OptInt("totalFrames", "total_frames")>>),
  StepInResponse |-> Resp("stepIn", <<>>),
  StepOutResponse |-> Resp("stepOut", <<>>),
  TerminateResponse |-> Resp("terminate", <<>>),
  ThreadsResponse |-> Resp("threads", <<Many("threads", "threads", "Thread")>>),
  VariablesResponse |-> Resp("variables", <<Many("variables", "variables", "Variable")>>),
  ErrorResponse |-> M("response", "", "body", <<OptOf("error", "error", "Message")>>),
  BreakpointEvent |-> Ev("breakpoint", <<Word("reason", "reason", <<"changed", "new", "removed", "other">>, None), Of("breakpoint", "breakpoint", "Breakpoint")>>),
  ExitedEvent |-> Ev("exited", <<Int_("exitCode", "exit_code")>>),
  InitializedEvent |-> Ev("initialized", <<>>),
  OutputEvent |-> Ev("output", <<Word("category", "category", <<"console", "important", "stdout", "stderr", "telemetry", "else">>, None), Str("output", "output"),
       Word("group", "group", <<"start", "startCollapsed", "end">>, Null), OptInt("variablesReference", "variables_reference"), OptOf("source", "source", "Source"),
       OptInt("line", "line"), OptInt("column", "column"), AnyF("data", "data")>>),
  StoppedEvent |-> Ev("stopped", <<Word("reason", "reason", <<"step", "breakpoint", "exception", "pause", "entry", "goto", "function breakpoint", "data breakpoint",
       "instruction breakpoint">>, None), OptStr("description", "description"), OptInt("threadId", "thread_id"), No("preserveFocusHint", "preserve_focus_hint"),
       OptStr("text", "text"), No("allThreadsStopped", "all_threads_stopped"), Ints("hitBreakpointIds", "hit_breakpoint_ids")>>),
  TerminatedEvent |-> Ev("terminated", <<AnyF("restart", "restart")>>),
  ThreadEvent |-> Ev("thread", <<Word("reason", "reason", <<"started", "exited">>, None), Int_("threadId", "thread_id")>>)
]
Names == DOMAIN Messages
Words == {Messages[n].word : n \in {x \in Names : Messages[x].type # "event"}} \ {""}

(* ---- what is carried where ---- *)
Js(fs) == {fs[i].j : i \in 1..Len(fs)}
As(fs) == {fs[i].a : i \in 1..Len(fs)}
FieldJ(fs, j) == fs[CHOOSE i \in 1..Len(fs) : fs[i].j = j]
FieldA(fs, a) == fs[CHOOSE i \in 1..Len(fs) : fs[i].a = a]

\* (null and absent are the same thing in the JSON of the protocol)
RECURSIVE PackFs(_, _), PackV(_, _)
PackV(f, v) == IF v = Null THEN Null
               ELSE CASE f.k = "obj" -> PackFs(Types[f.t], v.f)
                      [] f.k = "objs" -> Lst([i \in 1..Len(v.s) |-> PackFs(Types[f.t], v.s[i].f)])
                      [] OTHER -> v
\* v: attribute |-> value, for all attributes
PackFs(fs, v) == Obj([j \in {x \in Js(fs) : v[FieldJ(fs, x).a] # Null} |-> PackV(FieldJ(fs, j), v[FieldJ(fs, j).a])])

RECURSIVE UnpackFs(_, _), UnpackV(_, _)
UnpackV(f, v) == CASE f.k = "obj" -> Obj(UnpackFs(Types[f.t], v.f))
                   [] f.k = "objs" -> Lst([i \in 1..Len(v.s) |-> Obj(UnpackFs(Types[f.t], v.s[i].f))])
                   [] OTHER -> v
Has(j, key) == key \in DOMAIN j /\ j[key] # Null
\* j: protocol name |-> value; anything else in it is ignored
UnpackFs(fs, j) == [a \in As(fs) |-> LET f == FieldA(fs, a) IN IF Has(j, f.j) THEN UnpackV(f, j[f.j]) ELSE f.d]

(* ---- whole messages: type, word (command or event), success, fields ---- *)
\* the message some JSON is, "" if none
Decides(type, word, success) ==
    IF type = "response" /\ ~success THEN (IF word \in Words THEN "ErrorResponse" ELSE "")
    ELSE LET c == {n \in Names : n # "ErrorResponse" /\ Messages[n].type = type /\ Messages[n].word = word}
         IN IF c = {} THEN "" ELSE CHOOSE n \in c : TRUE
=============================================================================
