#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long lines stay readable)."""
import json, os
D, S, B = "src/ansibug/_debuggee.py", "src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py", "src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_breakpoints.py"
A, Q, H, X = "src/ansibug/_debug_adapter.py", "src/ansibug/_mp_queue.py", "src/ansibug/_socket_helper.py", "src/ansibug/_exec_playbook.py"
CB = "src/ansibug/ansible_collections/ansibug/dap/plugins/callback/debug.py"
R, V = "src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py", "src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_variables.py"
P = []


def p(id, title, statement, over, qt, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why, "anchors": a})


p("C01", "A stopped playbook makes no progress until the client resumes it",
  "From the moment a stop is reported until the client next sends a resume (continue, next, stepIn, stepOut), disconnect or terminate request, no task starts on any host, no second stop is reported, and requests that only inspect state (threads, stackTrace, scopes, variables, evaluate) do not resume anything. "
  "Every resume request sent after a stop was reported takes effect exactly once however quickly it follows the report: the play always moves on, to the next stop or to its end. "
  "Without a pending stop a resume request is answered and does not disturb the play. A continue request concerns the named thread alone unless it says singleThread false.",
  ["schedules", "programs", "histories"], "all playbooks, all client request sequences, and all interleavings of the thread that runs the play with the thread that serves the client",
  "Integration tests drive a handful of playbooks with a polite client and one timing; a lost wake-up or a stop published before the thread is ready to be woken needs a particular interleaving.",
  [S, D], [("stop/resume condition variable", S + ": start_task, end_task, _resume_threads"), ("request dispatch", D + ": process_message")], ["adapter stdio", "task start order on the hosts"])
p("C02", "Line breakpoints stop exactly the tasks they cover",
  "Before a task runs on a host, that host's thread is reported as stopped with reason 'breakpoint' and the id of the breakpoint if and only if a verified breakpoint the client currently has set covers the task's file and line and its condition, if any, evaluates to true for that host (a condition that fails to evaluate counts as false); a pending step that already stops there is reported as a step, and a pending step out skips breakpoints. "
  "Breakpoints replaced or removed by a later request for the same source never stop anything again, requests for one source leave other sources' breakpoints alone, and breakpoints set while the play is stopped or running apply to every task that starts after the response. "
  "Setting breakpoints never disturbs or crashes a running play.",
  ["programs", "histories", "schedules"], "all playbooks (tasks, blocks, includes, imports, roles, handlers, meta tasks, several plays and hosts), all breakpoint sets and conditions, all points of the run at which they are changed",
  "The tests sample one breakpoint layout per playbook and never change breakpoints while tasks are running; combinations of file, line range, host, condition and replacement history are unbounded.",
  [D, S, B], [("breakpoint lookup", D + ": get_breakpoint"), ("condition evaluation and stop decision", S + ": start_task, should_break"), ("replacement", D + ": SetBreakpointsRequest handler")], ["stopped events", "task execution records"])
p("C03", "Stepping stops at exactly the right next task of that host",
  "After a stop and a step over (next), the same host stops at its next task whose innermost enclosing include (include_tasks or include_role) is the same as that of the task it was stopped at, and at no task inside a deeper include unless a breakpoint or exception stop applies; a step in on an include stops at the host's very next task and elsewhere behaves as a step over; a step out stops at the host's first task outside the innermost include the stopped task was in, ignoring breakpoints until then, and from a task that is in no include it runs on without stopping at breakpoints. "
  "Blocks and statically imported tasks or roles are part of the scope they are written in. "
  "A continue with singleThread false cancels the pending steps of every host. This holds after any kind of stop (breakpoint, step or exception) and for each host independently of the others.",
  ["programs", "histories"], "all playbook shapes (nested and looped includes, roles, imports, blocks, handlers, failing and skipped tasks, several hosts) and all sequences of step requests",
  "The step tests cover one or two fixed include layouts with one host; the relation must hold for every nesting and every sequence of step kinds.",
  [S], [("step state machine", S + ": AnsibleThread.set_state, should_break, _break_step_*")], ["stopped events", "stack traces"])
p("C04", "Reported breakpoint state always matches the lines Ansible has loaded",
  "A breakpoint in a file Ansible has not loaded is reported unverified at the requested line; once the file is loaded it is reported verified with the line range of the last task or play header starting at or before the requested line (the range ends before the next task, play or block), or unverified if that position is before the first task or is a block; a source flagged as modified gives unverified breakpoints that never stop. "
  "Whatever the order in which files are loaded and breakpoints are set, and however the two overlap in time, the last state the client was told for a breakpoint (response or later 'changed' event) is the state for the lines loaded so far, and no event is sent for a breakpoint that is no longer set or has not changed. "
  "Every breakpoint gets a fresh id that is never reused, the response lists exactly one entry per requested breakpoint in request order, and the same line always resolves in the same way whether the breakpoint is set before or after the file is loaded.",
  ["histories", "inputs", "schedules"], "all sequences and overlaps of file loading and setBreakpoints requests, all line numbers including those outside the file",
  "Unit tests check single layouts; the number of orders of loading and setting, and the overlap of the two threads, is unbounded.",
  [D, B, S], [("line table", D + ": register_path_breakpoint"), ("resolution", D + ": _calculate_breakpoint"), ("request", D + ": SetBreakpointsRequest handler"), ("discovery of lines", B + ": register_play_breakpoints, register_block_breakpoints")], ["setBreakpoints responses", "breakpoint events"])
p("C05", "Exception stops happen exactly for uncaught results with an enabled filter",
  "After a task result, the host's thread is reported as stopped with reason 'exception' if and only if the result is a failure that is neither ignored nor handled by an enclosing rescue (a failure inside a rescue or always section is handled only by a rescue further out) and the failure filter is on, or it is unreachable and not ignored with the unreachable filter on, or it is skipped with the skipped filter on. "
  "The stop names the right thread, describes the kind and carries the result's message, and the result is readable as the 'Module Result' scope of that thread's top frame until it is resumed. "
  "The last filter set sent by the client is the one in force for every later result.",
  ["programs", "histories"], "all placements of failing, unreachable and skipped results in blocks, rescues, always sections, includes, roles, handlers and loops, with any ignore settings, on any host, and all filter changes",
  "Tests cover each filter once on a flat playbook with simple rescue; nesting of block sections with includes and several hosts is unbounded.",
  [S, B, D], [("exception decision", S + ": should_stop_on_exception, end_task"), ("details", B + ": get_on_*_details"), ("filters", D + ": SetExceptionBreakpointsRequest handler")], ["stopped events", "scopes"])
p("C06", "Thread list and thread events describe the hosts being run",
  "Each host that begins a task in a play is announced by exactly one 'started' thread event before any stop or stack of that thread is reported, with an id unique for the whole session and the host's name in the thread list; it is announced 'exited' exactly once, when its play ends (or the inventory is refreshed, after which it is announced anew), and is not listed afterwards. "
  "The thread list always contains the main thread plus exactly the announced, not yet exited hosts, whenever it is asked for, and asking for it never fails or disturbs the play.",
  ["programs", "schedules", "histories"], "all plays, host sets, serial batches, failing hosts, inventory refreshes, and every moment at which the client may ask",
  "Tests look at the threads of one or two small plays at one stop; overlap of a threads request with a host being added or removed is a matter of schedule.",
  [S, D], [("thread table", S + ": _add_thread, exit_threads, get_threads")], ["thread events", "threads responses"])
p("C07", "The stack trace of a stopped host is its chain of includes",
  "For a stopped thread the stack trace lists the task it is stopped at first and then exactly the include_tasks/include_role tasks that host is inside of, innermost first, each with its task name, source path and line; frames of includes that have ended, or of other hosts, never appear, and totalFrames equals the number of frames. "
  "Blocks and static imports add no frame and remove none. "
  "Frame ids are unique across hosts and tasks, and a frame that is still on the stack keeps its id.",
  ["programs", "histories"], "all nestings of includes, roles, imports and blocks on any number of hosts",
  "Tests check single-level includes; leaving several levels at once, blocks or imports inside includes, loops and several hosts are combinations no finite sample settles.",
  [S], [("stack maintenance", S + ": start_task, end_task, get_stacktrace")], ["stackTrace responses"])
p("C08", "Variable references are unique, live exactly as long as their frame",
  "While a frame is on a stack, its scopes and every variables reference handed out for it resolve to the values of that frame's own host and task, nested containers expand to exactly the elements they hold with correct child counts, and no two references handed out in a session are equal. "
  "Once the task of a frame has finished, requests that use its frame id or its references get an error response and nothing else happens; the session and the play continue. "
  "Reading scopes, variables or expressions never changes what the task does.",
  ["histories", "programs", "inputs"], "all sequences of scopes, variables, setVariable and evaluate requests across stops, hosts and tasks, all variable values",
  "Tests read a few variables at one stop; reuse of stale ids, interleaved hosts and repeated scopes requests are histories they do not enumerate.",
  [S, V, D], [("reference tables", S + ": get_scopes, get_variables, _add_variable"), ("release", S + ": end_task, start_task")], ["scopes/variables responses"])
p("C09", "Setting a value changes exactly what was named, and the task sees it",
  "After a successful setVariable, or a set/remove option or set hostvar console command, the response and every later read show the new value in the named place, and all other values are as before. "
  "A module option (a top-level entry of the Module Options scope) set, added or removed is what the stopped task then runs with; a task variable set is used by that task's templating and by expressions evaluated in that frame; a host variable set is additionally visible to later tasks of that host and of no other host. "
  "A value whose expression cannot be evaluated, or an unknown index, gives an error response and changes nothing.",
  ["inputs", "histories", "programs"], "all scopes, containers, keys (including list indexes and keys that are not strings), value expressions and sequences of changes over several stops and hosts",
  "Tests set a few scalars once; which store is changed depends on scope, nesting, key type and history.",
  [S, R], [("variable stores", S + ": Ansible*Variable.set/remove"), ("evaluate", S + ": evaluate, set_variable")], ["variables responses", "arguments and variables the tasks really received"])
p("C10", "Disconnect and terminate always end the session as requested",
  "After a disconnect without terminateDebuggee the playbook stops being debugged (no further stops, breakpoints ignored) and runs to its normal end with its normal result; after a terminate request or a disconnect with terminateDebuggee no further task starts on any host once the playbook process has handled the request, as the answer to terminate shows (apart from one that was being handed over at that moment; none when the play was stopped), and the playbook process ends with a failure code unless its last play had already finished. "
  "This holds in every state: before configuration is done, between plays, while tasks are running, while stopped at a breakpoint, step or exception on any host, and after the last task. "
  "Neither request is ever left without effect or makes the playbook process or the adapter hang.",
  ["schedules", "histories", "programs"], "all session states and points of the run at which the request arrives, including its overlap with every step of the strategy thread",
  "Tests terminate or disconnect at one breakpoint; the outcome depends on which thread acts first and on states with no active play.",
  [D, S, A], [("disconnect", D + ": DisconnectRequest/TerminateRequest handlers, _disconnect, shutdown"), ("strategy", S + ": disconnect, EndStrategy"), ("adapter", A + ": _send_disconnect, stop")], ["process exit codes", "task execution records"])
p("C11", "A playbook never hangs because of its debugger connection",
  "If the debug adapter cannot be reached, refuses or drops the connection, dies or goes away at any point of the session, the playbook process is released: it is not left waiting for configuration or for a resume, ignores remaining breakpoints, runs to its normal end and exits with its normal code. "
  "If the client goes away (its end of the adapter's input closes), the adapter process ends and thereby releases the playbook in the same way. "
  "A playbook process that ends for any reason, including an error raised by Ansible in the middle of a play, exits and does not stay behind waiting for the debugger.",
  ["crash_points", "fault_sequences", "schedules"], "every point of the protocol exchange at which the peer may disappear, every state of the play, and connection faults while connecting or shaking hands",
  "The tests kill a peer at one or two points; each message boundary and each play state is a separate crash point.",
  [D, Q, H, A, CB], [("connection lifecycle", D + ": _send_task, connection_closed, shutdown"), ("receive loop", Q + ": _recv_handler"), ("adapter input loop", A + ": DAServer.start"), ("callback", CB + ": v2_playbook_on_start/on_stats")], ["process liveness and exit code"])
p("C12", "Every client request gets exactly one response of its own",
  "Every request the client sends while the debuggee is connected and the session is neither being disconnected nor terminated gets exactly one response, carrying that request's seq and command; responses to requests handled by the playbook come in the order of the requests. "
  "A request that fails (unknown id, bad value, unsupported request) gets an error response with success false and a message, and later requests and the play are unaffected. "
  "Requests that need a play get an error response while there is none; a supported request that comes before attach or launch gets an error response and ends the session; requests still unanswered when the debuggee goes away get an error response. No response is ever sent without a request.",
  ["histories", "inputs", "schedules"], "all sequences of supported requests with any arguments, valid or not, in any state in which a play is running, including bursts sent without waiting",
  "Tests send one request at a time with valid ids.",
  [D, A, S], [("dispatch and error conversion", D + ": DAProtocol.on_msg_received"), ("forwarding", A + ": DAServer.start, send_to_client")], ["adapter stdio"])
p("C13", "The adapter always ends its session in order and exactly once",
  "Whatever ends a session (client disconnect, debuggee exit, launched process failing to start or to connect, connection error, client input closing), the adapter sends exactly one terminated event and nothing that belongs to the session after its final disconnect response, answers a disconnect request exactly once and before the terminated event when that is still outstanding, and exits once the client has disconnected or closed its end (or at once when the attach or launch failed). "
  "If setting up launch or attach fails or times out, the launch or attach request itself gets an error response carrying the reason; a launched process that ends before it connects ends the session with just the terminated event. "
  "Successful launch and attach responses are sent only once the debuggee is connected, and the initialized event comes once, after them.",
  ["fault_sequences", "schedules", "histories"], "all orders of client requests, debuggee messages, debuggee exit and failures",
  "Tests exercise about ten fixed orders; simultaneous disconnect and debuggee exit is a schedule question.",
  [A, Q], [("session end", A + ": DAServer.stop, send_to_client"), ("launch/attach", A + ": _process_msg")], ["adapter stdio", "adapter exit"])
p("C14", "Protocol framing survives any chunking and any concurrency",
  "Messages from the client are decoded identically, in order and without loss however the byte stream is split into reads, whatever characters they contain and whatever additional headers precede them; a stream that skips or repeats a sequence number or lacks a content length is rejected. "
  "Messages to the client are framed with the exact byte length, are never interleaved or duplicated, and are numbered 1, 2, 3... in the order written, even when the client side and the debuggee side produce messages at the same time. "
  "Enabling logging changes none of this.",
  ["inputs", "schedules"], "all message contents, all splits of the byte stream, all interleavings of the two sending threads, all log settings",
  "Adapter tests use whole messages and one thread.",
  ["src/ansibug/dap/_adapter.py", A], [("framing", "src/ansibug/dap/_adapter.py: receive_data, next_message, queue_msg, data_to_send"), ("output", A + ": send_to_client")], ["adapter stdin/stdout bytes"])
p("C15", "DAP messages keep every field on the way in and out",
  "Every supported request, response, event and type written to JSON and read back gives an equal message: each protocol field is carried under its Debug Adapter Protocol name in the right nesting, no field is dropped, swapped or given another field's value, absent optional fields take their documented default, unknown extra fields are ignored, and enumerations map to their protocol strings. "
  "An unsuccessful response of any command reads as an error response keeping command, request and message. "
  "A message of an unknown kind is rejected and not mistaken for another.",
  ["inputs"], "all supported message types and all combinations of field values and omissions",
  "Tests check one hand-written example per message, mostly in one direction.",
  ["src/ansibug/dap/_messages.py", "src/ansibug/dap/_requests.py", "src/ansibug/dap/_responses.py", "src/ansibug/dap/_events.py", "src/ansibug/dap/_types.py"],
  [("generic packing", "src/ansibug/dap/_messages.py: DAPObjectMeta, ProtocolMessage.unpack"), ("field maps", "src/ansibug/dap/_requests.py, _responses.py, _events.py, _types.py")], ["JSON form of messages"])
p("C16", "The adapter-debuggee channel delivers in order and closes cleanly",
  "Between the two connected endpoints, over TCP or Unix socket, plain or TLS, every message of any size sent by one side before it closes is delivered to the other exactly once, complete and in order, whatever the fragmentation of the stream; then the receiver is told once that the connection is closed, with an error only if the stream broke in the middle. "
  "Stopping an endpoint at any moment, from any thread, including while it is waiting to accept, to connect, to receive or to send, makes it return promptly, report closed at most once, and remove its Unix socket file. "
  "A connection or accept that is given a timeout fails with a timeout error when it expires, and a cancelled one fails as cancelled.",
  ["schedules", "inputs", "fault_sequences"], "all message sizes and fragmentations, all moments and orders of stop, close and connection reset on either side",
  "Unit tests cover some cancellations with fixed timing and small messages.",
  [Q, H], [("channel", Q + ": MPQueue"), ("cancellation", H + ": SocketCancellationToken, SocketHelper")], ["delivered messages", "close notifications"])
p("C17", "Listening playbooks can be found, and only legitimate peers get in",
  "While a playbook listens for a debugger, a file named after its process id in the temporary directory holds the address, TLS setting and playbook needed to attach to it, attaching by that process id connects to that address with those settings, and the file is gone once the session has ended. "
  "With TLS required, a peer that fails the handshake in any way (plain text, no or untrusted certificate, dropping out midway) is turned away without ending the listener, and the next proper peer is accepted; the attaching side rejects a server whose certificate does not verify unless told to ignore it. "
  "A Unix socket created for a session is accessible only to its owner.",
  ["fault_sequences", "configurations"], "all sequences of failed peers before a good one, all TLS settings, all ends of the session",
  "TLS tests try one failing client followed by a good one.",
  [Q, H, D, "src/ansibug/_tls.py", A], [("listen and retry", Q + ": ServerMPQueue.start"), ("pid file", D + ": start, shutdown, get_pid_info_path"), ("attach lookup", A + ": AttachArguments.get_connection_tuple"), ("contexts", "src/ansibug/_tls.py")], ["pid file", "accepted peers", "socket mode"])
p("C18", "Path mappings translate both ways and only on path boundaries",
  "With path mappings configured, a breakpoint set on a client path acts on the mapped Ansible path and every source path sent to the client (stack frames, breakpoints) is the client path: the first mapping whose root equals the path or is one of its parent directories applies, and paths under no root are unchanged. "
  "A root that is merely a string prefix of another directory or file name does not match. "
  "Breakpoint sources are reported back exactly as the client named them, and replacing breakpoints for a client path works with and without mappings.",
  ["inputs", "configurations"], "all lists of mappings (nested, overlapping, with or without trailing separator) and all paths",
  "Tests use one mapping and one file.",
  [D, S, A], [("to Ansible", D + ": SetBreakpointsRequest handler"), ("to client", D + ": convert_to_client_path"), ("configuration", A + ": LaunchArguments/AttachArguments.from_json")], ["setBreakpoints responses", "stack frame sources"])
p("C19", "Starting a debug run keeps the user's configuration and arguments",
  "Starting a playbook through launch, connect or listen runs ansible-playbook with exactly the user's arguments in order, working directory and environment, adding only what debugging needs: the debugger's callback, strategy, collection path and Python path come first and everything the user had configured in those settings (by environment or configuration file) stays after them in order. "
  "The debugger options (address, mode, wait, TLS and log settings) reach the playbook process unchanged for all values, and a launched process gets the environment and arguments of the launch request verbatim, including spaces and shell metacharacters. "
  "The temporary launch script and sockets are removed once used.",
  ["configurations", "inputs"], "all environments, configuration files, arguments and option values",
  "Tests cover a couple of configurations without unusual characters.",
  [X, "src/ansibug/__main__.py", A, CB], [("environment", X + ": _exec_playbook, _configure_ansible_env"), ("launch", A + ": LaunchRequest handler")], ["argv and environment of the started process"])
p("C20", "Console commands do exactly what was typed",
  "A debug console entry starting with '!' runs the named command (remove option, set option, set hostvar, template, or its short form) on exactly the name given, quoted or not, with everything after it, unchanged, as the expression; anything that is not a valid command gives an explanatory or help text as the result and changes nothing. "
  "Entries without '!' and watch or clipboard expressions are evaluated as expressions in the selected frame and return the value and its type, or the error text, without failing the request. "
  "Console commands work at any stop, whether or not variables were looked at before.",
  ["inputs", "histories"], "all command strings: names with spaces, quotes or text that also occurs in the command or expression, empty or missing parts, unbalanced quotes, any order relative to other requests",
  "Tests cover about ten fixed strings after a scopes request.",
  [R, S], [("parser", R + ": parse_repl_args"), ("execution", S + ": evaluate")], ["evaluate responses", "options the task received"])
p("C21", "Debugging does not change what the playbook does",
  "With the debugger attached and every stop simply continued, or with nobody attached and no waiting, the playbook runs the same tasks on the same hosts in the same order with the same results, statistics and exit code as the same playbook without the debugger. "
  "This includes rescued and ignored failures, handlers, loops, includes, roles, run_once, serial batches, meta tasks that end plays or hosts, refreshed inventories and undefined variables. "
  "Breakpoint and exception settings do not change this either.",
  ["programs", "schedules"], "all playbooks and all placements of stops that are continued",
  "No test compares a debugged run with a plain run.",
  [S, CB, D], [("strategy overrides", S + ": StrategyModule"), ("callback", CB)], ["task execution records", "exit code"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
