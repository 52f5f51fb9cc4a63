---------------------------- MODULE SessionTrace ---------------------------
(***************************************************************************)
(* Did a recorded session end as it has to?  A trace:                      *)
(*   n, rc   what the playbook does without debugger (starts, exit code)   *)
(*   events  start | stop | sent(kind) | answer(ok) | fault(kind) | term   *)
(*           | pbexit(rc) | daexit(rc) | hang(who)                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, pos, starts, held, kind, heldsent, after, answered, terms, fault, viol,
          refused, \* a terminate was refused: right if the playbook was done by then
          gone   \* a disconnect was sent: earlier requests need no proper answer any more
vars == <<t, pos, starts, held, kind, heldsent, after, answered, terms, fault, refused, gone, viol>>

Tr == Traces[t]
E == Tr.events[pos]
Bad(rule, info) == {[rule |-> rule, info |-> info, pos |-> pos]}

Init ==
    /\ t \in DOMAIN Traces /\ pos = 1
    /\ starts = 0 /\ held = FALSE
    /\ kind = ""            \* "" | "disc" | "term": what was asked for
    /\ heldsent = FALSE /\ after = 0 /\ answered = FALSE /\ terms = 0
    /\ fault = "" /\ viol = {} /\ gone = FALSE /\ refused = FALSE

Terminating == kind = "term"

Step ==
    /\ pos <= Len(Tr.events)
    /\ pos' = pos + 1 /\ t' = t
    /\ CASE E.e = "start" ->
            /\ starts' = starts + 1 /\ held' = FALSE
            \* the answer to terminate comes from the playbook, that to disconnect does not
            /\ after' = IF answered /\ Terminating /\ (~gone \/ E.late) THEN after + 1 ELSE after
            /\ viol' = viol \cup (IF (after' > after /\ after' > 1) \/ (Terminating /\ heldsent)
                                    THEN Bad("task-after-terminate", ToString(<<starts', heldsent>>)) ELSE {})
            /\ UNCHANGED <<refused, gone, kind, heldsent, answered, terms, fault>>
       [] E.e = "stop" ->
            /\ held' = TRUE
            /\ viol' = viol \cup (IF answered /\ kind # "" THEN Bad("stop-after-end", kind) ELSE {})
            /\ UNCHANGED <<refused, gone, starts, kind, heldsent, after, answered, terms, fault>>
       [] E.e = "resume" ->
            /\ held' = FALSE
            /\ UNCHANGED <<refused, gone, starts, kind, heldsent, after, answered, terms, fault, viol>>
       [] E.e = "sent" ->
            /\ kind' = IF kind = "term" THEN kind ELSE E.kind
            /\ gone' = (gone \/ E.disc)
            /\ heldsent' = (heldsent \/ (held /\ E.kind = "term"))
            /\ UNCHANGED <<refused, starts, held, after, answered, terms, fault, viol>>
       [] E.e = "answer" ->
            /\ answered' = TRUE
            /\ viol' = viol \cup 
                 (IF ~E.ok /\ E.cmd = "disconnect" THEN Bad("refused", E.cmd) ELSE {})
            /\ refused' = (refused \/ (~E.ok /\ E.cmd # "disconnect" /\ terms = 0 /\ ~gone))
            /\ UNCHANGED <<gone, starts, held, kind, heldsent, after, terms, fault>>
       [] E.e = "fault" ->
            /\ fault' = E.kind
            /\ UNCHANGED <<refused, gone, starts, held, kind, heldsent, after, answered, terms, viol>>
       [] E.e = "term" ->
            /\ terms' = terms + 1
            /\ viol' = viol \cup (IF terms = 1 THEN Bad("terminated-twice", "") ELSE {})
            /\ UNCHANGED <<refused, gone, starts, held, kind, heldsent, after, answered, fault>>
       [] E.e = "pbexit" ->
            /\ viol' = viol \cup (IF refused /\ fault = "" /\ ~(starts = Tr.n /\ E.rc = Tr.rc) THEN Bad("refused", "terminate") ELSE {}) \cup
                 (IF fault \in {"int", "killpb"} THEN {}
                  ELSE IF Terminating
                    THEN (IF E.rc = 0 /\ starts < Tr.n THEN Bad("terminate-without-failure-code", ToString(<<starts, Tr.n, E.rc>>)) ELSE {})
                  ELSE (IF starts # Tr.n THEN Bad("run-incomplete", ToString(<<starts, Tr.n, E.rc>>)) ELSE {})
                    \cup (IF E.rc # Tr.rc THEN Bad("wrong-exit-code", ToString(<<E.rc, Tr.rc>>)) ELSE {}))
            /\ UNCHANGED <<refused, gone, starts, held, kind, heldsent, after, answered, terms, fault>>
       [] E.e = "daexit" ->
            /\ viol' = viol \cup (IF E.rc # 0 /\ fault # "killda" /\ Tr.attached THEN Bad("adapter-exit-code", ToString(E.rc)) ELSE {})
                 \cup (IF terms = 0 /\ fault # "killda" /\ Tr.attached THEN Bad("no-terminated-event", "") ELSE {})
            /\ UNCHANGED <<refused, gone, starts, held, kind, heldsent, after, answered, terms, fault>>
       [] E.e = "hang" ->
            /\ viol' = viol \cup Bad("hang", E.who)
            /\ UNCHANGED <<refused, gone, starts, held, kind, heldsent, after, answered, terms, fault>>
    /\ IF pos = Len(Tr.events) THEN PrintT("RES " \o ToJson([id |-> Tr.id, viol |-> viol', starts |-> starts'])) ELSE TRUE

Spec == Init /\ [][Step]_vars
=============================================================================
