------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* How a debug session ends.                                               *)
(*                                                                         *)
(* Four parties: the client, the debug adapter, the debuggee's receive     *)
(* thread and the strategy thread of the playbook.  The client (or a       *)
(* fault) ends the session at any moment by one of Endings; the            *)
(* specification says which results that may have.  `script` is what the   *)
(* client did and saw, so a finished behaviour is a test for the program.  *)
(*                                                                         *)
(* A case: [n    number of task instances the playbook starts,             *)
(*          stops  the instances with a breakpoint,                        *)
(*          slow   the instances that take long enough to act meanwhile,   *)
(*          wait   whether it waits for the configuration to be done]      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Endings

Cases == JsonDeserialize(IOEnv.MC_CASES)
Range(s) == { s[i] : i \in DOMAIN s }

VARIABLES case,
          pb,       \* "listen" "wait" "run" "exec" "woken" "held" "stopping" "done" "exit"
          k,        \* instances started so far
          code,     \* "none" "normal" "fail" "killed"
          link,     \* "none" "up" "cut" (broken, not noticed yet) "down"
          q,        \* messages on their way to the debuggee
          conf, dbg, term,
          cl,       \* what the client knows: "idle" "attached" "free" "sawstop" "over"
          ended,    \* "" or the ending chosen
          at,       \* instances started when it was answered (99: not yet)
          script
vars == <<case, pb, k, code, link, q, conf, dbg, term, cl, ended, at, script>>

C == Cases[case]
Stops == Range(C.stops)
Slow == Range(C.slow)

Init ==
    /\ case \in DOMAIN Cases
    /\ pb = IF C.wait THEN "listen" ELSE "run"
    /\ k = 0 /\ code = "none" /\ link = "none" /\ q = <<>>
    /\ conf = ~C.wait /\ dbg = C.wait /\ term = FALSE
    /\ cl = "idle" /\ ended = "" /\ at = 99 /\ script = <<>>

Alive == pb # "exit"

(***************************** the client *********************************)
Attach ==
    /\ cl = "idle" /\ ended = "" /\ C.wait /\ pb = "listen"
    /\ link' = "up" /\ cl' = "attached" /\ pb' = "wait"
    /\ script' = Append(script, [do |-> "attach", k |-> 0])
    /\ UNCHANGED <<case, k, code, q, conf, dbg, term, ended, at>>

Config ==
    /\ cl = "attached" /\ ended = ""
    /\ q' = Append(q, "conf") /\ cl' = "free"
    /\ script' = Append(script, [do |-> "config", k |-> 0])
    /\ UNCHANGED <<case, pb, k, code, link, conf, dbg, term, ended, at>>

Resume ==
    /\ cl = "sawstop" /\ ended = ""
    /\ q' = Append(q, "resume") /\ cl' = "free"
    /\ script' = Append(script, [do |-> "resume", k |-> k])
    /\ UNCHANGED <<case, pb, k, code, link, conf, dbg, term, ended, at>>

\* The point at which the ending comes, as the client can tell it apart.
Last == IF script = <<>> THEN "none" ELSE script[Len(script)].do
Point ==
    CASE cl = "idle" /\ pb = "listen" -> "listen"
      [] cl = "attached" -> "attached"
      [] cl = "sawstop" -> "stop"
      [] cl = "free" /\ pb = "exec" /\ k \in Slow /\ q = <<>> -> "running"
      [] cl = "free" /\ q # <<>> /\ Last \in {"config", "resume"} -> "burst"
      [] cl = "over" -> "over"
      [] OTHER -> "no"

\* What each ending does at once.  Terminating takes two steps: stops are
\* switched off before the play is told to end.
NeedsLink(e) == e \in {"disc", "discT", "term", "termdisc", "resumedisc"}
Messages(e) ==
    CASE e = "disc" -> <<"disc">>
      [] e = "discT" -> <<"ending">>
      [] e = "term" -> <<"ending">>
      [] e = "termdisc" -> <<"ending", "disc">>
      [] OTHER -> <<>>

End(e) ==
    /\ ended = "" /\ Point # "no"
    /\ Point = "listen" => e \in {"probe", "int", "killpb"}
    /\ Point # "listen" => e # "probe"
    /\ Point = "over" => e \in {"disc", "discT", "term", "eof", "killda"}
    /\ ended' = e
    /\ script' = Append(script, [do |-> e, k |-> IF Point = "stop" THEN k + 1 ELSE k, point |-> Point])
    /\ IF e \in {"int", "killpb"}
         THEN /\ pb' = "exit" /\ code' = "killed"
              /\ UNCHANGED <<q, link>>
       ELSE IF link = "up"
         THEN /\ q' = q \o Messages(e)
              /\ link' = IF e \in {"eof", "killda", "cut"} THEN "cut" ELSE link
              /\ UNCHANGED <<pb, code>>
       ELSE IF e = "probe" THEN link' = "cut" /\ pb' = "wait" /\ UNCHANGED <<q, code>>
       ELSE UNCHANGED <<q, link, pb, code>>
    /\ UNCHANGED <<case, k, conf, dbg, term, cl, at>>

(************************* debuggee: receive ******************************)
\* A cut may lose what is under way.
Lose ==
    /\ link = "cut" /\ q # <<>> /\ Alive
    /\ q' = <<>>
    /\ UNCHANGED <<case, pb, k, code, link, conf, dbg, term, cl, ended, at, script>>

Receive ==
    /\ q # <<>> /\ Alive
    /\ LET m == Head(q) IN
         /\ q' = IF m = "ending" THEN <<"term">> \o Tail(q) ELSE Tail(q)
         /\ dbg' = (dbg /\ m \notin {"disc", "ending", "term"})
         /\ term' = (term \/ m = "term")
         /\ link' = IF m \in {"disc", "term"} THEN "down" ELSE link
         /\ conf' = (conf \/ m \in {"conf", "disc", "term"})
         /\ at' = IF m \in {"disc", "term"} /\ at = 99 THEN k ELSE at
         /\ pb' = IF pb = "held" /\ m \in {"resume", "disc"} THEN "woken"
                  ELSE IF pb = "held" /\ m = "term" THEN "stopping"
                  ELSE pb
    /\ UNCHANGED <<case, k, code, cl, ended, script>>

\* The connection is found to be gone.
Lost ==
    /\ link = "cut" /\ q = <<>> /\ Alive
    /\ link' = "down" /\ dbg' = FALSE /\ conf' = TRUE
    /\ pb' = IF pb = "held" THEN "woken" ELSE pb
    /\ UNCHANGED <<case, k, code, q, term, cl, ended, at, script>>

(************************* debuggee: strategy *****************************)
Begin ==
    /\ pb = "wait" /\ conf
    /\ pb' = "run"
    /\ UNCHANGED <<case, k, code, link, q, conf, dbg, term, cl, ended, at, script>>

NextTask ==
    /\ pb = "run" /\ k < C.n
    /\ IF term THEN pb' = "stopping" /\ UNCHANGED <<k, cl>>
       ELSE IF dbg /\ (k + 1) \in Stops
         THEN /\ pb' = "held" /\ k' = k
              /\ cl' = IF cl = "free" THEN "sawstop" ELSE cl
       ELSE pb' = "exec" /\ k' = k + 1 /\ UNCHANGED cl
    /\ UNCHANGED <<case, code, link, q, conf, dbg, term, ended, at, script>>

\* The task it was held at starts, unless a terminate came right behind.
Woken ==
    /\ pb = "woken"
    /\ \/ pb' = "exec" /\ k' = k + 1
       \/ term /\ pb' = "stopping" /\ k' = k
    /\ UNCHANGED <<case, code, link, q, conf, dbg, term, cl, ended, at, script>>

Executed ==
    /\ pb = "exec"
    /\ pb' = "run"
    /\ UNCHANGED <<case, k, code, link, q, conf, dbg, term, cl, ended, at, script>>

Finish ==
    /\ \/ pb = "run" /\ k = C.n
       \/ pb = "stopping"
    /\ pb' = "done"
    /\ code' \in (IF pb = "stopping" THEN {"fail"} ELSE IF term THEN {"normal", "fail"} ELSE {"normal"})
    /\ UNCHANGED <<case, k, link, q, conf, dbg, term, cl, ended, at, script>>

Exit ==
    /\ pb = "done"
    /\ pb' = "exit" /\ link' = "down" /\ q' = <<>>
    /\ cl' = IF cl = "idle" THEN cl ELSE "over"
    /\ UNCHANGED <<case, k, code, conf, dbg, term, ended, at, script>>

Client == Attach \/ Config \/ Resume \/ \E e \in Endings : End(e)
Play == Receive \/ Lose \/ Lost \/ Begin \/ Woken \/ NextTask \/ Executed \/ Finish \/ Exit
Next == Client \/ Play
Spec == Init /\ [][Next]_vars /\ WF_vars(Play) /\ WF_vars(Attach) /\ WF_vars(Config) /\ WF_vars(Resume)

(****************************** properties ********************************)
TypeOK == pb \in {"listen", "wait", "run", "exec", "woken", "held", "stopping", "done", "exit"} /\ k \in 0..C.n
\* C10: once a terminate request took effect at most the task being handed
\* over still starts, and the process ends with a failure unless it was over.
NothingAfterTerminate == term => k <= at + 1
TerminateFails == (pb = "exit" /\ code = "normal" /\ term) => k = C.n
\* C10/C11: a session that ended in any other way leaves a complete normal run.
OtherwiseComplete == (pb = "exit" /\ ~term /\ code # "killed") => (k = C.n /\ code = "normal")
NoStopAfterwards == [][(~dbg /\ pb # "held") => pb' # "held"]_vars
\* C11: it never hangs.
Ends == <>(pb = "exit")

Emit == (pb = "exit" /\ (ended # "" \/ ~ENABLED (\E e \in Endings : End(e)))) =>
          PrintT("BEH " \o ToJson([case |-> case, script |-> script, k |-> k, code |-> code]))
=============================================================================
