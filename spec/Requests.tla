------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* What becomes of each kind of request in each phase of a debugged play.  *)
(*                                                                         *)
(* A session is a sequence of bursts: before the configuration, at stops,  *)
(* right after a resume while tasks run, and after the end.  Every request *)
(* gets exactly one response; whether it succeeds depends on the phase and *)
(* on what its argument refers to, never on the requests before it - other *)
(* than through the state below.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Stops,      \* number of stops of the play
          MaxBurst
          \* (simulated: behaviours are drawn at random, a burst is ended by chance)

VARIABLES phase,      \* "pre" | "stop" | "run" | "over"
          at,         \* stops so far
          hist, burst

vs == <<phase, at, hist, burst>>

NeedsPlay == {"threads", "stack", "stack-main", "stack-unknown", "scopes", "scopes-unknown", "scopes-stale", "vars", "vars-unknown",
              "vars-stale", "eval", "eval-stale", "set", "set-unknown", "set-badvalue", "continue-unknown", "next-unknown",
              "stepIn-unknown", "stepOut-unknown"}
Always == {"setbps", "setexc", "confdone"}
Never == {"unsupported", "initialize", "attach"}
Classes == NeedsPlay \cup Always \cup Never

Expect(c) ==
    IF c \in Never THEN "error"
    ELSE IF phase = "over" THEN "error"
    ELSE IF phase = "run" THEN "any"      \* the play may be over any moment
    ELSE IF c \in Always THEN "ok"
    ELSE IF phase = "pre" THEN "error"
    ELSE CASE c \in {"threads", "stack", "stack-main"} -> "ok"
           [] c \in {"scopes", "eval"} -> "ok"
           [] c \in {"vars", "set"} -> "ok"
           [] OTHER -> "error"

\* a stale id needs an earlier stop, a live one the stop of now
Possible(c) ==
    /\ c \in {"scopes-stale", "vars-stale", "eval-stale"} => at > 1
    /\ c \in {"scopes", "vars", "eval", "set"} => phase \in {"stop", "run", "over"}
    /\ c = "confdone" => phase # "pre"

Init == phase = "pre" /\ at = 0 /\ hist = <<>> /\ burst = <<>>

Send(c) ==
    /\ Len(burst) < MaxBurst /\ Possible(c)
    /\ burst' = Append(burst, [c |-> c, want |-> Expect(c)])
    /\ UNCHANGED <<phase, at, hist>>

Close == hist' = Append(hist, [phase |-> phase, at |-> at, reqs |-> burst]) /\ burst' = <<>>

Move ==
    /\ phase # "done" /\ Close
    /\ Len(burst) >= (IF phase = "run" THEN 0 ELSE 2)
    /\ CASE phase = "pre" -> phase' = "stop" /\ at' = 1
         [] phase = "stop" -> phase' = "run" /\ at' = at
         [] phase = "run" /\ at < Stops -> phase' = "stop" /\ at' = at + 1
         [] phase = "run" /\ at = Stops -> phase' = "over" /\ at' = at
         [] phase = "over" -> phase' = "done" /\ at' = at

Next == \/ phase # "done" /\ \E c \in Classes : Send(c)
        \/ Move

View == <<phase, at, burst>>

Spec == Init /\ [][Next]_vs

-----------------------------------------------------------------------------
\* nothing but a play's absence or a bad argument makes a supported request fail
Total == \A c \in Classes : Expect(c) \in {"ok", "error", "any"}
NoSuccessOutsidePlay == phase \in {"pre", "over"} => \A c \in NeedsPlay : Expect(c) = "error"

Emit == phase = "done" => PrintT("BEH " \o ToJson(hist))
=============================================================================
