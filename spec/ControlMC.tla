----------------------------- MODULE ControlMC -----------------------------
(***************************************************************************)
(* All behaviours of a client against given plays.                         *)
(*                                                                         *)
(* A play is the sequence of what Ansible does, recorded from a run without *)
(* debugger: start of an instance, result of an instance, begin and end of *)
(* a play.  (Debugging does not change it: property C21.)  The client sets *)
(* one of the given breakpoint sets and one of the given filter sets, and  *)
(* at every stop chooses any resume request.  `hist` is the script so far  *)
(* together with the stops it must lead to; complete behaviours are        *)
(* printed and replayed against the real program.                          *)
(***************************************************************************)
EXTENDS Control, Breakpoints, Json, IOUtils

CONSTANTS MaxResumes, Kinds

Programs == JsonDeserialize(IOEnv.MC_PROGRAMS)
\* Programs[p] = [ events |-> seq, marks |-> file -> seq of <<line, type>>,
\*                 bps |-> seq of seq of [k, path, req, cond],
\*                 filters |-> seq of seq of strings ]

VARIABLES prog, cfg, pos, mode, stacks, results, stopped, hist,
          was          \* host -> its last resume and what it was stopped at (for the properties)

vars == <<prog, cfg, pos, mode, stacks, results, stopped, hist, was>>

Ev      == Programs[prog].events
Marks(f) == IF f \in DOMAIN Programs[prog].marks THEN Range(Programs[prog].marks[f]) ELSE {}
\* Every file is loaded by the time one of its tasks starts.
Bps == { LET q == State(TRUE, Marks(b.path), b.req) IN
         [k |-> b.k, path |-> b.path, cond |-> b.cond, ver |-> q.ver, line |-> q.line, end |-> q.end]
         : b \in Range(Programs[prog].bps[cfg[1]]) }
Filters == Range(Programs[prog].filters[cfg[2]])
NoStop  == [r |-> "none"]

Init ==
    /\ prog \in 1..Len(Programs)
    /\ cfg \in (1..Len(Programs[prog].bps)) \X (1..Len(Programs[prog].filters))
    /\ pos = 1
    /\ mode = <<>>          \* host -> mode
    /\ stacks = <<>>        \* host -> stack
    /\ results = <<>>       \* results waiting to be looked at
    /\ stopped = NoStop
    /\ hist = <<>>
    /\ was = <<>>

ModeOf(h)  == IF Has(mode, h) THEN mode[h] ELSE RunMode
StackOf(h) == IF Has(stacks, h) THEN stacks[h] ELSE <<>>

StopEntry(reason, h, inst, stack) ==
    [ s |-> reason, h |-> h, name |-> inst.name, path |-> inst.path, line |-> inst.line,
      stack |-> [k \in DOMAIN stack |-> <<stack[k].name, stack[k].path, stack[k].line>>],
      bps |-> IF reason = "breakpoint" THEN { b.k : b \in Covering(Bps, inst) } ELSE {} ]

\* Results are looked at in order before anything else happens.
LookAtResult ==
    /\ stopped = NoStop /\ results # <<>>
    /\ LET r == results[1]
           k == ExceptionKind(r, Filters) IN
       IF k = "none"
         THEN /\ results' = Tail(results)
              /\ stacks' = Put(stacks, r.h, StackAtEnd(StackOf(r.h), r.inst.inc))
              /\ UNCHANGED <<stopped, hist>>
         ELSE /\ stopped' = [r |-> "exception", h |-> r.h, inst |-> r.inst]
              /\ hist' = Append(hist, StopEntry("exception", r.h, r.inst, StackOf(r.h)))
              /\ UNCHANGED <<results, stacks>>
    /\ UNCHANGED <<prog, cfg, pos, mode, was>>

Step ==
    /\ stopped = NoStop /\ results = <<>> /\ pos <= Len(Ev)
    /\ LET e == Ev[pos] IN
       CASE e.e = "start" ->
              LET reason == StopReason(ModeOf(e.h), e, Bps)
                  st     == StackAtStart(StackOf(e.h), e) IN
              /\ stacks' = Put(stacks, e.h, st)
              /\ IF reason = "none"
                   THEN pos' = pos + 1 /\ UNCHANGED <<stopped, hist>>
                   ELSE /\ stopped' = [r |-> reason, h |-> e.h, inst |-> e]
                        /\ hist' = Append(hist, StopEntry(reason, e.h, e, st))
                        /\ pos' = pos + 1
              /\ UNCHANGED <<mode, results, was>>
         [] e.e = "end" ->
              /\ results' = Append(results, e) /\ pos' = pos + 1
              /\ UNCHANGED <<mode, stacks, stopped, hist, was>>
         [] e.e = "endmeta" ->
              /\ pos' = pos + 1
              /\ IF e.raw = "refresh_inventory"
                   THEN mode' = <<>> /\ stacks' = <<>> /\ was' = <<>>
                   ELSE mode' = mode /\ stacks' = Put(stacks, e.h, StackAtEnd(StackOf(e.h), FALSE)) /\ UNCHANGED was
              /\ UNCHANGED <<results, stopped, hist>>
         [] e.e = "playend" ->
              /\ pos' = pos + 1 /\ mode' = <<>> /\ stacks' = <<>> /\ was' = <<>>
              /\ UNCHANGED <<results, stopped, hist>>
         [] OTHER -> pos' = pos + 1 /\ UNCHANGED <<mode, stacks, results, stopped, hist, was>>
    /\ UNCHANGED <<prog, cfg>>

NResumes == Cardinality({ k \in DOMAIN hist : "c" \in DOMAIN hist[k] })

Resume(kind) ==
    /\ stopped # NoStop
    /\ NResumes < MaxResumes \/ kind = "continue"
    /\ stopped' = NoStop
    /\ hist' = Append(hist, [c |-> kind])
    /\ mode' = IF kind = "continueAll" THEN [h \in DOMAIN mode |-> RunMode]
               ELSE Put(mode, stopped.h, AfterResume(kind, stopped.inst))
    /\ was' = IF kind = "continueAll" THEN <<>> ELSE Put(was, stopped.h, [c |-> kind, inst |-> stopped.inst])
    /\ IF stopped.r = "exception"
         THEN /\ results' = Tail(results)
              /\ stacks' = Put(stacks, stopped.h, StackAtEnd(StackOf(stopped.h), stopped.inst.inc))
         ELSE UNCHANGED <<results, stacks>>
    /\ UNCHANGED <<prog, cfg, pos>>

Done == stopped = NoStop /\ results = <<>> /\ pos > Len(Ev)

Report ==
    /\ Done
    /\ pos <= Len(Ev) + 1
    /\ pos' = Len(Ev) + 2
    /\ PrintT("BEH " \o ToJson([prog |-> prog, cfg |-> cfg, hist |-> hist]))
    /\ UNCHANGED <<prog, cfg, mode, stacks, results, stopped, hist, was>>

Next == Step \/ LookAtResult \/ Report \/ \E k \in Kinds : Resume(k)

Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(LookAtResult) /\ WF_vars(Report)
             /\ WF_vars(\E k \in Kinds : Resume(k))

(* What the model itself must satisfy, checked on every reachable state. *)

\* A stop is never reported while another is pending, and nothing moves.
OneStop == stopped # NoStop => hist # <<>> /\ "s" \in DOMAIN hist[Len(hist)]

\* A stack never holds an include the top task is not nested in.
StackIsChain ==
    \A h \in DOMAIN stacks :
        LET s == stacks[h] IN
        \A j, k \in DOMAIN s : j < k => s[j].u # s[k].u

\* A pending step over never stops deeper, and step out never inside.
StopsConform ==
    stopped # NoStop /\ stopped.r = "step" =>
        LET m == ModeOf(stopped.h) IN
        /\ m.m = "over" => Scope(stopped.inst) = m.ref
        /\ m.m = "out"  => m.ref \notin Range(stopped.inst.chain)

\* The stopped task is on top; below are includes it is nested in, innermost first.
RECURSIVE Subsequence(_, _)
Subsequence(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                     ELSE IF s[1] = t[1] THEN Subsequence(Tail(s), Tail(t)) ELSE Subsequence(s, Tail(t))
Resets == {i \in 1..(pos - 1) : i <= Len(Ev) /\ (Ev[i].e = "playend" \/ (Ev[i].e = "endmeta" /\ Ev[i].raw = "refresh_inventory"))}
Entered(h) == {Ev[i].u : i \in {x \in 1..(pos - 1) :
                    /\ Ev[x].e = "start" /\ Ev[x].h = h /\ \A r \in Resets : r < x
                    \* and has not left since, as for a handler flushed inside of it
                    /\ \A k \in (x + 1)..(pos - 1) : (k <= Len(Ev) /\ Ev[k].e = "start" /\ Ev[k].h = h) => Ev[x].u \in Range(Ev[k].chain)}}
StackOfStopped ==
    stopped # NoStop => LET s == stacks[stopped.h] IN
        /\ s # <<>> /\ s[1].u = stopped.inst.u
        /\ Subsequence([j \in 1..(Len(s) - 1) |-> s[j + 1].u], stopped.inst.chain)
        \* every include the host itself has gone into is there
        /\ Len(s) - 1 = Cardinality({j \in DOMAIN stopped.inst.chain : stopped.inst.chain[j] \in Entered(stopped.h)})

\* A client that only continues sees the covered tasks and the uncaught results,
\* each once, in the order they happen.
Unhandled(r) ==
    \/ r.failed /\ ~r.ign /\ ~r.cov /\ "on_error" \in Filters
    \/ ~(r.failed /\ ~r.ign) /\ r.unreach /\ ~r.ignu /\ "on_unreachable" \in Filters
    \/ ~(r.failed /\ ~r.ign) /\ ~(r.unreach /\ ~r.ignu) /\ r.skipped /\ "on_skipped" \in Filters
RECURSIVE PlainStops(_)
PlainStops(n) ==
    IF n = 0 THEN <<>>
    ELSE LET e == Ev[n] IN
         PlainStops(n - 1) \o
         (IF e.e = "start" /\ \E b \in Bps : b.ver /\ e.path = b.path /\ e.line >= b.line /\ ~(b.end # -1 /\ b.end < e.line) /\ CondTrue(b, e.h)
            THEN << <<"breakpoint", e.h, e.name>> >>
          ELSE IF e.e = "end" /\ Unhandled(e) THEN << <<"exception", e.h, e.inst.name>> >> ELSE <<>>)
OnlyContinues == \A k \in DOMAIN hist : "c" \in DOMAIN hist[k] => hist[k].c \in {"continue", "continueAll"}
Seen == LET st == SelectSeq(hist, LAMBDA x : "s" \in DOMAIN x) IN [k \in DOMAIN st |-> <<st[k].s, st[k].h, st[k].name>>]
PlainRun == (stopped = NoStop /\ results = <<>> /\ OnlyContinues) => Seen = PlainStops(IF pos > Len(Ev) THEN Len(Ev) ELSE pos - 1)

\* While a host steps out breakpoints are ignored.
OutIgnoresBreakpoints == (stopped # NoStop /\ stopped.r = "breakpoint") => ModeOf(stopped.h).m # "out"

\* A step stops where it is to, said by the request and the task it was made at:
\* in on an include: the very next task; over, and in elsewhere: the next whose
\* innermost include is the same; out: the first outside of the innermost include.
SameLevel(a, b) == (a.chain = <<>> /\ b.chain = <<>>) \/ (a.chain # <<>> /\ b.chain # <<>> /\ Head(a.chain) = Head(b.chain))
WantsStop(w, e) ==
    CASE w.c = "stepIn" /\ w.inst.inc -> TRUE
      [] w.c \in {"next", "stepIn"} -> SameLevel(w.inst, e)
      [] w.c = "stepOut" -> w.inst.chain # <<>> /\ \A j \in DOMAIN e.chain : e.chain[j] # Head(w.inst.chain)
      [] OTHER -> FALSE
StepsStop == [][ (pos' = pos + 1 /\ pos <= Len(Ev) /\ Ev[pos].e = "start" /\ Ev[pos].path # "") =>
    LET e == Ev[pos] IN
    (stopped' # NoStop /\ stopped'.r = "step") <=> (e.h \in DOMAIN was /\ WantsStop(was[e.h], e)) ]_vars

\* Every behaviour ends: the play is never left hanging at a stop that was answered.
Finishes == <>(pos = Len(Ev) + 2)
=============================================================================
