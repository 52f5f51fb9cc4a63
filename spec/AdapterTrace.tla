---------------------------- MODULE AdapterTrace ----------------------------
(***************************************************************************)
(* What real adapters sent, judged by the invariants of Adapter.           *)
(*                                                                         *)
(* A recorded session is a final state of Adapter: everything the client   *)
(* was sent, what it had asked, which of that the adapter must have taken, *)
(* and how the adapter ended.  On top of that: what passed through it.     *)
(***************************************************************************)
EXTENDS Adapter, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLE tr

T == Traces[tr]
RangeOf(s) == {s[k] : k \in DOMAIN s}

TInit ==
    /\ tr \in DOMAIN Traces
    /\ log = T.log /\ n = Len(T.kinds) /\ kind = T.kinds
    /\ seen = RangeOf(T.seen) /\ open = T.open /\ exit = T.exit
    /\ asked = T.asked
    /\ ph = IF T.pgone THEN "gone" ELSE IF T.conn THEN "conn" ELSE "new"
    /\ cq = <<>> /\ pq = <<>> /\ closed = FALSE /\ pgone = T.pgone /\ hist = <<>> /\ mark = 0

TNext == FALSE /\ UNCHANGED <<vars, tr>>
TSpec == TInit /\ [][TNext]_<<vars, tr>>

-----------------------------------------------------------------------------
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in DOMAIN a : a[k] = b[k]

EventsOf(l) == SelectSeq(l, LAMBDA x : x.t = "ev" /\ x.e # "terminated")
\* the debuggee's events arrive in order, each once; all of them if it left first
EventsPass ==
    LET got == [k \in DOMAIN EventsOf(log) |-> EventsOf(log)[k].e] IN
    /\ IsPrefix(got, T.events)
    /\ T.allevents => Len(got) = Len(T.events)

\* the debuggee gets the forwarded requests in order, each once, unchanged
RequestsPass ==
    /\ IsPrefix(T.got, T.forwarded)
    /\ T.allgot => T.got = T.forwarded

\* what the debuggee answered is what the client gets, unless the end came between
AnswersPass ==
    \A k \in DOMAIN T.answers :
        LET a == T.answers[k] IN
        \E j \in DOMAIN log : /\ log[j].t = "resp" /\ log[j].i = a.i
                              /\ log[j].ok = a.ok \/ (T.racing /\ ~log[j].ok)

\* success is not reported before the debuggee is connected
ConnectedFirst == T.early = <<>>

\* the response is for the command it was asked, errors say why
WellFormed == T.malformed = <<>>

Exits == T.exit \in {"ok", "error"}

Rules == [ one_of_its_own |-> OneOfItsOwn, all_answered |-> AllAnswered, terminated_once |-> TerminatedOnce,
           quiet_after_terminated |-> QuietAfterTerminated, disconnect_first |-> DisconnectFirst,
           failures_answered |-> FailuresAnswered, initialized_once |-> InitializedOnce,
           events_pass |-> EventsPass, requests_pass |-> RequestsPass, answers_pass |-> AnswersPass,
           connected_first |-> ConnectedFirst, well_formed |-> WellFormed, exits |-> Exits ]

Judge == PrintT("RES " \o ToJson([id |-> T.id, bad |-> {r \in DOMAIN Rules : ~Rules[r]}]))
=============================================================================
