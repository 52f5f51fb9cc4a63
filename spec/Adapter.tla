------------------------------- MODULE Adapter -------------------------------
(***************************************************************************)
(* The debug adapter between one client and one debuggee.                  *)
(*                                                                         *)
(* The client's messages and the debuggee's messages wait in two queues    *)
(* which the adapter consumes in any interleaving.  Every request is known *)
(* by the number of its message.  `log' is what the client is sent.        *)
(*                                                                         *)
(* With Quiet the outside world acts only when the adapter has nothing     *)
(* left to do; each behaviour then says exactly what comes after each act  *)
(* (`hist') and is replayed into the real adapter.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Quiet,      \* TRUE: one act at a time, behaviours are printed
          MaxActs,    \* length of a behaviour
          Mode        \* "attach" | "launch"

VARIABLES ph,         \* new | asked | conn | gone
          asked,      \* the launch request the terminal was asked for, or 0
          open,       \* requests the debuggee has not answered, in order
          n,          \* requests sent by the client
          kind,       \* what each of them is
          cq, pq,     \* messages on their way to the adapter
          log,        \* everything sent to the client
          seen,       \* requests the adapter has taken
          exit,       \* "run" | "ok" | "error"
          closed,     \* the client closed its end
          pgone,      \* the debuggee closed its end
          hist, mark  \* acts, each with what was sent after it (Quiet)

vars == <<ph, asked, open, n, kind, cq, pq, log, seen, exit, closed, pgone, hist, mark>>

R(i, ok) == [t |-> "resp", i |-> i, ok |-> ok]
Ev(e) == [t |-> "ev", e |-> e]
RunInTerminal == [t |-> "run"]
Errs(s) == [k \in DOMAIN s |-> R(s[k], FALSE)]

Has(tok) == \E k \in DOMAIN log : log[k] = tok
Term == IF Has(Ev("terminated")) THEN <<>> ELSE <<Ev("terminated")>>

Init ==
    /\ ph = "new" /\ asked = 0 /\ open = <<>> /\ n = 0 /\ kind = <<>>
    /\ cq = <<>> /\ pq = <<>> /\ log = <<>> /\ seen = {} /\ exit = "run" /\ closed = FALSE /\ pgone = FALSE
    /\ hist = <<>> /\ mark = 0

-----------------------------------------------------------------------------
(* The adapter *)

Send(toks) == log' = log \o toks

\* the request itself gets the reason, then the session is over
Fail(i) ==
    /\ Send(<<R(i, FALSE)>> \o Term)
    /\ exit' = "error"
    /\ UNCHANGED <<ph, asked, open>>

Connected(i) ==
    /\ Send(<<R(i, TRUE)>>)
    /\ ph' = "conn" /\ pq' = Append(pq, [k |-> "ev", e |-> "initialized"])
    /\ UNCHANGED <<open, exit>>

\* a request for the debuggee
Forward(i) ==
    IF ph = "conn" THEN /\ open' = Append(open, i)
                        /\ UNCHANGED <<ph, asked, log, exit, pq>>
    ELSE IF ph = "new" THEN /\ Fail(i) /\ UNCHANGED pq
    ELSE /\ Send(<<R(i, FALSE)>>)
         /\ UNCHANGED <<ph, asked, open, exit, pq>>

Answers == {"term-run", "term-dies", "term-never", "term-error"}
Request(m) == m.k \notin Answers \cup {"eof"}

TakeClient ==
    /\ exit = "run" /\ cq # <<>>
    /\ LET m == Head(cq) IN
       /\ cq' = Tail(cq)
       /\ seen' = IF Request(m) THEN seen \cup {m.i} ELSE seen
       /\ CASE m.k = "disconnect" ->
                 \* answered before the session is reported as terminated; what
                 \* the debuggee still owes is answered with an error
                 /\ Send(<<R(m.i, TRUE)>> \o Errs(open) \o Term)
                 /\ exit' = "ok" /\ open' = <<>>
                 /\ UNCHANGED <<ph, asked, pq>>
            [] m.k = "eof" ->
                 /\ Send(Errs(open) \o Term)
                 /\ exit' = "ok" /\ open' = <<>>
                 /\ UNCHANGED <<ph, asked, pq>>
            [] m.k = "unsupported" ->
                 /\ Send(<<R(m.i, FALSE)>>)
                 /\ UNCHANGED <<ph, asked, open, exit, pq>>
            [] m.k = "initialize" /\ ph = "new" ->
                 /\ Send(<<R(m.i, TRUE)>>)
                 /\ UNCHANGED <<ph, asked, open, exit, pq>>
            [] m.k = "attach-ok" /\ ph = "new" -> Connected(m.i) /\ UNCHANGED asked
            [] m.k = "launch-ok" /\ ph = "new" ->
                 /\ Send(<<RunInTerminal>>)
                 /\ ph' = "asked" /\ asked' = m.i
                 /\ UNCHANGED <<open, exit, pq>>
            [] m.k \in {"attach-bad", "launch-bad"} /\ ph = "new" -> Fail(m.i) /\ UNCHANGED pq
            [] m.k = "term-run" -> Connected(asked) /\ UNCHANGED asked
            [] m.k = "term-dies" ->
                 \* the process ended before it connected
                 /\ Send(Term) /\ ph' = "gone"
                 /\ UNCHANGED <<asked, open, exit, pq>>
            [] m.k = "term-never" -> Fail(asked) /\ UNCHANGED pq
            [] OTHER -> Forward(m.i)
    /\ UNCHANGED <<n, kind, closed, pgone, hist, mark>>

Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

TakePeer ==
    /\ exit = "run" /\ pq # <<>>
    /\ LET m == Head(pq) IN
       /\ pq' = Tail(pq)
       /\ CASE m.k = "ev" -> /\ Send(<<Ev(m.e)>>) /\ UNCHANGED <<ph, open>>
            [] m.k = "ans" -> /\ Send(<<R(m.i, m.ok)>>) /\ open' = Without(open, m.i) /\ UNCHANGED ph
            [] m.k = "close" -> /\ Send(Errs(open) \o Term) /\ ph' = "gone" /\ open' = <<>>
    /\ UNCHANGED <<asked, n, kind, cq, seen, exit, closed, pgone, hist, mark>>

-----------------------------------------------------------------------------
(* The world around it *)

Idle == cq = <<>> /\ pq = <<>> /\ (Mode = "launch" => open = <<>>)
MayAct == Len(hist) < MaxActs /\ exit = "run" /\ (Quiet => Idle)

\* closes the entry of the act before with what was sent since
Noted == IF hist = <<>> \/ ~Quiet THEN hist
         ELSE [hist EXCEPT ![Len(hist)] = [@ EXCEPT !.out = SubSeq(log, mark + 1, Len(log))]]

Act(a) == /\ hist' = Append(Noted, [a |-> a, out |-> <<>>])
          /\ mark' = Len(log)

Kinds == IF Mode = "attach"
         THEN {"initialize", "attach-ok", "attach-bad", "forward", "unsupported", "disconnect"}
         ELSE {"initialize", "launch-ok", "launch-bad", "forward", "unsupported", "disconnect"}

\* what is sent at most so often
Few(k) == LET c == Cardinality({i \in DOMAIN kind : kind[i] = k})
          IN CASE k \in {"forward"} -> c < 3
               [] k \in {"initialize", "unsupported"} -> c < (IF Mode = "attach" /\ k = "unsupported" THEN 2 ELSE 1)
               [] OTHER -> c < 2

\* a launched debuggee is a real playbook waiting for its configuration: it answers by itself
AutoAnswer == Mode = "launch"

\* a client whose launched process died hears of the end and leaves
Over == \E j \in DOMAIN hist : hist[j].a = "term-dies"

ClientSends(k) ==
    /\ MayAct /\ ~closed /\ Few(k)
    /\ Over => k \in {"unsupported", "disconnect"}
    /\ n' = n + 1 /\ kind' = Append(kind, k)
    /\ cq' = Append(cq, [k |-> k, i |-> n + 1])
    /\ Act(k)
    /\ UNCHANGED <<ph, asked, open, pq, log, seen, exit, closed, pgone>>

ClientAnswers(k) ==
    /\ MayAct /\ ~closed /\ ph = "asked" /\ ~\E j \in DOMAIN hist : hist[j].a \in Answers
    /\ Quiet \/ ~\E j \in DOMAIN cq : cq[j].k \in Answers
    /\ cq' = Append(cq, [k |-> k, i |-> 0])
    /\ Act(k)
    /\ UNCHANGED <<ph, asked, open, n, kind, pq, log, seen, exit, closed, pgone>>

ClientCloses ==
    /\ MayAct /\ ~closed
    /\ closed' = TRUE /\ cq' = Append(cq, [k |-> "eof", i |-> 0])
    /\ Act("eof")
    /\ UNCHANGED <<ph, asked, open, n, kind, pq, log, seen, exit, pgone>>

Answered(i) == \E k \in DOMAIN pq : pq[k].k = "ans" /\ pq[k].i = i
PeerAnswers(ok) ==
    /\ MayAct /\ ph = "conn" /\ ~pgone /\ ~AutoAnswer
    /\ \E k \in DOMAIN open : ~Answered(open[k])
    /\ LET i == open[CHOOSE k \in DOMAIN open : ~Answered(open[k]) /\ \A j \in 1..(k - 1) : Answered(open[j])]
       IN pq' = Append(pq, [k |-> "ans", i |-> i, ok |-> ok])
    /\ Act(IF ok THEN "answer-ok" ELSE "answer-error")
    /\ UNCHANGED <<ph, asked, open, n, kind, cq, log, seen, exit, closed, pgone>>

PeerEvent ==
    /\ MayAct /\ ph = "conn" /\ ~pgone /\ ~AutoAnswer
    /\ Cardinality({j \in DOMAIN hist : hist[j].a = "event"}) < 1
    /\ pq' = Append(pq, [k |-> "ev", e |-> "output"])
    /\ Act("event")
    /\ UNCHANGED <<ph, asked, open, n, kind, cq, log, seen, exit, closed, pgone>>

PeerCloses(how) ==
    /\ MayAct /\ ph = "conn" /\ ~pgone
    /\ pgone' = TRUE
    /\ pq' = Append(pq, [k |-> "close"])
    /\ Act(how)
    /\ UNCHANGED <<ph, asked, open, n, kind, cq, log, seen, exit, closed>>

\* the real playbook answers what it is asked
Auto ==
    /\ AutoAnswer /\ exit = "run" /\ open # <<>> /\ ~pgone /\ ~Answered(open[1])
    /\ pq' = Append(pq, [k |-> "ans", i |-> open[1], ok |-> FALSE])
    /\ UNCHANGED <<ph, asked, open, n, kind, cq, log, seen, exit, closed, pgone, hist, mark>>

\* the last act's entry is completed
Finish ==
    /\ Quiet /\ (exit # "run" \/ (Idle /\ Len(hist) = MaxActs))
    /\ hist # <<>> /\ hist # Noted
    /\ hist' = Noted
    /\ UNCHANGED <<ph, asked, open, n, kind, cq, pq, log, seen, exit, closed, pgone, mark>>

Next ==
    \/ TakeClient \/ TakePeer \/ Auto \/ Finish
    \/ \E k \in Kinds : ClientSends(k)
    \/ \E k \in Answers \ {"term-error"} : ClientAnswers(k)
    \/ ClientCloses
    \/ \E ok \in BOOLEAN : PeerAnswers(ok)
    \/ PeerEvent
    \/ \E h \in {"close", "cut"} : PeerCloses(h)

Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(TakeClient) /\ WF_vars(TakePeer) /\ WF_vars(Auto)

-----------------------------------------------------------------------------
(* C12 *)
Responses(i) == {k \in DOMAIN log : log[k].t = "resp" /\ log[k].i = i}
OneOfItsOwn ==
    /\ \A i \in 1..n : Cardinality(Responses(i)) <= 1
    /\ \A k \in DOMAIN log : log[k].t = "resp" => log[k].i \in seen
\* whatever was taken is answered, waits for the debuggee, or is a launch whose process never connected
AllAnswered ==
    \A i \in seen : Responses(i) # {} \/ (exit = "run" /\ i \in {open[k] : k \in DOMAIN open})
                      \/ (i = asked /\ ~\E k \in DOMAIN log : log[k] = R(i, TRUE))

(* C13 *)
TermAt == {k \in DOMAIN log : log[k] = Ev("terminated")}
TerminatedOnce ==
    /\ Cardinality(TermAt) <= 1
    /\ (exit # "run" \/ ph = "gone") => TermAt # {}
\* nothing of the session afterwards
QuietAfterTerminated ==
    \A t \in TermAt, k \in DOMAIN log :
        k > t => /\ log[k].t = "resp"
                 /\ log[k].ok => kind[log[k].i] = "disconnect"
DisconnectFirst ==
    \A i \in seen : kind[i] = "disconnect" =>
        /\ Cardinality(Responses(i)) = 1
        /\ \A t \in TermAt : exit = "ok" /\ ph # "gone" => \A k \in Responses(i) : k < t
FailuresAnswered ==
    \A i \in seen : kind[i] \in {"attach-bad", "launch-bad"} => Responses(i) # {} \/ i \in {open[k] : k \in DOMAIN open}
InitializedOnce ==
    LET at == {k \in DOMAIN log : log[k] = Ev("initialized")} IN
    /\ Cardinality(at) <= 1
    /\ \A k \in at : \E j \in 1..(k - 1) : log[j].t = "resp" /\ log[j].ok /\ kind[log[j].i] \in {"attach-ok", "launch-ok"}

\* once the client has closed its end or asked to disconnect, or setting up failed, the adapter ends
Ends == \A k \in 1..4 : (\E j \in DOMAIN cq : cq[j].k \in {"eof", "disconnect"}) ~> exit # "run"

Emit ==
    (Quiet /\ hist # <<>> /\ hist = Noted /\ (exit # "run" \/ (Idle /\ Len(hist) = MaxActs)))
        => PrintT("BEH " \o ToJson([hist |-> hist, exit |-> exit]))
=============================================================================
