------------------------------ MODULE StartMC ------------------------------
(***************************************************************************)
(* A start, step by step.  listen and connect are asked for on a command   *)
(* line; launch asks the client to run a script in its terminal, which     *)
(* then runs connect.  Files come and go on the way.                       *)
(*                                                                         *)
(* A case: mode, world w, options o, args (the user's, in order), base     *)
(* (the environment there is), asked (the one launch asks for).            *)
(***************************************************************************)
EXTENDS Start, TLC, Json, IOUtils

CONSTANT FromJson
Range(s) == { s[k] : k \in DOMAIN s }

\* ---- all small worlds -------------------------------------------------------
Some(v) == [set |-> TRUE, v |-> v]
D(a, n) == [at |-> a, n |-> n]
CbEnv == {None, Some(<<"a">>), Some(<<"b", "a">>)}
CoEnv == {None, Some(<<D("rel", "x")>>), Some(<<D("abs", "y"), D("home", "x"), D("rel", "y")>>)}
PyEnv == {None, Some(<<D("abs", "p")>>), Some(<<D("abs", "q"), D("abs", "p")>>)}
NoFile == [there |-> FALSE, callbacks |-> None, collections |-> None]
Files == { [there |-> TRUE, callbacks |-> c, collections |-> d] : c \in {None, Some(<<"c">>)}, d \in {None, Some(<<D("rel", "z"), D("abs", "z")>>)} }
Worlds == { [env |-> [callbacks |-> c, collections |-> d, python |-> p],
             files |-> [explicit |-> f1, cwd |-> f2, home |-> f3]] :
               c \in CbEnv, d \in CoEnv, p \in PyEnv, f1 \in Files \cup {NoFile}, f2 \in Files \cup {NoFile}, f3 \in Files \cup {NoFile} }
NoOpt == [addr |-> None, nowait |-> FALSE, tls |-> FALSE, cert |-> None, key |-> None, ca |-> None, pass |-> None, passenv |-> None, logfile |-> None, loglevel |-> None]
SmallCases == { [mode |-> m, w |-> w, o |-> NoOpt, args |-> <<"pb", "-x">>, base |-> [A |-> "1"], asked |-> IF m = "launch" THEN [A |-> None] ELSE <<>>] :
                  m \in {"listen", "launch"}, w \in Worlds }

JsonCases == JsonDeserialize(IOEnv.START_CASES)

VARIABLES c, n, pc, argv, envn, files, ran
vars == <<c, n, pc, argv, envn, files, ran>>

Init ==
    /\ IF FromJson THEN \E k \in DOMAIN JsonCases : c = JsonCases[k] /\ n = k ELSE c \in SmallCases /\ n = 0
    /\ pc = "asked"
    /\ argv = <<>>
    /\ envn = c.base
    /\ files = {}
    /\ ran = FALSE

Launch == c.mode = "launch"

\* The adapter asks the client to run a script with these arguments.
AskClient ==
    /\ pc = "asked" /\ Launch
    /\ files' = {"script", "socket", "signal"}
    /\ argv' = <<"script">> \o c.args
    /\ envn' = Overlay(envn, c.asked)
    /\ pc' = "terminal"
    /\ UNCHANGED <<c, n, ran>>

\* The client runs it: it removes itself first.
RunScript ==
    /\ pc = "terminal"
    /\ files' = files \ {"script"}
    /\ argv' = Tail(argv)
    /\ pc' = "connect"
    /\ UNCHANGED <<c, n, envn, ran>>

Direct ==
    /\ pc = "asked" /\ ~Launch
    /\ argv' = c.args
    /\ pc' = "connect"
    /\ UNCHANGED <<c, n, envn, files, ran>>

\* The process becomes ansible-playbook: same directory, arguments after
\* its own name, environment with the debugger's settings.
Become ==
    /\ pc = "connect"
    /\ pc' = "playbook"
    /\ ran' = TRUE
    /\ UNCHANGED <<c, n, argv, envn, files>>

\* It ends, before or after it connected to the adapter, which then ends.
End ==
    /\ pc = "playbook"
    /\ files' = {}
    /\ pc' = "over"
    /\ UNCHANGED <<c, n, argv, envn, ran>>

Next == AskClient \/ RunScript \/ Direct \/ Become \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

IsPrefix(s, u) == Len(s) <= Len(u) /\ SubSeq(u, 1, Len(s)) = s
IsSuffix(s, u) == Len(s) <= Len(u) /\ SubSeq(u, Len(u) - Len(s) + 1, Len(u)) = s
ArgsAsGiven == ran => argv = c.args
EnvAsAsked == ran => \A x \in DOMAIN envn : IF x \in DOMAIN c.asked THEN c.asked[x].set /\ envn[x] = c.asked[x].v[1] ELSE envn[x] = c.base[x]
\* Own first, the user's after it, in order, nothing lost or added.
KeptAfterOwn ==
    LET e == Effective(c.w) IN
    /\ Tail(e.callbacks) = Callbacks(c.w) /\ Head(e.callbacks) = Own
    /\ Tail(e.collections) = Collections(c.w)
    /\ Tail(e.python) = PythonPath(c.w)
NothingLeft == pc = "over" => files = {}
ScriptGone == ran => "script" \notin files
\* Nothing relative is left to be understood in another place.
Resolved == \A k \in DOMAIN Effective(c.w).collections : Effective(c.w).collections[k].at # "rel"
Starts == <>(pc = "over")

Emit == (FromJson /\ pc = "playbook") =>
    PrintT("CASE " \o ToJson([n |-> n, argv |-> argv, env |-> envn, eff |-> Effective(c.w), opts |-> Options(c.mode, c.o)]))
=============================================================================
