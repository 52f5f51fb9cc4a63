---------------------------- MODULE PathSession ----------------------------
(***************************************************************************)
(* A session with path mappings.  A case gives the mappings, the tasks in  *)
(* the order they run ([path, line], paths as Ansible knows them), for     *)
(* each the files under it ([parents]: the tasks that included its file),  *)
(* the files there are at the start, and the requests the client may make: *)
(* [path, lines] for one client path.  Every line asked for is the line a  *)
(* task starts on in the file the path is mapped to, if that exists.       *)
(*                                                                         *)
(* The client sees only client paths: those it named itself in whatever is *)
(* about its breakpoints, and mapped ones where the play stopped.          *)
(***************************************************************************)
EXTENDS PathMap, FiniteSets, TLC, Json, IOUtils

CONSTANT MaxSets

Cases == JsonDeserialize(IOEnv.PATH_CASES)
Range(s) == { s[k] : k \in DOMAIN s }

VARIABLES case, pos, bps, used, over, hist
vars == <<case, pos, bps, used, over, hist>>

C == Cases[case]
Steps == C.steps

\* Loaded once its first task starts; a client can only look when stopped.
Loaded(p, at) == p \in Range(C.static) \/ \E k \in 1..at : Steps[k].path = p
\* The line stands for a task of that file, or there is no telling.
Verified(cp, line, at) == Loaded(ToAnsible(C.maps, cp), at)

Hit(k) == \E b \in Range(bps) : ToAnsible(C.maps, b.path) = Steps[k].path /\ Steps[k].line \in Range(b.lines)

Init ==
    /\ case \in DOMAIN Cases
    /\ pos = 0
    /\ bps = <<>>          \* [path, lines] per client path
    /\ used = 0
    /\ over = FALSE
    /\ hist = <<>>

Set(q) ==
    /\ used < MaxSets
    /\ bps' = Append(SelectSeq(bps, LAMBDA b : b.path # q.path), q)
    /\ used' = used + 1
    /\ hist' = Append(hist, [op |-> "set", path |-> q.path, lines |-> q.lines,
                             ver |-> [ k \in DOMAIN q.lines |-> Verified(q.path, q.lines[k], pos) ]])
    /\ UNCHANGED <<case, pos, over>>

\* The sources of the frames: where the task is, then the tasks its file is included by.
Sources(k) == [ j \in 1..(1 + Len(Steps[k].parents)) |->
                   ToClient(C.maps, IF j = 1 THEN Steps[k].path ELSE Steps[k].parents[j - 1]) ]

\* What the client was told about each breakpoint set, at a stop.
Told(at) == { [path |-> b.path, ver |-> [ k \in DOMAIN b.lines |-> Verified(b.path, b.lines[k], at) ]] : b \in Range(bps) }

Go ==
    LET next == { k \in (pos + 1)..Len(Steps) : Hit(k) } IN
    IF next = {}
      THEN /\ over' = TRUE
           /\ UNCHANGED <<case, pos, bps, used, hist>>
      ELSE LET k == CHOOSE k \in next : \A j \in next : k <= j IN
           /\ pos' = k
           /\ hist' = Append(hist, [op |-> "stop", at |-> k, line |-> Steps[k].line, sources |-> Sources(k), told |-> Told(k)])
           /\ UNCHANGED <<case, bps, used, over>>

Next == ~over /\ ((\E q \in Range(C.reqs) : Set(q)) \/ Go)
Spec == Init /\ [][Next]_vars

\* One set of breakpoints per client path, the last one asked for.
OnePerPath == \A i, j \in DOMAIN bps : i # j => bps[i].path # bps[j].path
\* A stop is always at a line some path the client named is mapped to.
StopsAreAsked == (hist # <<>> /\ hist[Len(hist)].op = "stop") =>
    \E b \in Range(bps) : Hit(pos)
\* With one mapping whose sides are apart the client is shown the very path it named.
Apart(m) == ~Under(m.local, m.remote) /\ ~Under(m.remote, m.local)
ShownAsNamed == (Len(C.maps) = 1 /\ Apart(C.maps[1]) /\ hist # <<>> /\ hist[Len(hist)].op = "stop") =>
    LET s == hist[Len(hist)].sources[1] IN
    \A b \in Range(bps) : (ToAnsible(C.maps, b.path) = Steps[pos].path /\ ~Under(C.maps[1].remote, b.path)) => b.path = s

Emit == over => PrintT("BEH " \o ToJson([case |-> case, hist |-> hist]))
=============================================================================
