----------------------------- MODULE PathMapMC -----------------------------
(***************************************************************************)
(* All mapping lists and paths over a few names, one of them the beginning *)
(* of another, against what the mappings are for, and against the same     *)
(* mapping said in characters (with and without separators at the ends).   *)
(***************************************************************************)
EXTENDS PathMap, FiniteSets, TLC

CONSTANTS MaxRoot, MaxPath, MaxMaps

Names == {<<"a">>, <<"a", "b">>}

SeqsUpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }
Roots == SeqsUpTo(Names, MaxRoot)
Paths == SeqsUpTo(Names, MaxPath) \ {<<>>}
Mappings == [local : Roots, remote : Roots]

VARIABLES maps, path
vars == <<maps, path>>
Init == maps \in SeqsUpTo(Mappings, MaxMaps) /\ path \in Paths
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ---- in characters -------------------------------------------------------
\* Names are sequences of characters here.
RECURSIVE Text(_)
Text(p) == IF p = <<>> THEN <<>> ELSE <<"/">> \o Head(p) \o Text(Tail(p))
Written(p) == { IF p = <<>> THEN <<"/">> ELSE Text(p), Text(p) \o <<"/">> }
Strip(s) == IF s # <<>> /\ s[Len(s)] = "/" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Rest(s, n) == SubSeq(s, n + 1, Len(s))
TextUnder(root, s) ==
    LET r == Strip(root) IN
    /\ Len(r) <= Len(s) /\ SubSeq(s, 1, Len(r)) = r
    /\ Len(r) = Len(s) \/ s[Len(r) + 1] = "/"
TextMove(from, to, s) == Strip(to) \o Rest(s, Len(Strip(from)))

SameInText ==
    \A m \in { maps[i] : i \in DOMAIN maps } : \A f \in Written(m.local), t \in Written(m.remote) :
        /\ TextUnder(f, Text(path)) = Under(m.local, path)
        /\ Under(m.local, path) => TextMove(f, t, Text(path)) = Text(Move(m.local, m.remote, path))

\* ---- what mappings are for ------------------------------------------------
NoMapsNoChange == maps = <<>> => ToAnsible(maps, path) = path /\ ToClient(maps, path) = path
OutsideUntouched == (\A i \in DOMAIN maps : ~Under(maps[i].local, path)) => ToAnsible(maps, path) = path
\* A path under one mapping's client side only, moved to where no other
\* mapping's Ansible side is, comes back as it was.
RoundTrip ==
    LET a == ToAnsible(maps, path)
        i == FirstOf(maps, "local", path)
        j == FirstOf(maps, "remote", a)
    IN (i # 0 /\ i = j) => ToClient(maps, a) = path
\* Swapping the sides swaps the directions.
Swap(ms) == [ i \in DOMAIN ms |-> [local |-> ms[i].remote, remote |-> ms[i].local] ]
Symmetric == ToClient(maps, path) = ToAnsible(Swap(maps), path)
\* Mappings after one that contains the path do not matter.
FirstDecides == \A i \in DOMAIN maps : Under(maps[i].local, path) => ToAnsible(maps, path) = ToAnsible(SubSeq(maps, 1, i), path)
\* Siblings of a root keep their name.
KeepsName == path # <<>> => LET i == FirstOf(maps, "local", path)
                                a == ToAnsible(maps, path)
             IN (i = 0 \/ Len(maps[i].local) < Len(path)) => a # <<>> /\ a[Len(a)] = path[Len(path)]
=============================================================================
