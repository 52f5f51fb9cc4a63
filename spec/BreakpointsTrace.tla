------------------------- MODULE BreakpointsTrace --------------------------
(***************************************************************************)
(* Is what a client was told about its breakpoints in a recorded session   *)
(* right?  Events of a trace:                                              *)
(*   may(file)   from here on the file may be loaded                       *)
(*   load(file)  here it certainly is                                      *)
(*   req(n), resp(n, file, mod, reqs, bps)                                 *)
(*   chg(id, ver, line, end)                                               *)
(*   sync        everything Ansible did before was reported                *)
(* Marks of a file: trace.marks.                                           *)
(***************************************************************************)
EXTENDS Breakpoints, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Range(s) == { s[k] : k \in DOMAIN s }
Set2(s) == { <<m[1], m[2]>> : m \in Range(s) }

VARIABLES t, pos, certain, may, cur, told, used, flight, viol
vars == <<t, pos, certain, may, cur, told, used, flight, viol>>

Tr == Traces[t]
E == Tr.events[pos]
Marks(f) == IF f \in DOMAIN Tr.marks THEN Set2(Tr.marks[f]) ELSE {}
St(x) == [ver |-> x.ver, line |-> x.line, end |-> x.end]
Bad(rule, info) == [rule |-> rule, info |-> info, pos |-> pos]

Empty == [ x \in {} |-> 0 ]

Init ==
    /\ t \in DOMAIN Traces
    /\ pos = 1
    /\ certain = {} /\ may = {}
    /\ cur = Empty        \* id -> [file, req, mod]
    /\ told = Empty
    /\ used = {}
    /\ flight = Empty     \* n -> [certain, file]
    /\ viol = {}

Put(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]

\* A state the file can be in while its lines are being registered.
Partial(f, req) == { State(TRUE, Marks(f), req) } \cup
    { State(TRUE, { m \in Marks(f) : m[1] <= l }, req) : l \in MarkLines(Marks(f)) }

Allowed(f, req, mod, sure, poss) ==
    IF mod \/ Marks(f) = {} THEN { Unloaded(req) }
    ELSE IF sure THEN { State(TRUE, Marks(f), req) }
    ELSE IF poss THEN { Unloaded(req) } \cup Partial(f, req)
    ELSE { Unloaded(req) }

OnResp ==
    LET f == E.file
        fl == flight[E.n]
        n == Len(E.reqs)
        ids == { E.bps[k].id : k \in DOMAIN E.bps }
        same(k) == IF E.mod THEN ~E.bps[k].ver /\ (E.bps[k].line \in {0, E.reqs[k]})
                   ELSE St(E.bps[k]) \in Allowed(f, E.reqs[k], FALSE, f \in fl.certain, f \in may)
        v == (IF Len(E.bps) # n THEN {Bad("breakpoint-count", ToString(<<Len(E.bps), n>>))} ELSE {})
          \cup (IF Cardinality(ids) # Len(E.bps) \/ ids \cap used # {} THEN {Bad("breakpoint-id-reused", ToString(ids))} ELSE {})
          \cup (IF Len(E.bps) # n THEN {}
                ELSE { Bad("wrong-breakpoint-state",
                           ToString([file |-> f, req |-> E.reqs[k], said |-> St(E.bps[k]), allowed |-> Allowed(f, E.reqs[k], E.mod, f \in fl.certain, f \in may)]))
                       : k \in { x \in 1..n : ~same(x) } })
          \cup { Bad("breakpoint-source", ToString(<<E.bps[k].src, E.src>>)) : k \in { x \in DOMAIN E.bps : E.bps[x].src # E.src } }
    IN /\ viol' = viol \cup v
       /\ used' = used \cup ids
       /\ LET keep == { i \in DOMAIN cur : cur[i].file # f } IN
            cur' = [ i \in keep \cup (IF Len(E.bps) = n THEN ids ELSE {}) |->
                       IF i \in ids /\ Len(E.bps) = n
                         THEN LET k == CHOOSE k \in 1..n : E.bps[k].id = i IN [file |-> f, req |-> E.reqs[k], mod |-> E.mod]
                         ELSE cur[i] ]
       /\ told' = [ i \in DOMAIN told \cup ids |->
                       IF i \in ids THEN St(E.bps[CHOOSE k \in DOMAIN E.bps : E.bps[k].id = i]) ELSE told[i] ]
       /\ flight' = [ m \in DOMAIN flight \ {E.n} |-> flight[m] ]
       /\ UNCHANGED <<certain, may>>

OnChg ==
    LET set == E.id \in DOMAIN cur
        f == cur[E.id].file
        v == IF ~set THEN {Bad("event-for-unset-breakpoint", ToString(E.id))}
             ELSE IF cur[E.id].mod THEN {Bad("event-for-modified-source", ToString(E.id))}
             ELSE (IF told[E.id] = St(E) THEN {Bad("event-without-change", ToString(<<E.id, St(E)>>))} ELSE {})
               \cup (IF f \notin may THEN {Bad("event-before-load", ToString(<<E.id, f>>))}
                     ELSE IF St(E) \notin Partial(f, cur[E.id].req)
                       THEN {Bad("wrong-breakpoint-state", ToString([file |-> f, req |-> cur[E.id].req, said |-> St(E)]))} ELSE {})
    IN /\ viol' = viol \cup v
       /\ told' = IF set THEN Put(told, E.id, St(E)) ELSE told
       /\ UNCHANGED <<certain, may, cur, used, flight>>

OnSync ==
    /\ viol' = viol \cup { Bad("stale-breakpoint-state", ToString([id |-> i, file |-> cur[i].file, req |-> cur[i].req, told |-> told[i],
                                                                  truth |-> State(TRUE, Marks(cur[i].file), cur[i].req)]))
                           : i \in { i \in DOMAIN cur : /\ ~cur[i].mod
                                                        /\ cur[i].file \in certain
                                                        /\ Marks(cur[i].file) # {}
                                                        /\ \A m \in DOMAIN flight : flight[m].file # cur[i].file
                                                        /\ told[i] # State(TRUE, Marks(cur[i].file), cur[i].req) } }
    /\ UNCHANGED <<certain, may, cur, told, used, flight>>

Step ==
    /\ pos <= Len(Tr.events)
    /\ pos' = pos + 1
    /\ t' = t
    /\ CASE E.e = "may"  -> may' = may \cup {E.file} /\ UNCHANGED <<certain, cur, told, used, flight, viol>>
         [] E.e = "load" -> may' = may \cup {E.file} /\ certain' = certain \cup {E.file} /\ UNCHANGED <<cur, told, used, flight, viol>>
         [] E.e = "req"  -> flight' = Put(flight, E.n, [certain |-> certain, file |-> E.file]) /\ UNCHANGED <<certain, may, cur, told, used, viol>>
         [] E.e = "resp" -> OnResp
         [] E.e = "chg"  -> OnChg
         [] E.e = "sync" -> OnSync
    /\ IF pos = Len(Tr.events)
         THEN PrintT("RES " \o ToJson([id |-> Tr.id, viol |-> viol', bps |-> Cardinality(used')]))
         ELSE TRUE

Spec == Init /\ [][Step]_vars
=============================================================================
