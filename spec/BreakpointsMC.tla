--------------------------- MODULE BreakpointsMC ---------------------------
(***************************************************************************)
(* The client sets breakpoints while Ansible loads files.                  *)
(*                                                                         *)
(* A case gives the marks of every file, the sets of files loaded at the   *)
(* consecutive moments the client can act (pos), and the requests it may   *)
(* make: [file, lines, mod].  One file is one source.                      *)
(*                                                                         *)
(* Loading itself is a thread of its own: between two moments it registers *)
(* the marks of a newly loaded file one at a time, and a request may be    *)
(* served between two of these.  Split = FALSE gives the behaviours that   *)
(* can be replayed against the program (the client acts while the play is  *)
(* stopped), Split = TRUE adds the overlaps.                               *)
(***************************************************************************)
EXTENDS Breakpoints, TLC, Json, IOUtils

CONSTANTS MaxSets, Split

Cases == JsonDeserialize(IOEnv.MC_CASES)
Range(s) == { s[k] : k \in DOMAIN s }
Set2(s) == { <<m[1], m[2]>> : m \in Range(s) }

VARIABLES case, pos, reg, cur, told, view, wire, nid, nset, hist
vars == <<case, pos, reg, cur, told, view, wire, nid, nset, hist>>

C == Cases[case]
Files == DOMAIN C.marks
Full(f) == Set2(C.marks[f])
LoadedAt(p) == Range(C.stops[p])

Empty == [ x \in {} |-> 0 ]
Put(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]

Init ==
    /\ case \in DOMAIN Cases
    /\ pos = 1
    /\ reg = [ f \in Files |-> IF f \in LoadedAt(1) THEN Full(f) ELSE {} ]
    /\ cur = [ f \in Files |-> <<>> ]      \* the breakpoints set: [id, req, mod]
    /\ told = Empty                        \* id -> state the debuggee stored
    /\ view = Empty                        \* id -> state the client was told
    /\ wire = <<>>                         \* messages under way to the client
    /\ nid = 1
    /\ nset = 0
    /\ hist = <<>>

StateOf(b, f, marks) == IF b.mod THEN Unloaded(b.req) ELSE State(marks # {}, marks, b.req)

SetBps(q) ==
    LET n == Len(q.lines)
        new == [ k \in 1..n |-> [id |-> nid + k - 1, req |-> q.lines[k], mod |-> q.mod] ]
        res == [ k \in 1..n |-> [id |-> new[k].id, st |-> StateOf(new[k], q.file, reg[q.file])] ]
    IN /\ nset < MaxSets
       /\ cur' = [cur EXCEPT ![q.file] = new]
       /\ told' = [ i \in DOMAIN told \cup { new[k].id : k \in 1..n } |->
                       IF i >= nid THEN res[i - nid + 1].st ELSE told[i] ]
       /\ nid' = nid + n
       /\ nset' = nset + 1
       /\ wire' = Append(wire, [t |-> "resp", file |-> q.file, res |-> res])
       /\ hist' = Append(hist, [op |-> "set", pos |-> pos, file |-> q.file, lines |-> q.lines, mod |-> q.mod,
                                res |-> [ k \in 1..n |-> res[k].st ], ids |-> [ k \in 1..n |-> res[k].id ]])
       /\ UNCHANGED <<case, pos, reg, view>>

\* One more mark of a file that is being loaded is registered.
Register(f, marks) ==
    LET bs == cur[f]
        ch == { k \in DOMAIN bs : ~bs[k].mod /\ State(TRUE, marks, bs[k].req) # told[bs[k].id] }
        RECURSIVE Ev(_)
        Ev(k) == IF k > Len(bs) THEN <<>>
                 ELSE (IF k \in ch THEN <<[t |-> "chg", id |-> bs[k].id, st |-> State(TRUE, marks, bs[k].req)]>> ELSE <<>>) \o Ev(k + 1)
    IN /\ reg' = [reg EXCEPT ![f] = marks]
       /\ told' = [ i \in DOMAIN told |->
                      IF \E k \in ch : bs[k].id = i THEN State(TRUE, marks, (CHOOSE b \in Range(bs) : b.id = i).req) ELSE told[i] ]
       /\ wire' = wire \o Ev(1)

Loading == { f \in Files : pos < Len(C.stops) /\ f \in LoadedAt(pos + 1) /\ reg[f] # Full(f) }

\* The marks of a file are registered in the order of its lines.
LoadLine ==
    /\ Split
    /\ \E f \in Loading :
         LET left == Full(f) \ reg[f]
             m == CHOOSE m \in left : \A x \in left : m[1] <= x[1]
         IN Register(f, reg[f] \cup {m})
    /\ UNCHANGED <<case, pos, cur, view, nid, nset, hist>>

\* All of one file.
LoadFile ==
    /\ ~Split
    /\ \E f \in Loading : Register(f, Full(f))
    /\ hist' = hist
    /\ UNCHANGED <<case, pos, cur, view, nid, nset>>

Deliver ==
    /\ wire # <<>>
    /\ LET m == Head(wire) IN
         view' = IF m.t = "chg" THEN Put(view, m.id, m.st)
                 ELSE [ i \in DOMAIN view \cup { m.res[k].id : k \in DOMAIN m.res } |->
                          IF \E k \in DOMAIN m.res : m.res[k].id = i
                            THEN (CHOOSE r \in Range(m.res) : r.id = i).st ELSE view[i] ]
    /\ wire' = Tail(wire)
    /\ UNCHANGED <<case, pos, reg, cur, told, nid, nset, hist>>

Advance ==
    /\ pos < Len(C.stops)
    /\ Loading = {}
    /\ wire = <<>>
    /\ pos' = pos + 1
    /\ hist' = Append(hist, [op |-> "at", pos |-> pos + 1,
                             told |-> UNION { { [id |-> cur[f][k].id, st |-> told[cur[f][k].id]] : k \in DOMAIN cur[f] } : f \in Files }])
    /\ UNCHANGED <<case, reg, cur, told, view, wire, nid, nset>>

\* While the play is stopped nothing of its next part was loaded yet.
CanSet == IF Split \/ pos = Len(C.stops) THEN TRUE
          ELSE \A f \in LoadedAt(pos + 1) \ LoadedAt(pos) : reg[f] = {}

Next ==
    \/ Deliver
    \/ /\ Split \/ wire = <<>>
       /\ \/ CanSet /\ \E q \in Range(C.reqs) : q.from <= pos /\ SetBps(q)
          \/ LoadLine
          \/ LoadFile
          \/ Advance

Spec == Init /\ [][Next]_vars

Current == UNION { Range(cur[f]) : f \in Files }
FileOf(b) == CHOOSE f \in Files : b \in Range(cur[f])

\* Once everything under way arrived, the client's view is the state for the
\* lines registered so far.
ViewIsTruth == wire = <<>> => \A b \in Current : view[b.id] = StateOf(b, FileOf(b), reg[FileOf(b)])
FreshIds == \A b \in Current : b.id < nid
\* No event for a breakpoint that is not set any more, and none without change.
EventsMatter == \A k \in DOMAIN wire : wire[k].t = "chg" =>
    (\E j \in 1..(k - 1) : wire[j].t = "resp" /\ \E r \in Range(wire[j].res) : r.id = wire[k].id)
      \/ (wire[k].id \in DOMAIN view /\ (view[wire[k].id] # wire[k].st \/ \E j \in 1..(k - 1) : wire[j].t = "chg" /\ wire[j].id = wire[k].id))
\* Where a breakpoint was set does not matter, only what is loaded.
SameLineSameState == wire = <<>> => \A a, b \in Current :
    (FileOf(a) = FileOf(b) /\ a.req = b.req /\ a.mod = b.mod) => view[a.id] = view[b.id]

\* What is set in a file is what the last request for it asked for.
Replaced == \A f \in Files :
    LET k == {i \in DOMAIN hist : hist[i].op = "set" /\ hist[i].file = f} IN
    IF k = {} THEN cur[f] = <<>>
    ELSE LET q == hist[MaxOf(k)] IN
         [i \in DOMAIN cur[f] |-> <<cur[f][i].id, cur[f][i].req, cur[f][i].mod>>] = [i \in DOMAIN q.lines |-> <<q.ids[i], q.lines[i], q.mod>>]

\* The range is that of the last task or play starting at or before the line.
RangeRight == \A f \in Files : reg[f] # {} => \A q \in Range(C.reqs) : \A l \in Range(q.lines) :
    LET st == State(TRUE, reg[f], l) IN
    /\ st.ver => /\ <<st.line, 1>> \in reg[f] /\ st.line <= l /\ st.line <= st.end
                 /\ \A m \in reg[f] : m[1] > st.line => m[1] > l /\ m[1] > st.end
                 /\ st.end = st.line \/ \E m \in reg[f] : m[1] = st.end + 1
    /\ ~st.ver => \A m \in reg[f] : (m[2] = 1 /\ m[1] <= l) => \E b \in reg[f] : b[2] = 0 /\ b[1] >= m[1] /\ b[1] <= l

Done == pos = Len(C.stops) /\ wire = <<>> /\ Loading = {} /\ nset = MaxSets
Emit == (Done /\ ~Split) => PrintT("BEH " \o ToJson([case |-> case, hist |-> hist]))
=============================================================================
