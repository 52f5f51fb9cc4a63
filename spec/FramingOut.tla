------------------------------ MODULE FramingOut ------------------------------
(* C14.  What the adapter writes: the thread that serves the client and the    *)
(* one that listens to the debuggee both send.  A message takes a number, is    *)
(* made into a frame and written in two parts (a pipe takes what it has room    *)
(* for).  Locked = FALSE is the adapter without its lock: TLC shows that the    *)
(* invariants then fail, so they are not vacuous.                               *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS N, Locked
S == {"client", "debuggee"}
VARIABLES pc, sent, no, mine, lock, out
vars == <<pc, sent, no, mine, lock, out>>
Init == /\ pc = [s \in S |-> "idle"] /\ sent = [s \in S |-> 0] /\ no = 0 /\ mine = [s \in S |-> 0] /\ lock = "free" /\ out = <<>>

Take(s) == pc[s] = "idle" /\ sent[s] < N /\ (Locked => lock = "free")
           /\ lock' = (IF Locked THEN s ELSE lock) /\ pc' = [pc EXCEPT ![s] = "held"] /\ UNCHANGED <<sent, no, mine, out>>
Number(s) == pc[s] = "held" /\ no' = no + 1 /\ mine' = [mine EXCEPT ![s] = no + 1] /\ pc' = [pc EXCEPT ![s] = "numbered"]
             /\ UNCHANGED <<sent, lock, out>>
Cell(s, h) == [src |-> s, i |-> sent[s] + 1, seq |-> mine[s], half |-> h]
Half(s) == pc[s] = "numbered" /\ out' = Append(out, Cell(s, 1)) /\ pc' = [pc EXCEPT ![s] = "half"] /\ UNCHANGED <<sent, no, mine, lock>>
Rest(s) == pc[s] = "half" /\ out' = Append(out, Cell(s, 2)) /\ pc' = [pc EXCEPT ![s] = "idle"] /\ sent' = [sent EXCEPT ![s] = @ + 1]
           /\ lock' = (IF Locked THEN "free" ELSE lock) /\ UNCHANGED <<no, mine>>
Next == \E s \in S : Take(s) \/ Number(s) \/ Half(s) \/ Rest(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NotInterleaved == \A k \in 1..Len(out) : out[k].half = 2 => k > 1 /\ out[k - 1] = [out[k] EXCEPT !.half = 1]
Firsts == SelectSeq(out, LAMBDA c : c.half = 1)
Numbered == \A k \in 1..Len(Firsts) : Firsts[k].seq = k
InOrder == \A j, k \in 1..Len(Firsts) : j < k /\ Firsts[j].src = Firsts[k].src => Firsts[j].i < Firsts[k].i
AllSent == <>(\A s \in S : sent[s] = N)
=============================================================================
