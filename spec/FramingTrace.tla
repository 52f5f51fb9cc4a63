----------------------------- MODULE FramingTrace -----------------------------
(* Recorded sessions of the real adapter against C14.                          *)
(* A session: frames [head, end, good, nolen] (byte offsets in the stream the  *)
(* client wrote), obs [upto, n] (messages that had come through when upto      *)
(* bytes had been written), same [..] (message i came through as it was sent), *)
(* outs [seq, declared, actual, src, i] (what the adapter wrote, in order),    *)
(* owed [src |-> how many], ended ("rejected" / "run" / "ok").                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
First(X) == CHOOSE x \in X : \A y \in X : x <= y

Good(t) == LET bs == {i \in 1..Len(t.frames) : ~t.frames[i].good} IN IF bs = {} THEN Len(t.frames) ELSE First(bs) - 1
Expected(t, n) == Cardinality({i \in 1..Good(t) : t.frames[i].end <= n})
Rejected(t, n) == Good(t) < Len(t.frames) /\ n >= (IF t.frames[Good(t) + 1].nolen THEN t.frames[Good(t) + 1].head ELSE t.frames[Good(t) + 1].end)

Decoded(t) == \A k \in 1..Len(t.obs) : t.obs[k].n = Expected(t, t.obs[k].upto)
Same(t) == \A k \in 1..Len(t.same) : t.same[k]
Ends(t) == t.ended = (IF Rejected(t, t.total) THEN "rejected" ELSE "ok")
Framed(t) == \A k \in 1..Len(t.outs) : t.outs[k].declared = t.outs[k].actual
Numbered(t) == \A k \in 1..Len(t.outs) : t.outs[k].seq = k
From(t, s) == SelectSeq(t.outs, LAMBDA o : o.src = s)
InOrder(t) == \A s \in DOMAIN t.owed : LET q == From(t, s) IN Len(q) = t.owed[s] /\ \A k \in 1..Len(q) : q[k].i = k /\ q[k].whole
RulesOf(t) == {<<"decoded", Decoded(t)>>, <<"same_content", Same(t)>>, <<"rejected_iff_bad", Ends(t)>>, <<"framed", Framed(t)>>,
               <<"numbered", Numbered(t)>>, <<"in_order", InOrder(t)>>}

VARIABLE k
Init == k = 0
Next == k < Len(Traces) /\ k' = k + 1
        /\ LET t == Traces[k + 1] IN PrintT("RES " \o ToJson([id |-> t.id, bad |-> {r[1] : r \in {x \in RulesOf(t) : ~x[2]}}]))
Spec == Init /\ [][Next]_k
=============================================================================
