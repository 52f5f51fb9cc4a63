------------------------------- MODULE Framing -------------------------------
(* C14.  What the adapter reads: a stream of cells (a cell is one or more      *)
(* bytes nobody cuts through) handed over in any chunks.  The decoder is the   *)
(* specified one: find the blank line, read the length, wait for the body,     *)
(* check the number.  Invariant: what was decoded is a function of the cells   *)
(* handed over so far, however they were cut.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Frames,      \* number of frames in a stream
          MaxChunks,   \* chunks a stream is cut into
          Rich         \* TRUE: all kinds of frames, FALSE: the small choice

CR == [k |-> "cr"]   LF == [k |-> "lf"]
C(x) == [k |-> x]
Len_(n) == [k |-> "len", v |-> n]
Seq_(n) == [k |-> "seq", v |-> n]

BodyKinds == IF Rich THEN {"plain", "blank", "multi", "unsup"} ELSE {"plain", "blank"}
SeqKinds == {"right", "repeat", "skip"}
Pre == IF Rich THEN {<<>>, <<"X">>, <<"T", "X">>} ELSE {<<>>, <<"X">>}
Kinds == {f \in [pre : Pre, post : IF Rich THEN {<<>>, <<"T">>} ELSE {<<>>}, len : BOOLEAN, seq : SeqKinds, body : BodyKinds] :
            /\ f.len \/ Len(f.pre) > 0
            /\ ~f.len => f.seq = "right" /\ f.body = "plain" /\ f.post = <<>>}

Body(b, s) == <<Seq_(s)>> \o CASE b = "plain" -> <<C("a"), C("a")>>
                               [] b = "blank" -> <<CR, LF, CR, LF, C("a")>>
                               [] b = "multi" -> <<C("o"), C("m1"), C("m2"), C("a")>>
                               [] b = "unsup" -> <<C("a")>>

Extra(h) == IF h = "X" THEN <<C("x"), C("v"), CR, LF>> ELSE <<C("x"), C("v"), C("col"), C("v"), CR, LF>>
RECURSIVE Extras(_)
Extras(hs) == IF hs = <<>> THEN <<>> ELSE Extra(hs[1]) \o Extras(Tail(hs))
LenHdr(n) == <<C("n"), C("d"), Len_(n), CR, LF>>
Cells(f, s) == Extras(f.pre) \o (IF f.len THEN LenHdr(Len(Body(f.body, s))) ELSE <<>>) \o Extras(f.post) \o <<CR, LF>> \o Body(f.body, s)
SeqOf(f, i) == CASE f.seq = "right" -> i [] f.seq = "repeat" -> i - 1 [] f.seq = "skip" -> i + 1

RECURSIVE Stream(_, _)
Stream(fs, i) == IF i > Len(fs) THEN <<>> ELSE Cells(fs[i], SeqOf(fs[i], i)) \o Stream(fs, i + 1)

VARIABLES frames, stream, given, buf, out, rej, hist
vars == <<frames, stream, given, buf, out, rej, hist>>
View == <<frames, given, buf, out, rej>>

(* ---- the decoder ---- *)
IsSep(b, i) == /\ b[i].k = "cr" /\ b[i + 1].k = "lf" /\ b[i + 2].k = "cr" /\ b[i + 3].k = "lf"
Seps(b) == {i \in 1..Len(b) : i + 3 <= Len(b) /\ IsSep(b, i)}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Drain(_, _, _)
Drain(b, o, n) ==   \* n: the number the next message has to have
  IF Seps(b) = {} THEN [buf |-> b, out |-> o, rej |-> FALSE]
  ELSE LET s == First(Seps(b))
           ls == {i \in 1..(s - 1) : b[i].k = "len"}
       IN IF ls = {} THEN [buf |-> b, out |-> o, rej |-> TRUE]
          ELSE LET n0 == b[First(ls)].v
               IN IF Len(b) - (s + 3) < n0 THEN [buf |-> b, out |-> o, rej |-> FALSE]
                  ELSE LET body == SubSeq(b, s + 4, s + 3 + n0)
                           rest == SubSeq(b, s + 4 + n0, Len(b))
                       IN IF body[1].v # n THEN [buf |-> b, out |-> o, rej |-> TRUE]
                          ELSE Drain(rest, Append(o, body), n + 1)

(* ---- what it ought to have decoded, from the frames alone ---- *)
RECURSIVE EndOf(_)
EndOf(i) == IF i = 0 THEN 0 ELSE EndOf(i - 1) + Len(Cells(frames[i], 0))
HdrEnd(i) == EndOf(i) - Len(Body(frames[i].body, 0))
Bad(i) == ~frames[i].len \/ frames[i].seq # "right"
Good == LET bs == {i \in 1..Len(frames) : Bad(i)} IN IF bs = {} THEN Len(frames) ELSE First(bs) - 1
Expected == Cardinality({i \in 1..Good : EndOf(i) <= given})
ExpectedRej == Good < Len(frames) /\ given >= (IF frames[Good + 1].len THEN EndOf(Good + 1) ELSE HdrEnd(Good + 1))

Init == /\ frames \in [1..Frames -> Kinds]
        /\ \A i \in 1..Frames : Bad(i) => \A j \in (i + 1)..Frames : frames[j] = [pre |-> <<>>, post |-> <<>>, len |-> TRUE, seq |-> "right", body |-> "plain"]
        /\ stream = Stream(frames, 1)
        /\ given = 0 /\ buf = <<>> /\ out = <<>> /\ rej = FALSE /\ hist = <<>>

Give(k) == /\ ~rej /\ given + k <= Len(stream)
           /\ Len(hist) < MaxChunks
           /\ LET d == Drain(buf \o SubSeq(stream, given + 1, given + k), out, Len(out) + 1)
              IN /\ buf' = d.buf /\ out' = d.out /\ rej' = d.rej
                 /\ hist' = Append(hist, [upto |-> given + k, out |-> Len(d.out), rej |-> d.rej])
           /\ given' = given + k
           /\ UNCHANGED <<frames, stream>>

Done == rej \/ given = Len(stream)
Sizes == IF Rich THEN {1, 2, 3, 7, 12, 19, Len(stream) - given} ELSE 1..Len(stream)
Next == \/ \E k \in Sizes \ {0} : Give(k)
Spec == Init /\ [][Next]_vars

SameForAnyCut == Len(out) = Expected /\ rej = ExpectedRej
Complete == \A i \in 1..Len(out) : out[i] = Body(frames[i].body, i)
NothingLost == ~rej => \E p \in 0..Len(stream) : buf = SubSeq(stream, p + 1, given)
Report == Done /\ hist # <<>> => PrintT("BEH " \o ToJson([frames |-> frames, hist |-> hist]))
NoReport == TRUE
=============================================================================
