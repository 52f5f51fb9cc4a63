----------------------------- MODULE ConsoleMC ------------------------------
(***************************************************************************)
(* Every entry made of up to MaxPieces pieces, with what makes the meaning  *)
(* of an entry right as invariants, and the meaning printed for replaying.  *)
(***************************************************************************)
EXTENDS Console, Json, IOUtils
CONSTANTS MaxPieces, Emit
Pieces == JsonDeserialize(IOEnv.MC_CASES)      \* sequences of characters

VARIABLES cs, n, out
vars == <<cs, n, out>>
Init == cs = <<>> /\ n = 0 /\ out = FALSE
Add == /\ n < MaxPieces /\ ~out
       /\ \E p \in DOMAIN Pieces : cs' = cs \o Pieces[p]
       /\ n' = n + 1 /\ out' = FALSE
Done == /\ ~out /\ out' = TRUE /\ UNCHANGED <<cs, n>>
        /\ Emit => PrintT("ENT " \o ToJson([cs |-> cs, kind |-> Parse(cs).kind]))
Next == Add \/ Done
Spec == Init /\ [][Next]_vars

P == Parse(cs)
Suffix(e) == Len(e) <= Len(cs) /\ SubSeq(cs, Len(cs) - Len(e) + 1, Len(cs)) = e
\* The expression is what was typed, unchanged, and starts with no blank.
ExprTyped == Suffix(P.expr) /\ (P.expr = <<>> \/ P.expr[1] \notin Blank)
\* However the name is quoted, it is the same name.
Quoted(q, w) == <<q>> \o w \o <<q>>
RECURSIVE Escaped(_)
Escaped(w) == IF w = <<>> THEN <<>> ELSE <<Esc, w[1]>> \o Escaped(Tail(w))
Plain(w) == w # <<>> /\ \A i \in DOMAIN w : w[i] \notin Blank \cup Quote \cup {Esc}
So == <<"s", "o", " ">>
SameName ==
    LET one == [kind |-> "so", name |-> Str(cs), expr |-> <<"1">>, dash |-> Len(cs) > 1 /\ cs[1] = "-"]
        e == <<" ", "1">> IN
    /\ Plain(cs) => Parse(So \o cs \o e) = one
    /\ (\A i \in DOMAIN cs : cs[i] # "'") => Parse(So \o Quoted("'", cs) \o e) = one
    /\ (\A i \in DOMAIN cs : cs[i] \notin {"\"", Esc}) => Parse(So \o Quoted("\"", cs) \o e) = one
    /\ cs # <<>> => Parse(So \o Escaped(cs) \o e) = one
    /\ (\A i \in DOMAIN cs : cs[i] # "'") => Parse(So \o Quoted("'", cs)) = [one EXCEPT !.expr = <<>>]
    \* inside double quotes a backslash is one unless before itself or the quote
    /\ (\A i \in DOMAIN cs : cs[i] \notin {"\"", Esc}) /\ cs # <<>> => Parse(So \o Quoted("\"", <<Esc>> \o cs) \o e) = [one EXCEPT !.name = Str(<<Esc>> \o cs), !.dash = FALSE]
\* Leading blanks and the kind of blanks do not matter.
Blanks == P = Parse(<<" ", "\t">> \o cs)
\* Nothing typed as the expression changes what is done to which name.
Apart == P.kind \in {"so", "sh"} /\ P.expr # <<>> =>
            /\ Parse(SubSeq(cs, 1, Len(cs) - Len(P.expr)) \o <<"'", "\"">>) = [P EXCEPT !.expr = <<"'", "\"">>]
Kinds == P.kind \in {"text", "so", "sh", "ro", "t"} /\ (P.kind = "text" => P = Text)
=============================================================================
