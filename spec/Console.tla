------------------------------ MODULE Console -------------------------------
(***************************************************************************)
(* What a debug console entry means.  An entry is a sequence of characters *)
(* (strings of length 1).  After '!' come, in the words of a POSIX shell,  *)
(* the command and (but for template) a name; all that follows, without    *)
(* the blanks in front of it, is the expression.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Blank  == {" ", "\t", "\n", "\r"}
Quote  == {"'", "\""}
Esc    == "\\"
Digit  == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

RECURSIVE Str(_)
Str(cs) == IF cs = <<>> THEN "" ELSE cs[1] \o Str(Tail(cs))
RECURSIVE LStrip(_)
LStrip(cs) == IF cs # <<>> /\ cs[1] \in Blank THEN LStrip(Tail(cs)) ELSE cs
RECURSIVE RStrip(_)
RStrip(cs) == IF cs # <<>> /\ cs[Len(cs)] \in Blank THEN RStrip(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs

\* The next word from position i: [kind, word, pos] with kind "word", "end"
\* (none left) or "open" (a quote or an escape is not complete).
RECURSIVE Word(_, _, _, _, _)
Word(cs, i, mode, acc, started) ==
    IF i > Len(cs)
      THEN IF mode # "plain" THEN [kind |-> "open", word |-> <<>>, pos |-> i]
           ELSE [kind |-> IF started THEN "word" ELSE "end", word |-> acc, pos |-> i]
    ELSE LET c == cs[i] IN
    CASE mode = "plain" /\ c \in Blank -> IF started THEN [kind |-> "word", word |-> acc, pos |-> i + 1]
                                          ELSE Word(cs, i + 1, "plain", acc, FALSE)
      [] mode = "plain" /\ c = Esc     -> Word(cs, i + 1, "esc", acc, TRUE)
      [] mode = "plain" /\ c \in Quote -> Word(cs, i + 1, c, acc, TRUE)
      [] mode = "esc"                  -> Word(cs, i + 1, "plain", Append(acc, c), TRUE)
      [] mode = "\"" /\ c = Esc        -> Word(cs, i + 1, "esc2", acc, TRUE)
      [] mode = "esc2"                 -> Word(cs, i + 1, "\"", IF c \in {Esc, "\""} THEN Append(acc, c) ELSE acc \o <<Esc, c>>, TRUE)
      [] mode \in Quote /\ c = mode    -> Word(cs, i + 1, "plain", acc, TRUE)
      [] OTHER                         -> Word(cs, i + 1, mode, Append(acc, c), TRUE)

Commands == [ ro |-> "ro", remove_option |-> "ro", so |-> "so", set_option |-> "so", sh |-> "sh", set_hostvar |-> "sh", t |-> "t", template |-> "t" ]

Rest(cs, i) == LStrip(SubSeq(cs, i, Len(cs)))
Text == [kind |-> "text", name |-> "", expr |-> <<>>, dash |-> FALSE]

\* What follows the '!'.  kind "text": not a command, say so.
Parse(cs) ==
    LET a == Word(cs, 1, "plain", <<>>, FALSE) IN
    IF a.kind # "word" \/ Str(a.word) \notin DOMAIN Commands THEN Text
    ELSE LET c == Commands[Str(a.word)] IN
    IF c = "t" THEN [Text EXCEPT !.kind = "t", !.expr = Rest(cs, a.pos)]
    ELSE LET b == Word(cs, a.pos, "plain", <<>>, FALSE) IN
    IF b.kind # "word" THEN Text
    ELSE [kind |-> c, name |-> Str(b.word), expr |-> Rest(cs, b.pos),
          dash |-> Len(b.word) > 1 /\ b.word[1] = "-"]     \* may be taken for an option such as -h

(*************************** simple expressions ***************************)
RECURSIVE NoZero(_)
NoZero(cs) == IF Len(cs) > 1 /\ cs[1] = "0" THEN NoZero(Tail(cs)) ELSE cs
Inner(cs) == SubSeq(cs, 2, Len(cs) - 1)
Letters == {"a", "b", "c", "x", "y", "z", "s", "o", "r", "h", "t", "v", "_"}
IsWord(cs) == cs # <<>> /\ \A i \in DOMAIN cs : cs[i] \in Letters \cup Digit \cup {" "}

\* The representation and type of its value; type "error" if it has none and
\* "?" if that is not said here: when it is just the name of a variable that
\* was set (any text can be one, even a number).
Value(vals, names, e) ==
    LET cs == RStrip(LStrip(e)) IN
    IF Str(cs) \in names \ {"v_e", "v_s", "v_d", "v_l"} THEN [s |-> "", t |-> "?"]
    ELSE IF cs = <<>> THEN [s |-> "", t |-> "error"]
    ELSE IF \A i \in DOMAIN cs : cs[i] \in Digit THEN [s |-> Str(NoZero(cs)), t |-> IF Len(cs) > 1 /\ cs[1] = "0" THEN "?" ELSE "int"]
    ELSE IF Str(cs) \in DOMAIN vals THEN vals[Str(cs)]
    ELSE IF Len(cs) > 2 /\ cs[1] \in Quote /\ cs[Len(cs)] = cs[1] /\ IsWord(Inner(cs)) /\ (\E i \in DOMAIN Inner(cs) : Inner(cs)[i] \in Letters \ {"_"}) /\ Inner(cs)[1] \notin Digit
      THEN [s |-> "'" \o Str(Inner(cs)) \o "'", t |-> "str"]
    ELSE [s |-> "", t |-> "?"]
=============================================================================
