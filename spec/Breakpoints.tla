---------------------------- MODULE Breakpoints ----------------------------
(***************************************************************************)
(* Which task a requested line stands for.                                 *)
(*                                                                         *)
(* The loaded part of a file is a set of marks <<line, type>>: type 1 is   *)
(* the line a task (or play) starts on, type 0 the line of a block, where  *)
(* nothing can stop.  Statically imported tasks and the rescue and always  *)
(* keywords have no mark of their own.  At most one mark per line counts:  *)
(* the one registered last.                                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

MarkLines(marks) == { m[1] : m \in marks }
TypeAt(marks, l) == (CHOOSE m \in marks : m[1] = l)[2]

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* The mark a requested line belongs to; 0: before the first one.
Owner(marks, req) ==
    LET before == { l \in MarkLines(marks) : l <= req } IN
    IF before = {} THEN 0 ELSE MaxOf(before)

\* [ver, line, end] for a file with these marks (which is not empty).
Resolve(marks, req) ==
    LET o     == Owner(marks, req)
        after == { l \in MarkLines(marks) : l > o }
    IN [ ver  |-> o # 0 /\ TypeAt(marks, o) = 1,
         line |-> o,
         end  |-> IF after = {} THEN o ELSE MinOf(after) - 1 ]

\* A file that is not loaded: unverified at the line asked for, no end.
Unloaded(req) == [ ver |-> FALSE, line |-> req, end |-> -1 ]

State(loaded, marks, req) == IF loaded /\ marks # {} THEN Resolve(marks, req) ELSE Unloaded(req)
=============================================================================
