------------------------------ MODULE Control ------------------------------
(***************************************************************************)
(* How a debug client controls the execution of an Ansible play.           *)
(*                                                                         *)
(* The strategy thread runs task instances one after another.  An instance *)
(* is a record                                                             *)
(*   [h |-> host, u |-> task identity, path, line, name, chain, inc, meta] *)
(* where chain is the sequence of the identities of the include_tasks /    *)
(* include_role tasks the instance is nested in, innermost first (blocks   *)
(* and static imports do not appear in it), and inc says whether the       *)
(* instance itself is such an include.  path = "" for implicit tasks that  *)
(* exist in no file: these can never be stopped at.                        *)
(*                                                                         *)
(* This module contains the state of the debugger and the meaning of every *)
(* client request and of every step of the play as pure operators.         *)
(*   ControlMC    explores all client behaviours over given plays          *)
(*   ControlTrace checks recorded sessions of the real program             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(s) == { s[k] : k \in DOMAIN s }

\* Functions with a domain that grows.
Has(f, x)    == x \in DOMAIN f
Put(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]
Del(f, x)    == [ y \in DOMAIN f \ {x} |-> f[y] ]

(***************************** stepping ***********************************)
Scope(inst) == IF inst.chain = <<>> THEN "" ELSE inst.chain[1]

\* mode: run | over | in | out | any (any: a request whose effect on a
\* thread that is not stopped is left open)
RunMode == [m |-> "run", ref |-> ""]
AnyMode == [m |-> "any", ref |-> ""]

\* The mode of a thread that was stopped at inst and gets a resume request.
\* continue is for the one thread unless the client says otherwise
\* (continueAll, which also ends the pending steps of all other threads).
AfterResume(kind, inst) ==
    CASE kind = "continue" -> RunMode
      [] kind = "next"     -> [m |-> "over", ref |-> Scope(inst)]
      [] kind = "stepIn"   -> IF inst.inc THEN [m |-> "in", ref |-> ""]
                                          ELSE [m |-> "over", ref |-> Scope(inst)]
      [] kind = "stepOut"  -> [m |-> "out", ref |-> Scope(inst)]

\* Does a pending step stop at inst?
StepStops(mode, inst) ==
    /\ inst.path # ""
    /\ \/ mode.m = "over" /\ Scope(inst) = mode.ref
       \/ mode.m = "in"
       \/ mode.m = "out" /\ mode.ref # "" /\ mode.ref \notin Range(inst.chain)

(**************************** breakpoints *********************************)
\* A breakpoint: [id, path, ver, line, end, cond] ; end = -1: no upper bound;
\* cond is a function host -> BOOLEAN (the value of its condition there).
CondTrue(b, h) == IF Has(b.cond, h) THEN b.cond[h] ELSE b.cond["*"]

Covering(bps, inst) ==
    { b \in bps : /\ b.ver
                  /\ inst.path # ""
                  /\ b.path = inst.path
                  /\ b.line <= inst.line
                  /\ b.end = -1 \/ inst.line <= b.end
                  /\ CondTrue(b, inst.h) }

\* What must happen when inst is about to start in the given mode.
StopReason(mode, inst, bps) ==
    IF StepStops(mode, inst) THEN "step"
    ELSE IF mode.m # "out" /\ Covering(bps, inst) # {} THEN "breakpoint"
    ELSE "none"

(**************************** exceptions **********************************)
\* A result: [h, u, failed, unreach, skipped, ign, ignu, cov] ; cov: some
\* enclosing block has a rescue and the task is in its block section.
ExceptionKind(r, filters) ==
    IF r.failed /\ ~r.ign
      THEN IF "on_error" \in filters /\ ~r.cov THEN "failed" ELSE "none"
    ELSE IF r.unreach /\ ~r.ignu
      THEN IF "on_unreachable" \in filters THEN "unreachable" ELSE "none"
    ELSE IF r.skipped
      THEN IF "on_skipped" \in filters THEN "skipped" ELSE "none"
    ELSE "none"

(***************************** stack frames *******************************)
\* A frame is [u, path, line, name, id]; id = 0 while the client has not been
\* told its number.  A stack is a sequence of frames, innermost first.
RECURSIVE DropOutside(_, _)
DropOutside(stack, chain) ==
    IF stack = <<>> THEN <<>>
    ELSE IF stack[1].u \in Range(chain) THEN stack
    ELSE DropOutside(Tail(stack), chain)

FrameOf(inst) == [u |-> inst.u, path |-> inst.path, line |-> inst.line, name |-> inst.name, id |-> 0]

\* The stack when inst is about to run / once its result was processed.
StackAtStart(stack, inst) == <<FrameOf(inst)>> \o DropOutside(stack, inst.chain)
StackAtEnd(stack, inc)    == IF inc \/ stack = <<>> THEN stack ELSE Tail(stack)
=============================================================================
