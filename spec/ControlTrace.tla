---------------------------- MODULE ControlTrace ----------------------------
(***************************************************************************)
(* Checks recorded debug sessions of the real program against Control.     *)
(*                                                                         *)
(* A trace is the time-ordered merge of what Ansible did (start, end,      *)
(* endmeta, play, playend) and what went over the client's wire.  The      *)
(* specification state is advanced along the trace; at every event the     *)
(* specification says what is allowed, and every difference is recorded in *)
(* viol under the name of the broken rule.  Where the code differs from    *)
(* the specification the checker follows the code, so that one difference  *)
(* does not hide or fake others.                                           *)
(***************************************************************************)
EXTENDS Control, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, st

vars == <<tr, pos, st>>
T == Traces[tr].events

NoInst == [e |-> "none"]
NoStop == [r |-> "none"]

Start0 ==
    [ mode    |-> <<>>,   \* host -> mode
      stacks  |-> <<>>,   \* host -> stack
      results |-> <<>>,   \* results not yet looked at by the strategy
      last    |-> <<>>,   \* <<h, u>> -> instance last started
      stopped |-> NoStop,
      owed    |-> FALSE,  \* a resume was sent and nothing has moved since
      bps     |-> {},     \* breakpoints as last reported to the client
      alt     |-> {},     \* other breakpoint sets the next start may be decided with
      npend   |-> 0,      \* setBreakpoints requests not yet answered
      ids     |-> {},     \* breakpoint ids ever reported
      filters |-> {},
      threads |-> <<>>,   \* live thread id -> host ("?" while not known)
      tids    |-> {},     \* thread ids ever announced
      begun   |-> {},     \* hosts that started a task in this play
      frames  |-> <<>>,   \* frame id -> <<host, u, serial>>
      serial  |-> 0,
      inplay  |-> FALSE,
      ended   |-> FALSE,
      stops   |-> 0,
      viol    |-> <<>> ]

ModeOf(s, h)  == IF Has(s.mode, h) THEN s.mode[h] ELSE RunMode
StackOf(s, h) == IF Has(s.stacks, h) THEN s.stacks[h] ELSE <<>>
V(s, cond, rule, info) ==
    IF cond THEN s ELSE [s EXCEPT !.viol = Append(@, [rule |-> rule, pos |-> pos, info |-> ToString(info)])]

(* Results up to (not including) the first one that must stop. *)
RECURSIVE SkipQuiet(_)
SkipQuiet(s) ==
    IF s.results = <<>> THEN s
    ELSE LET r == s.results[1] IN
         IF ExceptionKind(r, s.filters) # "none" THEN s
         ELSE SkipQuiet([s EXCEPT !.results = Tail(@),
                                  !.stacks = Put(s.stacks, r.h, StackAtEnd(StackOf(s, r.h), r.inc))])

(* All results must be quiet now: whatever is not was a missed stop. *)
RECURSIVE DrainResults(_)
DrainResults(s0) ==
    LET s == SkipQuiet(s0) IN
    IF s.results = <<>> THEN s
    ELSE LET r  == s.results[1]
             s1 == V(s, FALSE, "missed-exception", <<r.h, r.name>>) IN
         DrainResults([s1 EXCEPT !.results = Tail(@),
                                 !.stacks = Put(s1.stacks, r.h, StackAtEnd(StackOf(s1, r.h), r.inc))])

(* Something of the play moves on. *)
Moves(s) == [V(s, s.stopped = NoStop, "progress-while-stopped", T[pos]) EXCEPT !.owed = FALSE]

\* While a request that replaces breakpoints is on its way either set applies,
\* and until the next start also what was set when that was decided.
Needs(s, m, inst) == { StopReason(m, inst, b) : b \in {s.bps} \cup s.alt }
AnyCovering(s, inst) == UNION { Covering(b, inst) : b \in {s.bps} \cup s.alt }

\* The next start will be decided with what is set from here on.
Decided(s) == IF s.npend = 0 THEN [s EXCEPT !.alt = {}] ELSE s

OnStart(s0, e) ==
    LET s  == DrainResults(Moves(s0))
        m  == ModeOf(s, e.h)
        need == Needs(s, m, e)
        \* the stop for exactly this start was seen just before
        had  == e.stopped
        s1 == IF had \/ m.m = "any" THEN s
              ELSE V(V(s, need # {"step"}, "missed-step", <<m, e.h, e.name>>),
                     need # {"breakpoint"}, "missed-breakpoint", <<e.h, e.name>>)
        s2 == IF had THEN s1
              ELSE [s1 EXCEPT !.stacks = Put(s1.stacks, e.h, StackAtStart(StackOf(s1, e.h), e))]
        s3 == Decided(s2)
    IN [s3 EXCEPT !.last = Put(s2.last, <<e.h, e.u>>, e), !.begun = @ \cup {e.h}]

OnEnd(s0, e) ==
    LET s == Moves(s0) IN [s EXCEPT !.results = Append(@, e)]

OnEndMeta(s0, e) ==
    LET s == DrainResults(Moves(s0)) IN
    IF e.raw = "refresh_inventory"
      THEN [s EXCEPT !.stacks = <<>>, !.mode = <<>>, !.begun = {}]
      ELSE [s EXCEPT !.stacks = Put(s.stacks, e.h, StackAtEnd(StackOf(s, e.h), FALSE))]

OnPlay(s0, e) ==
    LET s == DrainResults(Moves(s0)) IN
    [s EXCEPT !.mode = <<>>, !.stacks = <<>>, !.begun = {}, !.inplay = (e.e = "play")]

(* The client is told about a stop. *)
CheckLive(s, h) ==
    LET named == { s.threads[t] : t \in DOMAIN s.threads } IN
    V(V(s, (s.begun \cup {h}) \subseteq named \/ "?" \in named, "thread-not-announced", <<h, s.begun, s.threads>>),
      named \subseteq (s.begun \cup {h, "?"}), "thread-not-exited", <<h, s.begun, s.threads>>)

OnStop(s0, e) ==
    LET s1 == V(s0, s0.stopped = NoStop, "second-stop", e)
        s2 == V(s1, e.tid \in DOMAIN s1.threads, "stop-of-unknown-thread", e.tid)
        s3 == IF e.h = "?" THEN s2 ELSE CheckLive(s2, e.h)
        s4 == [s3 EXCEPT !.owed = FALSE, !.stops = @ + 1]
    IN
    IF e.reason = "exception" THEN
      LET s == SkipQuiet(s4) IN
      IF s.results # <<>> /\ s.results[1].h = e.h
        THEN LET r    == s.results[1]
                 kind == ExceptionKind(r, s.filters)
                 a == V(s, e.desc = (CASE kind = "failed" -> "Task failed"
                                       [] kind = "unreachable" -> "Host unreachable"
                                       [] kind = "skipped" -> "Task skipped"), "exception-description", <<e.desc, kind>>)
                 b == V(a, kind = "skipped" \/ e.hasmsg, "exception-message", <<e.h, r.name>>)
                 inst == IF Has(b.last, <<r.h, r.u>>) THEN b.last[<<r.h, r.u>>] ELSE NoInst
             IN [b EXCEPT !.stopped = [r |-> "exception", h |-> e.h, tid |-> e.tid, inst |-> inst]]
        ELSE LET a == V(s, FALSE, "spurious-exception", <<e.h, e.desc>>) IN
             [a EXCEPT !.stopped = [r |-> "odd", h |-> e.h, tid |-> e.tid, inst |-> NoInst]]
    ELSE
      LET s == DrainResults(s4) IN
      IF e.inst.e = "none"
        THEN LET a == V(s, e.last, "stop-without-task", <<e.h, e.reason>>) IN
             [a EXCEPT !.stopped = [r |-> "odd", h |-> e.h, tid |-> e.tid, inst |-> NoInst]]
        ELSE
          LET i    == e.inst
              m    == ModeOf(s, e.h)
              need == Needs(s, m, i)
              cov  == AnyCovering(s, i)
              a == IF m.m = "any" THEN s
                   ELSE V(V(V(V(s, ~(e.reason = "step" /\ "step" \notin need), "spurious-step", <<m, e.h, i.name, need>>),
                            ~(e.reason = "breakpoint" /\ need = {"none"}), "spurious-breakpoint", <<m, e.h, i.name, i.line, s.bps>>),
                            ~(e.reason = "breakpoint" /\ need = {"step"}), "missed-step", <<m, e.h, i.name>>),
                            ~(e.reason = "step" /\ need = {"breakpoint"}), "missed-breakpoint", <<m, e.h, i.name>>)
              b == V(a, e.reason = "breakpoint" =>
                          /\ Len(e.bps) >= 1
                          /\ \A k \in Range(e.bps) : \E x \in cov : x.id = k, "wrong-breakpoint-id", <<e.bps, i.name, i.line>>)
              c == V(b, e.reason = "step" => e.bps = <<>>, "step-with-breakpoint-id", e.bps)
              d == Decided(c)
          IN [d EXCEPT !.stacks = Put(c.stacks, e.h, StackAtStart(StackOf(c, e.h), i)),
                       !.stopped = [r |-> e.reason, h |-> e.h, tid |-> e.tid, inst |-> i]]

(* Answer to a stack trace request. *)
RECURSIVE BindFrames(_, _, _, _)
BindFrames(s, h, k, fr) ==
    LET stack == StackOf(s, h) IN
    IF k > Len(fr) \/ k > Len(stack) THEN s
    ELSE LET f == stack[k]
             id == fr[k].id
             fresh == f.id = 0
             s1 == IF fresh
                     THEN [V(s, id \notin DOMAIN s.frames /\ id > 0, "frame-id-reused", <<h, id, f.name>>)
                             EXCEPT !.frames = Put(s.frames, id, <<h, f.u>>),
                                    !.stacks = Put(s.stacks, h, [stack EXCEPT ![k].id = id])]
                     ELSE V(s, f.id = id, "frame-id-changed", <<h, f.name, f.id, id>>)
         IN BindFrames(s1, h, k + 1, fr)

OnStack(s, e) ==
    IF s.stopped = NoStop \/ e.h = "?" \/ s.stopped.r = "odd" THEN s
    ELSE IF e.h # s.stopped.h THEN
      \* another thread: its frames belong to that host and keep their ids
      LET ids == { e.frames[k].id : k \in DOMAIN e.frames } IN
      V(s, \A id \in ids : Has(s.frames, id) => s.frames[id][1] = e.h, "frame-of-other-host", e.frames)
    ELSE
      LET want == StackOf(s, e.h)
          same == /\ Len(want) = Len(e.frames)
                  /\ \A k \in DOMAIN want :
                        /\ want[k].path = e.frames[k].path
                        /\ want[k].line = e.frames[k].line
                        /\ want[k].name = e.frames[k].name
          s1 == V(s, same, "wrong-stack", <<[k \in DOMAIN want |-> <<want[k].name, want[k].path, want[k].line>>], e.frames>>)
          s2 == V(s1, e.total = Len(e.frames), "wrong-total-frames", e.total)
      IN IF same THEN BindFrames(s2, e.h, 1, e.frames) ELSE s2

OnThreads(s, e) ==
    LET L == Range(e.list)
        \* a host is put into the table a moment before (after) its event is sent
        moving == Range(e.moving)
        mains == { x \in L : x.id \notin DOMAIN s.threads \cup moving }
    IN V(V(V(s, DOMAIN s.threads \ moving \subseteq { x.id : x \in L } /\ Cardinality(L) = Len(e.list), "thread-missing", e.list),
           Cardinality(mains) = 1 /\ \A x \in mains : x.name = "main", "unexpected-thread", e.list),
         \A x \in L : (Has(s.threads, x.id) /\ s.threads[x.id] # "?") => s.threads[x.id] = x.name, "thread-name", e.list)

OnThreadAdd(s, e) ==
    LET s1 == V(s, e.tid \notin s.tids, "thread-id-reused", e.tid)
        s2 == V(s1, e.h = "?" \/ \A t \in DOMAIN s1.threads : s1.threads[t] # e.h, "thread-announced-twice", e.h)
    IN [s2 EXCEPT !.threads = Put(s2.threads, e.tid, e.h), !.tids = @ \cup {e.tid}]

OnThreadExit(s, e) ==
    LET s1 == V(s, e.tid \in DOMAIN s.threads, "exit-of-unknown-thread", e.tid)
        s2 == V(s1, s1.stopped = NoStop, "thread-exit-while-stopped", e.tid)
    IN [s2 EXCEPT !.threads = Del(s2.threads, e.tid)]

OnResume(s, e) ==
    IF s.stopped = NoStop THEN s
    ELSE IF e.kind = "continue" /\ ~e.single
      THEN [s EXCEPT !.stopped = NoStop, !.owed = TRUE,
                     !.mode = [h \in DOMAIN s.mode |-> RunMode],
                     !.results = IF s.stopped.r = "exception" THEN Tail(s.results) ELSE s.results,
                     !.stacks = IF s.stopped.r = "exception"
                                  THEN Put(s.stacks, s.stopped.h, StackAtEnd(StackOf(s, s.stopped.h), s.results[1].inc))
                                  ELSE s.stacks]
    ELSE IF e.tid = s.stopped.tid
      THEN [s EXCEPT !.stopped = NoStop, !.owed = TRUE,
                     !.mode = Put(s.mode, e.h, IF e.kind = "continue" THEN RunMode
                                               ELSE IF s.stopped.inst.e = "none" THEN AnyMode
                                               ELSE AfterResume(e.kind, s.stopped.inst)),
                     !.results = IF s.stopped.r = "exception" THEN Tail(s.results) ELSE s.results,
                     !.stacks = IF s.stopped.r = "exception"
                                  THEN Put(s.stacks, s.stopped.h, StackAtEnd(StackOf(s, s.stopped.h), s.results[1].inc))
                                  ELSE s.stacks]
    ELSE [s EXCEPT !.mode = Put(s.mode, e.h, IF e.kind = "continue" THEN RunMode ELSE AnyMode)]

Replaced(old, e) == { b \in old : b.src # e.src } \cup { b \in Range(e.bps) : ~e.modified }

\* The request is sent (e.bps as it will be answered).
OnSetBpsReq(s, e) ==
    [s EXCEPT !.alt = @ \cup { Replaced(b, e) : b \in {s.bps} \cup @ }, !.npend = @ + 1]

OnSetBps(s, e) ==
    LET new == Range(e.bps)
        s1 == V(s, { b.id : b \in new } \cap s.ids = {} /\ Cardinality({ b.id : b \in new }) = Len(e.bps),
                "breakpoint-id-reused", e.bps)
    IN [s1 EXCEPT !.bps = Replaced(@, e),
                  \* a task whose start was decided before may be reported later
                  !.alt = IF s.stopped = NoStop THEN @ \cup {s.bps} ELSE {},
                  !.npend = @ - 1,
                  !.ids = @ \cup { b.id : b \in new }]

Updated(set, e) == { IF b.id = e.id THEN [b EXCEPT !.ver = e.ver, !.line = e.line, !.end = e.end] ELSE b : b \in set }

OnBpChange(s, e) ==
    LET old == { b \in s.bps : b.id = e.id } IN
    IF old = {} THEN V(s, FALSE, "event-for-unset-breakpoint", e.id)
    ELSE [s EXCEPT !.bps = Updated(@, e), !.alt = { Updated(b, e) : b \in @ }]

OnTerminated(s0, e) ==
    LET s == IF e.natural THEN DrainResults(Moves(s0)) ELSE s0 IN
    IF ~e.natural THEN s
    ELSE V([s EXCEPT !.ended = TRUE], s.threads = <<>>, "thread-not-exited", s.threads)

(* What became of the session as a whole. *)
OnOutcome(s, e) ==
    V(V(V(s, ~e.hang, "session-hang", e.info), ~e.crash, "crash", e.info),
      ~e.hang => s.stopped = NoStop \/ ~e.natural, "ended-while-stopped", e.info)

Apply(s, e) ==
    CASE e.e = "start"   -> OnStart(s, e)
      [] e.e = "end"     -> OnEnd(s, e)
      [] e.e = "endmeta" -> OnEndMeta(s, e)
      [] e.e \in {"play", "playend"} -> OnPlay(s, e)
      [] e.e = "stop"    -> OnStop(s, e)
      [] e.e = "stack"   -> OnStack(s, e)
      [] e.e = "threads" -> OnThreads(s, e)
      [] e.e = "thradd"  -> OnThreadAdd(s, e)
      [] e.e = "threxit" -> OnThreadExit(s, e)
      [] e.e = "resume"  -> OnResume(s, e)
      [] e.e = "setbpreq" -> OnSetBpsReq(s, e)
      [] e.e = "setbp"   -> OnSetBps(s, e)
      [] e.e = "bpchg"   -> OnBpChange(s, e)
      [] e.e = "filters" -> [s EXCEPT !.filters = Range(e.on)]
      [] e.e = "term"    -> OnTerminated(s, e)
      [] e.e = "outcome" -> OnOutcome(s, e)

Init == tr \in 1..Len(Traces) /\ pos = 1 /\ st = Start0

Next ==
    \/ /\ pos <= Len(T)
       /\ st' = Apply(st, T[pos])
       /\ pos' = pos + 1
       /\ UNCHANGED tr
    \/ /\ pos = Len(T) + 1
       /\ PrintT("RES " \o ToJson([tr |-> tr, id |-> Traces[tr].id, viol |-> st.viol, stops |-> st.stops]))
       /\ pos' = pos + 1
       /\ UNCHANGED <<tr, st>>

Spec == Init /\ [][Next]_vars
=============================================================================
