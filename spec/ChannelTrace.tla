---------------------------- MODULE ChannelTrace ----------------------------
(***************************************************************************)
(* What two real endpoints did, checked against Channel: every event has   *)
(* to be one the specification allows where it happened, and whenever      *)
(* nothing happened any more, nothing may have been owed.                  *)
(***************************************************************************)
EXTENDS Channel, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, bad
tvars == <<vars, tr, k, bad>>

T == Traces[tr]
Ev == T.events[k]
Set(s) == {s[j] : j \in DOMAIN s}

TInit ==
    /\ tr \in DOMAIN Traces
    /\ InitWith([tr |-> T.cf.tr, tls |-> T.cf.tls, wire |-> T.cf.wire, calm |-> 0,
                 tmo |-> {e \in Ends : T.cf.tmo[e]}])
    /\ script = <<>> /\ acts = 0 /\ k = 1 /\ bad = {}

Allowed(ev) ==
    CASE ev.t = "started" -> MayStart(ev.e, ev.r, ev.early)
      [] ev.t = "sent" -> MaySend(ev.e, ev.r)
      [] ev.t = "recv" -> MayGet(ev.e, ev.i) /\ ev.exact
      [] ev.t = "closed" -> MayTell(ev.e, ev.err)
      [] ev.t = "stopped" -> ev.ok /\ MayStop(ev.e)
      [] ev.t = "cancelled" -> ev.ok
      [] ev.t = "quiet" -> Owed = {}
      [] ev.t = "end" -> (ev.file => stops["s"] # "done") /\ ev.threads = 0
      [] OTHER -> TRUE

Why(ev) == IF ev.t = "quiet" THEN {o[2] : o \in Owed} ELSE {ev.t}

Effect(ev) ==
    CASE ev.t = "start" -> Start(ev.e)
      [] ev.t = "started" -> Started(ev.e, ev.r)
      [] ev.t = "send" -> Send(ev.e)
      [] ev.t = "sent" -> Sent(ev.e, ev.r)
      [] ev.t = "recv" -> Get(ev.e)
      [] ev.t = "closed" -> Tell(ev.e, ev.err)
      [] ev.t = "stop" -> Stop(ev.e)
      [] ev.t = "stopped" -> Stopped(ev.e)
      [] ev.t = "cancel" -> Cancel(ev.e)
      [] ev.t = "cancelled" -> Cancelled(ev.e)
      [] ev.t = "hold" -> Hold(ev.e)
      [] ev.t = "free" -> Free
      [] ev.t = "break" -> Fault(ev.k, Set(ev.mid))
      [] OTHER -> UNCHANGED state

TNext ==
    /\ bad = {} /\ k <= Len(T.events)
    /\ IF Allowed(Ev) THEN Effect(Ev) /\ k' = k + 1 /\ UNCHANGED bad
                      ELSE bad' = Why(Ev) /\ UNCHANGED <<state, k>>
    /\ UNCHANGED <<script, acts, tr>>
TSpec == TInit /\ [][TNext]_tvars

Judge == (bad # {} \/ k > Len(T.events)) => PrintT("RES " \o ToJson([id |-> T.id, k |-> k, bad |-> bad]))
=============================================================================
