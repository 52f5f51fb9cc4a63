------------------------------ MODULE Channel ------------------------------
(***************************************************************************)
(* The channel between the adapter and the debuggee (C16).                 *)
(*                                                                         *)
(* Two ends: "s" binds an address and accepts, "c" connects.  Each has a   *)
(* thread that calls start, send and stop, one that receives, and others   *)
(* that may cancel or stop it at any moment.  The stream between them can  *)
(* be held up, cut or reset.  Every action is something a user of the two  *)
(* endpoints sees: a call, its return, a message delivered, the end told.  *)
(* A call is noted before it is made and everything else after it          *)
(* happened, so what is noted is never ahead of its cause.                 *)
(*                                                                         *)
(* The May... operators say what may come out, the Owe... operators what   *)
(* has to come out if nothing else happens any more.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSends,     \* messages per end
          MaxActs,      \* things done to the channel
          Emitting      \* behaviours are printed for replay

Ends == {"s", "c"}
Other(e) == IF e = "s" THEN "c" ELSE "s"

CONSTANT Calm    \* how many things may happen before anything is ended

VARIABLES
    cf,        \* [tr, tls, wire, tmo]: transport, TLS, "direct", "proxy" or "mute" (nobody takes connections), which ends have a timeout
    ph,        \* "new", "starting", "up", "failed"
    pre,       \* cancelled before it was started
    asked,     \* cancelled or asked to stop
    stops,     \* "no", "in", "done"
    cancels,   \* "no", "in", "done"
    sending,   \* a send is under way
    begun,     \* messages whose send was called
    whole,     \* messages whose send returned
    torn,      \* a send was given up
    got,       \* messages delivered
    told,      \* "no", "clean", "error"
    loss,      \* something had not been read when it was closed
    held,      \* directions in which nothing passes
    fault,     \* [k, mid]: what happened to the stream, in which directions inside a message
    hasty,     \* stopped from elsewhere while it was being started
    gone,      \* stopped for good: the call returned, and nothing was still being started
    script, acts
state == <<cf, ph, pre, asked, stops, cancels, sending, begun, whole, torn, got, told, loss, held, fault, hasty, gone>>
vars == <<state, script, acts>>

Configs == {x \in [tr: {"tcp", "uds"}, tls: BOOLEAN, wire: {"direct", "proxy", "mute"}, tmo: SUBSET Ends, calm: Calm] :
                x.wire = "mute" => x.tr = "tcp"}

InitWith(x) ==
    /\ cf = x
    /\ ph = [e \in Ends |-> "new"]
    /\ pre = {} /\ asked = {} /\ torn = {} /\ loss = {} /\ held = {} /\ gone = {} /\ hasty = {}
    /\ stops = [e \in Ends |-> "no"] /\ cancels = [e \in Ends |-> "no"]
    /\ sending = {}
    /\ begun = [e \in Ends |-> 0] /\ whole = [e \in Ends |-> 0] /\ got = [e \in Ends |-> 0]
    /\ told = [e \in Ends |-> "no"]
    /\ fault = [k |-> "no", mid |-> {}]

Gone(e) == e \in gone
Broken == fault.k # "no"
Mute == cf.wire = "mute"
Flying(e) == begun[e] > got[Other(e)]       \* something sent by e may not have been read

-----------------------------------------------------------------------------
(* what may come out *)

MayStart(e, r, early) ==
    LET p == Other(e) IN
    /\ ph[e] = "starting"
    /\ CASE r = "ok" -> ph[p] # "new" /\ e \notin pre /\ ~Mute
         [] r = "cancelled" -> e \in asked
         [] r = "timeout" -> e \in cf.tmo /\ ~early /\ e \notin pre
         [] r = "error" -> /\ e \notin pre /\ ~Mute
                           /\ \/ Broken \/ p \in asked \/ ph[p] = "failed"
                              \/ e = "c" /\ cf.tls /\ "s" \in cf.tmo     \* the handshake took too long
                           /\ ~(e = "s" /\ cf.tls)
         [] OTHER -> FALSE

MaySend(e, r) ==
    /\ e \in sending
    /\ CASE r = "ok" -> LET p == Other(e) IN     \* not if the peer has seen the end without it
                            ~(told[p] = "clean" /\ p \notin asked /\ ~Broken /\ e \notin loss /\ got[p] < begun[e])
         [] r = "cancelled" -> e \in asked
         [] r = "error" -> Broken \/ Other(e) \in asked \/ told[e] # "no"
         [] OTHER -> FALSE

Receiving(e) == ph[e] \in {"starting", "up"} /\ told[e] = "no" /\ ~Gone(e)

MayGet(e, k) == Receiving(e) /\ k = got[e] + 1 /\ k <= begun[Other(e)]

\* everything the peer handed over has arrived, or could get lost
Complete(e) == LET p == Other(e) IN got[e] >= whole[p] \/ p \in loss \/ Broken
Cut(e) == Other(e) \in fault.mid /\ ~cf.tls

MayTell(e, err) ==
    LET p == Other(e) IN
    /\ Receiving(e)
    /\ IF err
       THEN \/ fault.k = "rst" \/ p \in fault.mid
            \/ (fault.k = "cut" /\ (cf.tls \/ Flying(e) \/ ph[p] # "up"))
            \/ (p \in asked /\ (p \in torn \/ p \in sending \/ Flying(e) \/ e \in sending \/ p \in loss))
       ELSE \/ e \in asked
            \/ /\ p \in asked \/ ph[p] = "failed" \/ Broken
               /\ Complete(e) /\ ~Cut(e)

MayStop(e) == stops[e] = "in" /\ (e \in hasty \/ ~(ph[e] = "up" /\ told[e] = "no"))

-----------------------------------------------------------------------------
(* what has to come out *)

OweStart(e) ==
    LET p == Other(e) IN
    /\ ph[e] = "starting"
    /\ \/ e \in asked \/ e \in cf.tmo
       \/ ph[p] \in {"starting", "up"} /\ held = {} /\ ~Broken /\ p \notin asked /\ ~Mute
       \/ (e = "c" /\ ~Mute /\ ((Gone("s") /\ held = {}) \/ Broken))

OweSend(e) ==
    LET p == Other(e) IN
    e \in sending /\ (e \in asked \/ Broken \/ (e \notin held /\ (Gone(p) \/ (ph[p] = "up" /\ told[p] = "no"))))

OweGet(e) ==
    LET p == Other(e) IN
    /\ ph[e] = "up" /\ told[e] = "no" /\ e \notin asked /\ p \notin held /\ ~Broken
    /\ got[e] < whole[p] /\ p \notin loss

OweTell(e) ==
    LET p == Other(e) IN
    /\ ph[e] = "up" /\ told[e] = "no"
    \* (TLS answers a stream that ends too early, which takes a way out: a peer that is
    \*  gone refuses what it gets, unless it is held up on the way)
    /\ e \in asked \/ Broken \/ (Gone(p) /\ ph[p] = "up" /\ p \notin held /\ ~(cf.tls /\ e \in held /\ Flying(e)))

OweStop(e) == stops[e] = "in"
OweCancel(e) == cancels[e] = "in"

Owed == {<<e, x>> \in Ends \X {"start", "send", "message", "close", "stop", "cancel"} :
            (CASE x = "start" -> OweStart(e) [] x = "send" -> OweSend(e) [] x = "message" -> OweGet(e)
              [] x = "close" -> OweTell(e) [] x = "stop" -> OweStop(e) [] x = "cancel" -> OweCancel(e))}

-----------------------------------------------------------------------------
(* effects *)

Start(e) ==
    /\ ph[e] = "new"
    /\ ph' = [ph EXCEPT ![e] = "starting"]
    /\ pre' = IF cancels[e] = "done" \/ stops[e] = "done" THEN pre \union {e} ELSE pre
    /\ UNCHANGED <<cf, asked, stops, cancels, sending, begun, whole, torn, got, told, loss, held, fault, hasty, gone>>

Started(e, r) ==
    /\ ph' = [ph EXCEPT ![e] = IF r = "ok" THEN "up" ELSE "failed"]
    /\ UNCHANGED <<cf, pre, asked, stops, cancels, sending, begun, whole, torn, got, told, loss, held, fault, hasty, gone>>

Send(e) ==
    LET p == Other(e) IN
    /\ ph[e] = "up" /\ e \notin sending
    /\ begun' = [begun EXCEPT ![e] = @ + 1]
    /\ sending' = sending \union {e}
    /\ loss' = IF p \in asked THEN loss \union {p} ELSE loss
    /\ UNCHANGED <<cf, ph, pre, asked, stops, cancels, whole, torn, got, told, held, fault, hasty, gone>>

Sent(e, r) ==
    /\ sending' = sending \ {e}
    /\ IF r = "ok" THEN whole' = [whole EXCEPT ![e] = begun[e]] /\ UNCHANGED torn
                   ELSE torn' = torn \union {e} /\ UNCHANGED whole
    /\ UNCHANGED <<cf, ph, pre, asked, stops, cancels, begun, got, told, loss, held, fault, hasty, gone>>

Get(e) ==
    /\ got' = [got EXCEPT ![e] = @ + 1]
    /\ UNCHANGED <<cf, ph, pre, asked, stops, cancels, sending, begun, whole, torn, told, loss, held, fault, hasty, gone>>

Tell(e, err) ==
    /\ told' = [told EXCEPT ![e] = IF err THEN "error" ELSE "clean"]
    /\ UNCHANGED <<cf, ph, pre, asked, stops, cancels, sending, begun, whole, torn, got, loss, held, fault, hasty, gone>>

Ask(e) ==
    /\ asked' = asked \union {e}
    /\ loss' = IF Flying(Other(e)) \/ ph[e] = "starting" THEN loss \union {e} ELSE loss

Stop(e) ==
    /\ stops[e] = "no"
    /\ stops' = [stops EXCEPT ![e] = "in"] /\ Ask(e)
    /\ hasty' = IF ph[e] = "starting" THEN hasty \union {e} ELSE hasty
    /\ UNCHANGED <<cf, ph, pre, cancels, sending, begun, whole, torn, got, told, held, fault, gone>>

Stopped(e) ==
    /\ stops' = [stops EXCEPT ![e] = "done"]
    /\ gone' = IF ph[e] = "starting" \/ (e \in hasty /\ ph[e] = "up") THEN gone ELSE gone \union {e}
    /\ UNCHANGED <<cf, ph, pre, asked, cancels, sending, begun, whole, torn, got, told, loss, held, fault, hasty>>

Cancel(e) ==
    /\ cancels[e] = "no"
    /\ cancels' = [cancels EXCEPT ![e] = "in"] /\ Ask(e)
    /\ UNCHANGED <<cf, ph, pre, stops, sending, begun, whole, torn, got, told, held, fault, hasty, gone>>

Cancelled(e) ==
    /\ cancels[e] = "in"
    /\ cancels' = [cancels EXCEPT ![e] = "done"]
    /\ UNCHANGED <<cf, ph, pre, asked, stops, sending, begun, whole, torn, got, told, loss, held, fault, hasty, gone>>

Hold(d) == held' = held \union {d} /\ UNCHANGED <<cf, ph, pre, asked, stops, cancels, sending, begun, whole, torn, got, told, loss, fault, hasty, gone>>
Free == held' = {} /\ UNCHANGED <<cf, ph, pre, asked, stops, cancels, sending, begun, whole, torn, got, told, loss, fault, hasty, gone>>
Fault(k, mid) ==
    /\ fault' = [k |-> k, mid |-> mid] /\ held' = {}
    /\ UNCHANGED <<cf, ph, pre, asked, stops, cancels, sending, begun, whole, torn, got, told, loss, hasty, gone>>

-----------------------------------------------------------------------------
(* the behaviours that are replayed: what is done to the ends, in order *)

Do(op, e, x) == /\ acts < MaxActs
                /\ script' = IF Emitting THEN Append(script, [op |-> op, e |-> e, x |-> x]) ELSE script
                /\ acts' = acts + 1

Busy(e) == ph[e] = "starting" \/ e \in sending \/ stops[e] = "in"

Env(e) ==
    \/ Start(e) /\ Do("start", e, "")
    \/ \E z \in {"s", "m", "l", "x"} :
          begun[e] < MaxSends /\ stops[e] = "no" /\ Send(e) /\ Do("send", e, IF Emitting THEN z ELSE "")
    \/ /\ acts >= cf.calm
       /\ \/ ~Busy(e) /\ Stop(e) /\ Do("stop", e, "")
          \/ Stop(e) /\ Do("kill", e, "")
          \/ stops[e] = "no" /\ Cancel(e) /\ Do("cancel", e, "")
    \/ cf.wire = "proxy" /\ ~Broken /\ "new" \notin {ph[q] : q \in Ends} /\
          ( \/ e \notin held /\ Hold(e) /\ Do("hold", e, "")
            \/ held # {} /\ e = "s" /\ Free /\ Do("free", e, "")
            \/ acts >= cf.calm /\ \E k \in {"cut", "mid", "rst"} : (k = "mid" => Flying(e)) /\ Fault(IF k = "rst" THEN k ELSE "cut", IF k = "mid" THEN {e} ELSE {}) /\ Do("break", e, k) )

Settle == /\ Emitting /\ Owed = {} /\ acts < MaxActs
          /\ script # <<>> /\ script[Len(script)].op # "settle"
          /\ script' = Append(script, [op |-> "settle", e |-> "s", x |-> ""]) /\ UNCHANGED <<state, acts>>

Sys(e) ==
    \/ \E r \in {"ok", "cancelled", "timeout", "error"} : MayStart(e, r, FALSE) /\ (r = "ok" \/ OweStart(e)) /\ Started(e, r)
    \/ \E r \in {"ok", "cancelled", "error"} : MaySend(e, r) /\ (r = "ok" => OweSend(e) \/ e \notin held) /\ Sent(e, r)
    \/ MayGet(e, got[e] + 1) /\ Other(e) \notin held /\ (ph[e] = "up") /\ got[e] < begun[Other(e)] /\ Get(e)
    \/ \E err \in BOOLEAN : MayTell(e, err) /\ ph[e] = "up" /\ Tell(e, err)
    \/ MayStop(e) /\ Stopped(e)
    \/ Cancelled(e)

Finished == \A e \in Ends : stops[e] = "done" /\ ph[e] # "starting" /\ e \notin sending /\ cancels[e] # "in" /\ (ph[e] = "up" => told[e] # "no")

Init == /\ \E x \in Configs : InitWith(x)
        /\ script = <<>> /\ acts = 0
Next == \/ \E e \in Ends : Env(e) \/ (Sys(e) /\ UNCHANGED <<script, acts>>)
        \/ Settle
Spec == Init /\ [][Next]_vars /\ \A e \in Ends : WF_vars(Sys(e) /\ UNCHANGED <<script, acts>>)

-----------------------------------------------------------------------------
(* properties *)

TypeOK == /\ \A e \in Ends : got[e] <= begun[Other(e)] /\ whole[e] <= begun[e]
          /\ asked \subseteq Ends /\ held \subseteq Ends

\* nothing that was handed over is missing once the end is told, unless the stream broke,
\* the receiver itself was stopped, or the sender left without reading what it was sent
NoLoss == \A e \in Ends : (told[e] # "no" /\ e \notin asked /\ ~Broken /\ Other(e) \notin loss /\ told[e] = "clean")
                             => got[e] >= whole[Other(e)]

\* what is owed can come
Consistent == \A e \in Ends :
    /\ OweStart(e) => \E r \in {"ok", "cancelled", "timeout", "error"} : MayStart(e, r, FALSE)
    /\ OweSend(e) => \E r \in {"ok", "cancelled", "error"} : MaySend(e, r)
    /\ OweGet(e) => MayGet(e, got[e] + 1)
    /\ OweTell(e) => \/ \E err \in BOOLEAN : MayTell(e, err)
                     \/ OweGet(e)
    /\ OweStop(e) => MayStop(e) \/ OweTell(e)

\* an end that is asked to stop does
Ends1 == \A e \in Ends : (stops[e] = "in") ~> (stops[e] = "done")
Told == \A e \in Ends : (ph[e] = "up" /\ Gone(Other(e)) /\ ph[Other(e)] = "up" /\ held = {}) ~> (told[e] # "no" \/ held # {})

Emit == (Emitting /\ acts = MaxActs /\ (Owed = {} \/ Finished)) => PrintT("BEH " \o ToJson([cf |-> [cf EXCEPT !.tmo = [e \in Ends |-> e \in cf.tmo]], script |-> script]))
=============================================================================
