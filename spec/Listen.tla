------------------------------- MODULE Listen -------------------------------
(***************************************************************************)
(* A playbook that listens for a debugger (C17).                           *)
(*                                                                         *)
(* The playbook announces itself in a file named after its process id and  *)
(* accepts one debugger.  Peers of all kinds come along: adapters that     *)
(* attach by process id or by address with various TLS settings, and       *)
(* others that do not even complete a handshake.  With TLS every peer that *)
(* is not legitimate is turned away and the next one is awaited.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxPeers, Emitting,
          Variants      \* ways to be one of the peers that are no adapters

Servers ==
    [tr: {"tcp", "uds"}, tls: {FALSE}, crt: {"none"}, key: {"none"}, ca: {"none"}]
    \union
    [tr: {"tcp", "uds"}, tls: {TRUE}, crt: {"server", "wrongname", "expired", "strange"},
     key: {"pem", "split", "enc", "split-enc"}, ca: {"none", "ca", "var"}]

Verify == {"default", "ignore", "ca", "dir", "var", "other", "missing"}
Certs == {"none", "pem", "split", "enc", "nopass", "strange", "old"}
Adapters == [k: {"dap"}, by: {"pid", "addr", "alias"},     \* (alias: an address the certificate of the server is not for)
             tls: BOOLEAN, verify: Verify, crt: Certs]
Raws == [k: {"knock", "garbage", "http", "hello", "reset", "slow", "nocert"}, n: 1..Variants]     \* (one of several ways to be that)
Lost == {[k |-> "nopid", by |-> "pid", tls |-> FALSE, verify |-> "ignore", crt |-> "none"]}

Hows == {"finish", "fail", "detach", "terminate", "drop"}     \* how a debugged session ends
Alones == {"interrupt", "unattended"}                         \* how a playbook nobody attached to ends

VARIABLES srv, ph, past, file, end
vars == <<srv, ph, past, file, end>>

-----------------------------------------------------------------------------
UsesTls(p) == IF p.by = "pid" THEN srv.tls ELSE p.tls

\* the TLS settings of the adapter can be used at all
Usable(p) == p.verify # "missing" /\ p.crt # "nopass"

\* the certificate of the server is one the adapter accepts
Trusts(p) ==
    \/ p.verify = "ignore"
    \/ srv.tr = "tcp" /\ p.by # "alias" /\ p.verify \in {"ca", "dir", "var"} /\ srv.crt = "server"
    \/ srv.tr = "tcp" /\ p.by # "alias" /\ p.verify = "other" /\ srv.crt = "strange"

\* the certificate of the adapter is one the server accepts
Proves(p) == srv.ca = "none" \/ p.crt \in {"pem", "split", "enc"}

Legit(p) ==
    /\ p.k = "dap"
    /\ UsesTls(p) = srv.tls
    /\ srv.tls => Usable(p) /\ Trusts(p) /\ Proves(p)

\* a listener without TLS takes the first that connects as its debugger
\* (and one with TLS whoever completes the handshake)
Harmless(p) == \/ srv.tls /\ (p.k = "nocert" => srv.ca # "none")
               \/ p.k = "nopid"
               \/ p.k = "dap" /\ ((UsesTls(p) /\ ~Usable(p)) \/ Legit(p))

-----------------------------------------------------------------------------
Init ==
    /\ srv \in Servers
    /\ ph = "listening" /\ past = <<>> /\ file = TRUE /\ end = "none"

Come(p) ==
    /\ ph = "listening" /\ Len(past) < MaxPeers /\ Harmless(p)
    /\ p.k = "dap" /\ p.by = "alias" => srv.tr = "tcp"
    /\ past' = Append(past, [p |-> p, in |-> Legit(p)])
    /\ ph' = IF Legit(p) THEN "session" ELSE "listening"
    /\ UNCHANGED <<srv, file, end>>

\* the announcement goes with the session
Over(how) ==
    /\ ph = "session" \/ (ph = "listening" /\ how \in Alones /\ (how = "unattended") = (past = <<>>))
    /\ (ph = "session") = (how \in Hows)
    /\ ph' = "over" /\ end' = how /\ file' = FALSE
    /\ UNCHANGED <<srv, past>>

Peers == Adapters \union Raws \union Lost
Next == (\E p \in Peers : Come(p)) \/ (\E h \in Hows \union Alones : Over(h))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
In == {k \in DOMAIN past : past[k].in}

\* who got in spoke TLS if it was required, was sure of the server or did not care,
\* and had a certificate of the right authority if one was asked for
OnlyLegitimate ==
    \A k \in In :
        LET p == past[k].p IN
        /\ p.k = "dap"
        /\ srv.tls => /\ p.by = "pid" \/ p.tls
                      /\ p.verify # "ignore" => p.by # "alias" /\ srv.crt \in {"server", "strange"}
                      /\ srv.ca # "none" => p.crt \notin {"none", "strange", "old"}
        /\ ~srv.tls => p.by = "pid" \/ ~p.tls

\* one debugger; failures before it do not end the listener
OneDebugger == Cardinality(In) <= 1 /\ (In # {} <=> (ph = "session" \/ end \in Hows))
Listening == (ph = "listening") => file
NotLeft == (ph = "over") => ~file
\* there always is somebody who could get in
Reachable == (ph = "listening") => \E p \in Adapters : Legit(p)

Emit == (Emitting /\ ph = "over") => PrintT("BEH " \o ToJson([srv |-> srv, past |-> past, end |-> end]))
=============================================================================
