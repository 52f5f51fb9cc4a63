------------------------------- MODULE Start -------------------------------
(***************************************************************************)
(* From "debug this playbook" to the ansible-playbook process.             *)
(*                                                                         *)
(* What the user configured (w):                                           *)
(*   env    callbacks, collections, python: what the variables hold;       *)
(*          strategy                                                       *)
(*   files  explicit (ANSIBLE_CONFIG), cwd, home: the configuration files  *)
(*          there are and what they set; only the first one counts         *)
(* Settings are [set, v], v a sequence.  Directories are [at, n]: named n, *)
(* relative ("rel"), under the home directory ("home") or absolute ("abs").*)
(* Relative ones start where they are written: the working directory, or   *)
(* the directory of the file.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Own == "OWN"
None == [set |-> FALSE, v |-> <<>>]

File(w) ==
    IF w.files.explicit.there THEN "explicit"
    ELSE IF w.files.cwd.there THEN "cwd"
    ELSE IF w.files.home.there THEN "home"
    ELSE "none"

At(place, d) == IF d.at = "rel" THEN [at |-> place, n |-> d.n] ELSE d
AllAt(place, s) == [ k \in DOMAIN s |-> At(place, s[k]) ]

\* ---- what plain ansible-playbook goes by --------------------------------
FromFile(w, key) == IF File(w) = "none" THEN None ELSE w.files[File(w)][key]
Callbacks(w) ==
    IF w.env.callbacks.set THEN w.env.callbacks.v
    ELSE IF FromFile(w, "callbacks").set THEN FromFile(w, "callbacks").v ELSE <<>>
DefaultCollections == <<[at |-> "home", n |-> ".ansible/collections"], [at |-> "abs", n |-> "/usr/share/ansible/collections"]>>
Collections(w) ==
    IF w.env.collections.set THEN AllAt("cwd", w.env.collections.v)
    ELSE IF FromFile(w, "collections").set THEN AllAt(File(w), FromFile(w, "collections").v) ELSE DefaultCollections
PythonPath(w) == IF w.env.python.set THEN w.env.python.v ELSE <<>>

\* ---- and what it goes by under the debugger -------------------------------
Effective(w) == [
    callbacks   |-> <<Own>> \o Callbacks(w),
    collections |-> <<[at |-> Own, n |-> ""]>> \o Collections(w),
    python      |-> <<[at |-> Own, n |-> ""]>> \o PythonPath(w),
    strategy    |-> Own ]

\* ---- the debugger's own options, as its plugin finds them -----------------
\* mode: listen, connect or launch (which runs connect).
PathOpt(o) == IF o.set THEN [set |-> TRUE, v |-> <<At("cwd", o.v[1])>>] ELSE o
Options(mode, o) == [
    mode     |-> IF mode = "listen" THEN "listen" ELSE "connect",
    addr     |-> IF mode = "launch" THEN "ADAPTER" ELSE IF o.addr.set THEN o.addr.v[1] ELSE "uds://",
    nowait   |-> mode # "launch" /\ o.nowait,
    tls      |-> mode = "listen" /\ o.tls,
    cert     |-> IF mode = "listen" THEN PathOpt(o.cert) ELSE None,
    key      |-> IF mode = "listen" THEN PathOpt(o.key) ELSE None,
    ca       |-> IF mode = "listen" THEN PathOpt(o.ca) ELSE None,
    pass     |-> IF mode = "listen" THEN (IF o.pass.set THEN o.pass ELSE o.passenv) ELSE None,
    logfile  |-> PathOpt(o.logfile),
    \* only of interest with a file
    loglevel |-> IF ~o.logfile.set THEN "info" ELSE IF o.loglevel.set THEN o.loglevel.v[1] ELSE "info" ]

\* ---- environment -----------------------------------------------------------
\* What launch asks for on top of the terminal's own environment.
Overlay(base, asked) == [ x \in { y \in DOMAIN base \cup DOMAIN asked : y \notin DOMAIN asked \/ asked[y].set } |->
                             IF x \in DOMAIN asked THEN asked[x].v[1] ELSE base[x] ]
=============================================================================
