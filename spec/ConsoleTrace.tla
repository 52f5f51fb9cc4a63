---------------------------- MODULE ConsoleTrace ----------------------------
(***************************************************************************)
(* Checks evaluate requests of a session against Console.                  *)
(* Traces: [id, vals, opts, hv, events], opts and hv as pairs <<name, repr>>.*)
(* Events: [e: "entry", bang, cs, ok, text, type, opts, look, vars]         *)
(*   bang: a console entry that starts with '!' (cs is what follows it);    *)
(*   opts: the module options afterwards; vars: if look, task variables     *)
(*   that differ from those at the start, and those in hv.                  *)
(*         [e: "exec", args]: the options the task got.                     *)
(***************************************************************************)
EXTENDS Console, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, opts, hv, fuzzy, viol
vars == <<tr, pos, opts, hv, fuzzy, viol>>

T == Traces[tr]
E == T.events[pos]
Range(f) == { f[i] : i \in DOMAIN f }
Map(pairs) == [x \in { p[1] : p \in Range(pairs) } |-> (CHOOSE p \in Range(pairs) : p[1] = x)[2]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
B(cond, rule, info) == IF cond THEN <<>> ELSE <<[rule |-> rule, pos |-> pos, info |-> ToString(info)]>>

Init == tr \in DOMAIN Traces /\ pos = 1 /\ opts = Map(Traces[tr].opts) /\ hv = Map(Traces[tr].hv) /\ fuzzy = {} /\ viol = <<>>

Same(a, b) == DOMAIN a \ fuzzy = DOMAIN b \ fuzzy /\ \A x \in DOMAIN a \ fuzzy : a[x] = b[x]

\* The answer to an expression.
Answer(e, v) ==
    CASE v.t = "?" -> B(e.ok, "evaluate-refused", Str(e.cs))
      [] v.t = "error" -> B(e.ok /\ e.text # "" /\ e.type = "", "no-error-text", <<Str(e.cs), e.text, e.type>>)
      [] OTHER -> B(e.ok, "evaluate-refused", Str(e.cs)) \o B(~e.ok \/ (e.text = v.s /\ e.type = v.t), "wrong-value", <<Str(e.cs), e.text, e.type, v>>)

\* Values are known while the variables they are made of are not set anew.
Given == {"v_e", "v_s", "v_d", "v_l"}
Vals == IF \A v \in Given : v \notin fuzzy /\ v \in DOMAIN hv /\ hv[v] = T.vals[v].s THEN T.vals ELSE Map(<<>>)
Val(e) == Value(Vals, DOMAIN hv \cup fuzzy, e)

\* What has to be afterwards: options, variables, newly unknown variables
\* and remarks on the answer.
After(e) ==
    LET p == Parse(e.cs)
        keep == [o |-> opts, h |-> hv, fz |-> {}, b |-> <<>>] IN
    IF ~e.bang THEN [keep EXCEPT !.b = Answer(e, Val(e.cs))]
    ELSE IF p.kind = "text" THEN [keep EXCEPT !.b = B(e.ok /\ e.text # "" /\ e.type = "", "no-explanation", <<Str(e.cs), e.ok, e.text, e.type>>)]
    ELSE IF p.kind = "t" THEN [keep EXCEPT !.b = Answer(e, IF Str(RStrip(p.expr)) \in {"-h", "--help"} THEN [s |-> "", t |-> "error"] ELSE Val(p.expr))]
    ELSE IF p.kind = "ro" THEN
        IF p.expr # <<>> /\ Map(e.opts) = opts THEN keep                          \* more than the name: may be refused
        ELSE [keep EXCEPT !.o = Del(opts, p.name), !.b = B(e.ok \/ p.name \notin DOMAIN opts, "command-refused", Str(e.cs))]
    ELSE LET v == Val(p.expr) IN
    CASE v.t = "error" -> [keep EXCEPT !.b = B(~e.ok \/ e.text # "", "no-explanation", <<Str(e.cs), e.text>>)]
      [] v.t = "?" ->                                                             \* the value may or may not exist
            IF p.kind = "so" THEN [keep EXCEPT !.o = IF e.ok /\ p.name \in DOMAIN Map(e.opts) THEN Put(opts, p.name, Map(e.opts)[p.name]) ELSE opts]
            ELSE [keep EXCEPT !.fz = {p.name}]
      [] OTHER ->
            IF p.kind = "so" THEN [keep EXCEPT !.o = Put(opts, p.name, v.s), !.b = B(e.ok, "command-refused", Str(e.cs))]
            ELSE [keep EXCEPT !.h = Put(hv, p.name, v.s), !.b = B(e.ok, "command-refused", Str(e.cs))]

Do(e) ==
    IF e.e = "exec"
      THEN /\ UNCHANGED <<opts, hv, fuzzy>>
           /\ viol' = viol \o B(Map(e.args) = opts, "task-got-other-options", <<Map(e.args), opts>>)
      ELSE LET p == Parse(e.cs)
               a0 == After(e)
               \* a name that looks like a switch may be refused with a text
               a == IF e.bang /\ p.dash /\ e.text # "" /\ e.type = "" /\ p.kind \in {"so", "sh", "ro"} THEN [o |-> opts, h |-> hv, fz |-> {}, b |-> <<>>] ELSE a0
               fz == fuzzy \cup a.fz IN
           /\ opts' = Map(e.opts)
           /\ fuzzy' = fz
           /\ hv' = a.h
           /\ viol' = viol \o a.b \o B(Map(e.opts) = a.o, "options-changed-otherwise", <<Str(e.cs), Map(e.opts), a.o>>)
                       \o (IF e.look THEN LET h == Map(e.vars) IN
                              B(\A x \in (DOMAIN h \cup DOMAIN a.h) \ fz : x \in DOMAIN h /\ x \in DOMAIN a.h /\ h[x] = a.h[x], "variables-changed-otherwise", <<Str(e.cs), h, a.h>>)
                           ELSE <<>>)

Next ==
    \/ /\ pos <= Len(T.events)
       /\ Do(E)
       /\ pos' = pos + 1 /\ tr' = tr
    \/ /\ pos = Len(T.events) + 1
       /\ PrintT("RES " \o ToJson([id |-> T.id, viol |-> viol]))
       /\ pos' = pos + 1 /\ UNCHANGED <<tr, opts, hv, fuzzy, viol>>
Spec == Init /\ [][Next]_vars
=============================================================================
