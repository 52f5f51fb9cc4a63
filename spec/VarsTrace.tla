------------------------------ MODULE VarsTrace -----------------------------
(***************************************************************************)
(* Checks recorded sessions that look at and change variables against Vars.*)
(*                                                                         *)
(* Traces: [id, prog, events].  Children of the scopes of variables are    *)
(* those whose name starts with v_ only; module options are complete.      *)
(***************************************************************************)
EXTENDS Vars, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, st, viol
vars == <<tr, pos, st, viol>>

T == Traces[tr]
E == T.events[pos]
B(cond, rule, info) == IF cond THEN <<>> ELSE <<[rule |-> rule, pos |-> pos, info |-> ToString(info)]>>

IsLive(s, f) == f \in DOMAIN s.frames
Fresh(s, ids) == ids \cap (DOMAIN s.refs \cup s.gone) = {}
RefsOf(kids) == { kids[i].ref : i \in DOMAIN kids } \ {0}

Named(heap, v)   == IF v.t = "dict" THEN Len(heap[v.a]) ELSE 0
Indexed(heap, v) == IF v.t = "list" THEN Len(heap[v.a]) ELSE 0

\* What is said about a value, where k is [value, type, ref, named, indexed].
SaysRight(heap, k, v) ==
    /\ k.value = Repr(heap, v)
    /\ k.type = TypeOf(v)
    /\ (k.ref # 0) = IsBox(v)
    /\ k.named = Named(heap, v)
    /\ k.indexed = Indexed(heap, v)

RECURSIVE AddKids(_, _, _, _)
\* m gives the value for each name
AddKids(s, f, kids, m) ==
    IF kids = <<>> THEN s
    ELSE LET k == kids[1] IN
         AddKids(IF k.ref # 0 /\ k.name \in DOMAIN m /\ IsBox(m[k.name]) THEN AddRef(s, k.ref, f, m[k.name].t, m[k.name].a)
                 ELSE IF k.ref # 0 THEN AddRef(s, k.ref, f, "free", 0)
                 ELSE s,
                 f, Tail(kids), m)

R(s, v) == [s |-> s, v |-> v]

OnStop(s0, e) ==
    LET s == EndFrames(s0, DOMAIN s0.frames \ Range(e.live)) IN
    IF IsLive(s, e.f) THEN R(s, B(s.frames[e.f].h = e.h /\ s.frames[e.f].task = e.task, "frame-of-other-task", <<e.f, e.h, e.task>>))
    ELSE R(NewFrame(s, e.f, e.h, e.task), B(e.f \notin s.dead, "frame-id-reused", e.f))

Dead(s, e, f) == R(s, B(~e.ok, "answered-for-ended-frame", <<e.e, f>>))

OnScopes(s, e) ==
    IF ~IsLive(s, e.f) THEN Dead(s, e, e.f)
    ELSE IF ~e.ok THEN R(s, B(FALSE, "scopes-refused", e.msg))
    ELSE LET s1 == LookScopes(s, e.f)
             ids == {e.refs.opts, e.refs.task, e.refs.host, e.refs.glob}
             s2 == IF e.refs.result # 0 /\ e.refs.result \notin DOMAIN s1.refs THEN AddRef(s1, e.refs.result, e.f, "result", 0) ELSE s1
         IN R(ScopeRefs(s2, e.f, e.refs),
              B(Cardinality(ids) = 4 /\ Fresh(s, ids) /\ 0 \notin ids, "reference-reused", e.refs)
              \o B(e.refs.result = 0 \/ e.refs.result \notin ids, "reference-reused", e.refs)
              \o B((e.refs.result # 0) = e.exc, "module-result-scope", e.refs)
              \o B(e.refs.result = 0 \/ Fresh(s, {e.refs.result}) \/ (e.refs.result \in DOMAIN s.refs /\ s.refs[e.refs.result].kind = "result"), "reference-reused", e.refs)
              \o B(Loose(s, e.f) # {} \/ e.nopts = Cardinality(DOMAIN s1.stores[s1.frames[e.f].opts]), "wrong-child-count", <<"Module Options", e.nopts>>))

Min(a, b) == IF a < b THEN a ELSE b
Slice(q, start, count) == IF start >= Len(q) THEN <<>>
                          ELSE SubSeq(q, start + 1, IF count = 0 THEN Len(q) ELSE Min(Len(q), start + count))

OnVars(s, e) ==
    IF e.ref \notin DOMAIN s.refs THEN R(s, B(~e.ok, "answered-for-ended-frame", <<"variables", e.ref>>))
    ELSE LET r == s.refs[e.ref] IN
    IF ~e.ok THEN R(s, B(FALSE, "variables-refused", e.msg))
    ELSE IF r.kind = "result" THEN R(s, B("failed" \in { e.kids[i].name : i \in DOMAIN e.kids } \/ "unreachable" \in { e.kids[i].name : i \in DOMAIN e.kids } \/ e.start # 0 \/ e.count # 0 \/ e.filter # "", "module-result", e.kids))
    ELSE IF ~Fresh(s, RefsOf(e.kids)) \/ Cardinality(RefsOf(e.kids)) # Cardinality({ i \in DOMAIN e.kids : e.kids[i].ref # 0 })
      THEN R(s, B(FALSE, "reference-reused", e.kids))
    ELSE IF r.kind = "free" THEN R(AddKids(s, r.f, e.kids, Empty), <<>>)   \* its value is not known
    ELSE IF r.kind \in {"list", "dict"} THEN
        LET obj  == s.heap[r.at]
            flt  == IF e.filter # "" /\ ((r.kind = "list") # (e.filter = "indexed")) THEN <<>> ELSE obj
            want == Slice(flt, e.start, e.count)
            ok   == /\ Len(e.kids) = Len(want)
                    /\ \A i \in DOMAIN want : e.kids[i].name = want[i].k /\ SaysRight(s.heap, e.kids[i], want[i].v)
            m    == [k \in { want[i].k : i \in DOMAIN want } |-> want[CHOOSE i \in DOMAIN want : want[i].k = k].v]
        IN R(IF ok THEN AddKids(s, r.f, e.kids, m) ELSE s, B(ok, "wrong-children", <<r, e.kids>>))
    ELSE IF e.start # 0 \/ e.count # 0 \/ e.filter # "" THEN R(s, <<>>)
    ELSE IF ~Current(s, e.ref) THEN R(s, <<>>)
    ELSE
        LET m == s.stores[r.at]
            F == s.frames[r.f]
            loose == IF r.kind = "opts" THEN Loose(s, r.f) ELSE {}
            names == { e.kids[i].name : i \in DOMAIN e.kids }
            wrong == { i \in DOMAIN e.kids : e.kids[i].name \notin loose /\
                         ~(e.kids[i].name \in DOMAIN m /\ SaysRight(s.heap, e.kids[i], m[e.kids[i].name])) }
            lost == (DOMAIN m \ names) \ loose
        IN R(AddKids(s, r.f, e.kids, [k \in DOMAIN m \ loose |-> m[k]]),
             B(wrong = {}, "wrong-value", <<r.kind, { e.kids[i] : i \in wrong }, { m[e.kids[i].name] : i \in { j \in wrong : e.kids[j].name \in DOMAIN m } }>>)
             \o B(lost = {}, "value-missing", <<r.kind, lost>>))

\* Nothing may change when it cannot be evaluated.
OnSet(s, e) ==
    IF e.ref \notin DOMAIN s.refs THEN R(s, B(~e.ok, "answered-for-ended-frame", <<"setVariable", e.ref>>))
    ELSE LET r == s.refs[e.ref]
             x == Eval(s.tmpl, s.heap, Env(s, r.f), e.ast) IN
    IF x.t = "undef" THEN R(s, B(~e.ok, "set-to-unknown-value", e.ast))
    ELSE IF r.kind \in {"result", "free"} THEN R(s, <<>>)
    ELSE LET a == Alloc(s.heap, x)
             s1 == [s EXCEPT !.heap = a.heap]
             o == IF r.kind \in {"list", "dict"} THEN AssignObj(s1, e.ref, e.name, a.v) ELSE [ok |-> TRUE, s |-> Assign(s1, e.ref, e.name, a.v)] IN
    IF ~o.ok THEN R(s, B(~e.ok, "set-of-unknown-place", e.name))
    ELSE IF ~e.ok THEN R(s, B(FALSE, "set-refused", e.msg))
    ELSE R(IF e.ref2 # 0 /\ IsBox(a.v) THEN AddRef(o.s, e.ref2, r.f, a.v.t, a.v.a) ELSE o.s,
           B(SaysRight(a.heap, [value |-> e.value, type |-> e.type, ref |-> e.ref2, named |-> e.named, indexed |-> e.indexed], a.v), "wrong-set-answer", <<e.value, e.type, e.named, e.indexed, Repr(a.heap, a.v)>>)
           \o B(e.ref2 = 0 \/ Fresh(s, {e.ref2}), "reference-reused", e.ref2))

OnEval(s, e) ==
    IF ~IsLive(s, e.f) THEN Dead(s, e, e.f)
    ELSE LET x == Eval(s.tmpl, s.heap, Env(s, e.f), e.ast) IN
         IF ~e.ok THEN R(s, B(FALSE, "evaluate-refused", e.msg))
         ELSE IF x.t = "undef" THEN R(s, B(e.type = "" /\ e.value # "", "value-of-unknown-expression", <<e.ast, e.value>>))
         ELSE R(s, B(e.value = TreeRepr(x) /\ e.type = x.t, "wrong-expression-value", <<e.ast, e.value, e.type, TreeRepr(x)>>))

OnCmd(s0, e) ==
    IF ~IsLive(s0, e.f) THEN Dead(s0, e, e.f)
    ELSE LET s == IF s0.frames[e.f].opts = 0 THEN LookScopes(s0, e.f) ELSE s0
             F == s.frames[e.f] IN
    IF e.kind = "ro" THEN
        R(RemoveOption(s, e.f, e.name), B(e.ok \/ e.name \notin DOMAIN s.stores[F.opts], "command-refused", e.msg))
    ELSE LET x == Eval(s.tmpl, s.heap, Env(s, e.f), e.ast) IN
    IF x.t = "undef" THEN R(s, B(~e.ok, "set-to-unknown-value", e.ast))
    ELSE IF ~e.ok THEN R(s, B(FALSE, "command-refused", e.msg))
    ELSE LET a == Alloc(s.heap, x)
             s1 == [s EXCEPT !.heap = a.heap] IN
    R(IF e.kind = "so" THEN SetOption(s1, e.f, e.name, a.v) ELSE SetHostVar(s1, e.f, e.name, a.v), <<>>)

FrameOf(s, h, task) == { f \in DOMAIN s.frames : s.frames[f].h = h /\ s.frames[f].task = task }

OnExec(s, e) ==
    LET fs == FrameOf(s, e.h, e.task) IN
    IF fs = {} THEN R(s, <<>>)
    ELSE LET f == CHOOSE x \in fs : TRUE
             w == RunsWith(s, f)
             loose == Loose(s, f)
             undef == { k \in DOMAIN w \ loose : w[k].t = "undef" } IN
         IF loose = {} /\ undef # {} THEN R(s, B(FALSE, "ran-with-unknown-option", <<e.h, e.task, undef>>))
         ELSE R(s, B((DOMAIN w \ loose) = (DOMAIN e.args \ loose) /\ \A k \in DOMAIN w \ (loose \cup undef) : k \in DOMAIN e.args /\ e.args[k] = TreeRepr(w[k]),
                     "ran-with-other-options", <<e.h, e.task, e.args, [k \in DOMAIN w |-> TreeRepr(w[k])]>>))

OnNoExec(s, e) ==
    LET fs == FrameOf(s, e.h, e.task) IN
    IF fs = {} THEN R(s, <<>>)
    ELSE LET f == CHOOSE x \in fs : TRUE
             w == RunsWith(s, f) IN
         R(s, B(Loose(s, f) # {} \/ \E k \in DOMAIN w : w[k].t = "undef", "did-not-run", <<e.h, e.task>>))

Apply(s, e) ==
    CASE e.e = "stop"   -> OnStop(s, e)
      [] e.e = "scopes" -> OnScopes(s, e)
      [] e.e = "vars"   -> OnVars(s, e)
      [] e.e = "set"    -> OnSet(s, e)
      [] e.e = "eval"   -> OnEval(s, e)
      [] e.e = "cmd"    -> OnCmd(s, e)
      [] e.e = "exec"   -> OnExec(s, e)
      [] e.e = "noexec" -> OnNoExec(s, e)
      [] e.e = "outcome" -> R(s, B(e.good, "session-broke", e.info))

Init == tr \in DOMAIN Traces /\ pos = 1 /\ st = Start(Traces[tr].prog) /\ viol = <<>>
Next ==
    \/ /\ pos <= Len(T.events)
       /\ LET r == Apply(st, E) IN st' = r.s /\ viol' = viol \o r.v
       /\ pos' = pos + 1 /\ tr' = tr
    \/ /\ pos = Len(T.events) + 1
       /\ PrintT("RES " \o ToJson([id |-> T.id, viol |-> viol]))
       /\ pos' = pos + 1 /\ UNCHANGED <<tr, st, viol>>
Spec == Init /\ [][Next]_vars
=============================================================================
