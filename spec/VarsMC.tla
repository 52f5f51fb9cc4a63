------------------------------- MODULE VarsMC -------------------------------
(***************************************************************************)
(* Explores looks and changes at the stops of small plays with the          *)
(* guarantees as invariants, and prints each behaviour for replaying.       *)
(* Cases: [name, prog, order: <<[h, task, keep]>>, alphabet: <<op>>], where *)
(* keep are the earlier stops whose frames are still there (their includes).*)
(***************************************************************************)
EXTENDS Vars, Json, IOUtils
CONSTANTS MaxOps, Emit
Cases == JsonDeserialize(IOEnv.MC_CASES)

VARIABLES case, st, k, n, hist, last, ref
vars == <<case, st, k, n, hist, last, ref>>
View == <<case, st, k, n, last.kind>>

C == Cases[case]
None == [kind |-> "none", f |-> 0, name |-> "", scope |-> "", v |-> UndefTree]
Top == C.order[k]
\* frames an operation can be about: the stopped one and its parents
FrameAt(i) == IF i = 0 THEN k ELSE C.order[k].keep[i]
Reachable(i) == i = 0 \/ i <= Len(C.order[k].keep)

Init == /\ case \in DOMAIN Cases
        /\ st = NewFrame(Start(Cases[case].prog), 1, Cases[case].order[1].h, Cases[case].order[1].task)
        /\ k = 1 /\ n = 0 /\ hist = <<>> /\ last = None /\ ref = 1

Refs4(r) == [opts |-> r, task |-> r + 1, host |-> r + 2, glob |-> r + 3]
Looked(f) == LET s == LookScopes(st, f) IN ScopeRefs(s, f, Refs4(ref))

Do(o) ==
    /\ n < MaxOps /\ Reachable(o.fi)
    /\ LET f == FrameAt(o.fi)
           s == IF st.frames[f].opts = 0 \/ o.op = "look" THEN Looked(f) ELSE st
           cur == CHOOSE r \in DOMAIN s.refs : s.refs[r].f = f /\ (o.op # "set" \/ (s.refs[r].kind = o.scope /\ \A q \in DOMAIN s.refs : s.refs[q].f = f /\ s.refs[q].kind = o.scope => q <= r))
           x == IF o.op = "look" \/ o.kind = "ro" THEN UndefTree ELSE Eval(s.tmpl, s.heap, Env(s, f), o.ast)
           a == Alloc(s.heap, x)
           s1 == [s EXCEPT !.heap = a.heap] IN
       /\ st' = CASE o.op = "look" -> s
                  [] o.op = "cmd" /\ o.kind = "ro" -> RemoveOption(s, f, o.name)
                  [] x.t = "undef" -> s
                  [] o.op = "set" -> Assign(s1, cur, o.name, a.v)
                  [] o.op = "cmd" /\ o.kind = "so" -> SetOption(s1, f, o.name, a.v)
                  [] OTHER -> SetHostVar(s1, f, o.name, a.v)
       /\ last' = IF o.op = "look" \/ (o.kind # "ro" /\ x.t = "undef") THEN [None EXCEPT !.f = f]
                  ELSE [kind |-> IF o.op = "set" THEN o.scope ELSE o.kind, f |-> f, name |-> o.name, scope |-> "", v |-> x]
       /\ ref' = ref + 4 /\ n' = n + 1
       /\ hist' = Append(hist, [at |-> k, op |-> o])
    /\ UNCHANGED <<case, k>>

Resume ==
    /\ k < Len(C.order)
    /\ k' = k + 1
    /\ LET nx == C.order[k + 1]
           s == EndFrames(st, DOMAIN st.frames \ Range(nx.keep)) IN
       st' = NewFrame(s, k + 1, nx.h, nx.task)
    /\ last' = [None EXCEPT !.kind = "resume"]
    /\ UNCHANGED <<case, n, hist, ref>>

Finish == /\ k = Len(C.order) /\ last.kind # "done"
          /\ Emit => PrintT("BEH " \o ToJson([case |-> C.name, hist |-> hist]))
          /\ last' = [None EXCEPT !.kind = "done"] /\ UNCHANGED <<case, st, k, n, hist, ref>>

Next == \/ \E i \in DOMAIN C.alphabet : Do(C.alphabet[i])
        \/ Resume
        \/ Finish
Spec == Init /\ [][Next]_vars

(****************************** guarantees ********************************)
RefsOk == /\ \A r \in DOMAIN st.refs : st.refs[r].f \in DOMAIN st.frames
          /\ DOMAIN st.refs \cap st.gone = {}
          /\ DOMAIN st.frames \cap st.dead = {}

Trees(s, m) == [x \in DOMAIN m |-> Tree(s.heap, m[x])]
Set == last'.kind \in {"opts", "task", "host", "glob", "so", "sh", "ro"}
L == last'
Hst == st.frames[L.f].h
Tsk == st.frames[L.f].task

\* What tasks of every host would get, now and then.
Isolation == [][ n' > n =>
    \A h \in DOMAIN st.hv, t \in DOMAIN st.tasks :
        \/ L.kind \in {"host", "sh"} /\ h = Hst
        \/ Trees(st, TaskVars(st, h, t)) = Trees(st', TaskVars(st', h, t)) ]_vars
\* A host variable reaches all later tasks of the host; nothing else of them changes.
HostKept == [][ n' > n /\ L.kind \in {"host", "sh"} =>
    \A t \in DOMAIN st.tasks :
        /\ Tree(st'.heap, TaskVars(st', Hst, t)[L.name]) = L.v
        /\ Trees(st, Del(TaskVars(st, Hst, t), L.name)) = Trees(st', Del(TaskVars(st', Hst, t), L.name)) ]_vars
\* Options of tasks change for the named one only.
OptionsOnly == [][ n' > n =>
    \A t \in DOMAIN st.raw : \A o \in DOMAIN st.raw[t] \cup DOMAIN st'.raw[t] :
        \/ L.kind \in {"opts", "so", "ro"} /\ t = Tsk /\ o = L.name
        \/ o \in DOMAIN st.raw[t] /\ o \in DOMAIN st'.raw[t] /\ Tree(st.heap, st.raw[t][o]) = Tree(st'.heap, st'.raw[t][o]) ]_vars
TaskSees == [][ n' > n =>
    /\ L.kind \in {"opts", "so"} => LET w == RunsWith(st', L.f) IN L.name \in DOMAIN w /\ w[L.name] = L.v
    /\ L.kind = "ro" => L.name \notin DOMAIN RunsWith(st', L.f)
    /\ L.kind \in {"task", "sh"} => Tree(st'.heap, Env(st', L.f).own[L.name]) = L.v
    /\ L.kind \in {"opts", "so", "ro", "host", "glob", "none"} => Trees(st', Env(st', L.f).own) = Trees(st, Env(st, L.f).own) ]_vars
\* Other frames' task variables are theirs.
OtherFrames == [][ n' > n =>
    \A f \in DOMAIN st.frames \ {L.f} : Trees(st', Env(st', f).own) = Trees(st, Env(st, f).own) ]_vars
\* Looking changes nothing a task would see.
Pure == [][ n' > n /\ L.kind = "none" =>
    /\ \A f \in DOMAIN st.frames : RunsWith(st, f) = RunsWith(st', f)
    /\ Trees(st, st.stores[st.frames[L.f].tv]) = Trees(st', st'.stores[st'.frames[L.f].tv])
    /\ st.cache = st'.cache ]_vars
=============================================================================
