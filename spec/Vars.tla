-------------------------------- MODULE Vars --------------------------------
(***************************************************************************)
(* What a client sees and changes while a play is stopped: frames, scopes, *)
(* variables references, setting values and evaluating expressions.        *)
(*                                                                         *)
(* A value is [t, s, n, a]: type, Python representation, number (type int) *)
(* and, for containers (t in {"list", "dict"}), the address of the object  *)
(* on the heap.  t = "x" is a string holding a template; Tmpl maps its     *)
(* representation to the expression in it.  An object is a sequence of     *)
(* [k, r, v]: name, representation of the key, value.                      *)
(*                                                                         *)
(* An expression is [op, ...]:                                             *)
(*   lit (v: tree)  var (n)  inc (n, i)  get (n, k)  hv (h, n)  bad        *)
(* A tree is a value with c (children, each [k, r, v]) instead of a.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(f) == { f[i] : i \in DOMAIN f }
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Empty == [x \in {} |-> x]

Scalar(t, s, n) == [t |-> t, s |-> s, n |-> n, a |-> 0]

Undef == Scalar("undef", "", 0)
IsBox(v) == v.t \in {"list", "dict"}

(*************************** heap and trees *******************************)
RECURSIVE Alloc(_, _), AllocAll(_, _, _, _)
\* -> [heap, v]
Alloc(heap, tree) ==
    IF tree.t \notin {"list", "dict"} THEN [heap |-> heap, v |-> Scalar(tree.t, tree.s, tree.n)]
    ELSE LET r == AllocAll(heap, tree.c, 1, <<>>) IN
         [heap |-> Append(r.heap, r.c), v |-> [t |-> tree.t, s |-> "", n |-> 0, a |-> Len(r.heap) + 1]]
AllocAll(heap, c, i, acc) ==
    IF i > Len(c) THEN [heap |-> heap, c |-> acc]
    ELSE LET r == Alloc(heap, c[i].v) IN AllocAll(r.heap, c, i + 1, Append(acc, [k |-> c[i].k, r |-> c[i].r, v |-> r.v]))

RECURSIVE AllocMap(_, _, _, _)
\* A function from names to trees; names is a sequence of its domain.
AllocMap(heap, m, names, acc) ==
    IF names = <<>> THEN [heap |-> heap, m |-> acc]
    ELSE LET r == Alloc(heap, m[names[1]]) IN AllocMap(r.heap, m, Tail(names), Put(acc, names[1], r.v))

\* A deep copy as a tree.
RECURSIVE Tree(_, _)
Tree(heap, v) ==
    IF ~IsBox(v) THEN [t |-> v.t, s |-> v.s, n |-> v.n, c |-> <<>>]
    ELSE [t |-> v.t, s |-> "", n |-> 0,
          c |-> [i \in DOMAIN heap[v.a] |-> [k |-> heap[v.a][i].k, r |-> heap[v.a][i].r, v |-> Tree(heap, heap[v.a][i].v)]]]

RECURSIVE Join(_, _)
Join(parts, i) == IF i > Len(parts) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o parts[i] \o Join(parts, i + 1)

RECURSIVE TreeRepr(_)
TreeRepr(t) ==
    CASE t.t = "list" -> "[" \o Join([i \in DOMAIN t.c |-> TreeRepr(t.c[i].v)], 1) \o "]"
      [] t.t = "dict" -> "{" \o Join([i \in DOMAIN t.c |-> t.c[i].r \o ": " \o TreeRepr(t.c[i].v)], 1) \o "}"
      [] OTHER -> t.s
Repr(heap, v) == TreeRepr(Tree(heap, v))
TypeOf(v) == IF v.t = "x" THEN "str" ELSE v.t

Find(obj, k) == { i \in DOMAIN obj : obj[i].k = k }

(***************************** evaluation *********************************)
\* The variables an expression is evaluated with: names to values, and those
\* of every host.  Gives a tree; t = "undef" if it cannot be evaluated.
UndefTree == [t |-> "undef", s |-> "", n |-> 0, c |-> <<>>]

RECURSIVE Eval(_, _, _, _), Render(_, _, _, _)
Eval(tmpl, heap, env, e) ==
    CASE e.op = "lit" -> e.v
      [] e.op = "bad" -> UndefTree
      [] e.op = "var" -> IF e.n \in DOMAIN env.own THEN Render(tmpl, env, heap, Tree(heap, env.own[e.n])) ELSE UndefTree
      [] e.op = "inc" -> IF e.n \in DOMAIN env.own
                           THEN LET x == Render(tmpl, env, heap, Tree(heap, env.own[e.n])) IN
                                IF x.t \in {"int", "bool"} THEN [t |-> "int", s |-> ToString(x.n + e.i), n |-> x.n + e.i, c |-> <<>>] ELSE UndefTree
                           ELSE UndefTree
      [] e.op = "get" -> IF e.n \in DOMAIN env.own
                           THEN LET x == Render(tmpl, env, heap, Tree(heap, env.own[e.n]))
                                    f == Find(x.c, e.k) IN
                                IF f = {} THEN UndefTree ELSE x.c[CHOOSE i \in f : TRUE].v
                           ELSE UndefTree
      [] e.op = "hv" -> IF e.h \in DOMAIN env.hosts /\ e.n \in DOMAIN env.hosts[e.h]
                          THEN Render(tmpl, [env EXCEPT !.own = env.hosts[e.h]], heap, Tree(heap, env.hosts[e.h][e.n])) ELSE UndefTree
\* Resolves the templates in a tree; undefined anywhere makes all undefined.
Render(tmpl, env, heap, t) ==
    IF t.t = "x" THEN Eval(tmpl, heap, env, tmpl[t.s])
    ELSE IF t.c = <<>> THEN t
    ELSE LET c == [i \in DOMAIN t.c |-> [t.c[i] EXCEPT !.v = Render(tmpl, env, heap, @)]] IN
         IF \E i \in DOMAIN c : c[i].v.t = "undef" THEN UndefTree ELSE [t EXCEPT !.c = c]

\* As Render, but what is undefined stays as it is written.
RECURSIVE Show(_, _, _, _)
Show(tmpl, env, heap, t) ==
    IF t.t = "x" THEN LET x == Eval(tmpl, heap, env, tmpl[t.s]) IN IF x.t = "undef" THEN t ELSE x
    ELSE [t EXCEPT !.c = [i \in DOMAIN t.c |-> [t.c[i] EXCEPT !.v = Show(tmpl, env, heap, @)]]]

(****************************** the state *********************************)
\* stores: sequence of functions from names to values.  raw: the options of a
\* task as they will be used; frames: id -> the frame; refs: id -> what it
\* refers to.
Start(prog) ==
    LET h1 == AllocMap(<<>>, prog.pv, prog.pvn, Empty) IN
    LET Hv(heap, h) == AllocMap(heap, prog.hv[h], prog.hvn[h], Empty) IN
    LET RECURSIVE Hosts(_, _, _)
        Hosts(heap, hs, acc) == IF hs = <<>> THEN [heap |-> heap, m |-> acc]
                                ELSE LET r == Hv(heap, hs[1]) IN Hosts(r.heap, Tail(hs), Put(acc, hs[1], r.m))
        RECURSIVE Tasks(_, _, _)
        Tasks(heap, ts, acc) == IF ts = <<>> THEN [heap |-> heap, m |-> acc]
                                ELSE LET a == AllocMap(heap, prog.tasks[ts[1]].args, prog.tasks[ts[1]].argn, Empty)
                                         v == AllocMap(a.heap, prog.tasks[ts[1]].vars, prog.tasks[ts[1]].varn, Empty) IN
                                     Tasks(v.heap, Tail(ts), Put(acc, ts[1], [args |-> a.m, vars |-> v.m]))
        h2 == Hosts(h1.heap, prog.hosts, Empty)
        h3 == Tasks(h2.heap, prog.taskn, Empty)
    IN [ tmpl   |-> prog.tmpl,
         heap   |-> h3.heap,
         pv     |-> h1.m,
         hv     |-> h2.m,
         tasks  |-> h3.m,
         raw    |-> [x \in DOMAIN h3.m |-> h3.m[x].args],
         owner  |-> Empty,                            \* task -> hosts that changed its options
         cache  |-> [h \in Range(prog.hosts) |-> Empty],
         stores |-> <<>>,
         frames |-> Empty,
         refs   |-> Empty,
         dead   |-> {},                               \* ids of frames that ended
         gone   |-> {} ]                              \* and their references

\* Variables of a host as tasks see them, and without play and task.
TaskVars(s, h, task) == Over(Over(Over(s.hv[h], s.pv), s.tasks[task].vars), s.cache[h])
HostVars(s, h) == Over(s.hv[h], s.cache[h])
Env(s, f) == [own |-> s.stores[s.frames[f].tv], hosts |-> [h \in DOMAIN s.hv |-> HostVars(s, h)]]

NewFrame(s, id, h, task) ==
    LET tv == TaskVars(s, h, task)
        n == Len(s.stores) IN
    [s EXCEPT !.stores = @ \o <<tv, tv>>,
              !.frames = Put(@, id, [h |-> h, task |-> task, tv |-> n + 1, gl |-> n + 2, opts |-> 0, host |-> 0, edits |-> 0])]

\* Options of a frame's task that other hosts changed; whether this host
\* sees these changes is not said.
Loose(s, f) ==
    LET F == s.frames[f] IN
    IF F.task \in DOMAIN s.owner THEN UNION { s.owner[F.task][o] : o \in DOMAIN s.owner[F.task] \ {F.h} } ELSE {}

EndFrames(s, ids) ==
    [s EXCEPT !.frames = [f \in DOMAIN @ \ ids |-> @[f]],
              !.refs = [r \in { x \in DOMAIN @ : @[x].f \notin ids } |-> @[r]],
              !.gone = @ \cup { x \in DOMAIN s.refs : s.refs[x].f \in ids },
              !.dead = @ \cup ids]

\* A fresh look at the scopes of a frame: options rendered, host variables
\* with the rest of the task's variables below them.
RECURSIVE AllocTrees(_, _, _, _)
AllocTrees(heap, m, todo, acc) ==
    IF todo = {} THEN [heap |-> heap, m |-> acc]
    ELSE LET k == CHOOSE x \in todo : TRUE
             r == Alloc(heap, m[k]) IN AllocTrees(r.heap, m, todo \ {k}, Put(acc, k, r.v))

LookScopes(s, f) ==
    LET F   == s.frames[f]
        env == Env(s, f)
        raw == s.raw[F.task]
        o   == AllocTrees(s.heap, [k \in DOMAIN raw |-> Show(s.tmpl, env, s.heap, Tree(s.heap, raw[k]))], DOMAIN raw, Empty)
        hv  == HostVars(s, F.h)
        h   == AllocTrees(o.heap, [k \in DOMAIN hv |-> Show(s.tmpl, [env EXCEPT !.own = hv], o.heap, Tree(o.heap, hv[k]))], DOMAIN hv, Empty)
        n   == Len(s.stores) IN
    [s EXCEPT !.heap = h.heap,
              !.stores = @ \o <<o.m, Over(s.stores[F.tv], h.m)>>,
              !.frames[f].opts = n + 1,
              !.frames[f].host = n + 2]

\* References: kind "opts" "task" "host" "glob" with a store, "list" "dict" with an
\* address, "result", or "free" (value not known).
AddRef(s, id, f, kind, at) == [s EXCEPT !.refs = Put(@, id, [f |-> f, kind |-> kind, at |-> at, ver |-> s.frames[f].edits])]

ScopeRefs(s, f, ids) ==
    LET F == s.frames[f] IN
    AddRef(AddRef(AddRef(AddRef(s, ids.opts, f, "opts", F.opts), ids.task, f, "task", F.tv), ids.host, f, "host", F.host), ids.glob, f, "glob", F.gl)

\* The latest view, or one nothing was changed since.
Current(s, r) ==
    LET R == s.refs[r]
        F == s.frames[R.f] IN
    \/ R.kind \in {"task", "glob"}
    \/ R.kind = "opts" /\ R.at = F.opts
    \/ R.kind = "host" /\ R.at = F.host
    \/ R.ver = F.edits

Owned(s, f, k) ==
    LET F == s.frames[f]
        o == IF F.task \in DOMAIN s.owner THEN s.owner[F.task] ELSE Empty
        mine == IF F.h \in DOMAIN o THEN o[F.h] ELSE {} IN
    Put(s.owner, F.task, Put(o, F.h, mine \cup {k}))

\* Puts a value in the named place of a scope.
Assign(s, r, name, v) ==
    LET R == s.refs[r]
        F == s.frames[R.f]
        e == [s EXCEPT !.frames[R.f].edits = @ + 1, !.stores[R.at] = Put(@, name, v)] IN
    CASE R.kind = "opts" -> [e EXCEPT !.raw[F.task] = Put(@, name, v), !.owner = Owned(s, R.f, name)]
      [] R.kind = "host" -> [e EXCEPT !.cache[F.h] = Put(@, name, v)]
      [] OTHER -> e

\* An element of a container: [ok, s].  A new key is added to a dict.
AssignObj(s, r, name, v) ==
    LET R == s.refs[r]
        t == R.kind
        o == s.heap[R.at]
        f == Find(o, name)
        e == [s EXCEPT !.frames[R.f].edits = @ + 1] IN
    IF f # {} THEN [ok |-> TRUE, s |-> [e EXCEPT !.heap[R.at] = [@ EXCEPT ![CHOOSE i \in f : TRUE] = [@ EXCEPT !.v = v]]]]
    ELSE IF t = "dict" THEN [ok |-> TRUE, s |-> [e EXCEPT !.heap[R.at] = Append(@, [k |-> name, r |-> "'" \o name \o "'", v |-> v])]]
    ELSE [ok |-> FALSE, s |-> s]

RemoveOption(s, f, name) ==
    LET F == s.frames[f] IN
    [s EXCEPT !.stores[F.opts] = Del(@, name), !.raw[F.task] = Del(@, name), !.frames[f].edits = @ + 1, !.owner = Owned(s, f, name)]

SetOption(s, f, name, v) ==
    LET F == s.frames[f] IN
    [s EXCEPT !.stores[F.opts] = Put(@, name, v), !.raw[F.task] = Put(@, name, v), !.frames[f].edits = @ + 1, !.owner = Owned(s, f, name)]

SetHostVar(s, f, name, v) ==
    LET F == s.frames[f] IN
    [s EXCEPT !.stores[F.tv] = Put(@, name, v), !.stores[F.host] = Put(@, name, v), !.cache[F.h] = Put(@, name, v), !.frames[f].edits = @ + 1]

\* What the module gets: names to trees; "undef" if that cannot be rendered.
RunsWith(s, f) ==
    LET raw == s.raw[s.frames[f].task] IN
    [k \in DOMAIN raw |-> Render(s.tmpl, Env(s, f), s.heap, Tree(s.heap, raw[k]))]
=============================================================================
