----------------------------- MODULE CodecTrace -----------------------------
(* What the real code made of messages, against Codec.                         *)
(* A record: kind "case": n (message), v (its values), top (the members of its *)
(* JSON), body (its arguments or body as a tree), back (what reading the JSON  *)
(* gives), kept (number, request_seq, command, message came back); kind        *)
(* "kind": type, word, success, is (the message it was read as, "" - refused). *)
(* Objects carry a member "_" so that none is empty.                           *)
EXTENDS Codec, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
RECURSIVE Mark(_)
Mark(x) == CASE x.k = "obj" -> Obj([m \in (DOMAIN x.f) \cup {"_"} |-> IF m = "_" THEN At("x") ELSE Mark(x.f[m])])
             [] x.k = "list" -> Lst([i \in 1..Len(x.s) |-> Mark(x.s[i])])
             [] OTHER -> x
\* lists that are empty are read from JSON as <<>> as well
Same(a, b) == a = b

Tops(m) == {"seq", "type"} \cup CASE m.type = "request" -> {"command"} [] m.type = "event" -> {"event"} [] OTHER -> {"request_seq", "success", "command"}
Member(m) == IF m.in \in {"free", "arguments"} THEN {"arguments"} ELSE IF m.in \in {"body", "whole"} THEN {"body"} ELSE {}
Rng(s) == {s[i] : i \in 1..Len(s)}
TopRight(t, m) == LET x == Rng(t.top) \ {"body", "arguments"} IN
                  /\ x = Tops(m) \cup (IF t.n = "ErrorResponse" /\ t.hasmsg THEN {"message"} ELSE {})
                  /\ (Rng(t.top) \cap {"body", "arguments"}) \subseteq Member(m)
HeadRight(t, m) == /\ t.head.type = m.type /\ t.head.word = (IF t.n = "ErrorResponse" THEN t.cmd ELSE m.word)
                   /\ m.type = "response" => t.head.success = (t.n # "ErrorResponse")
Fields(t, m) == IF m.in = "whole" THEN t.v[m.fs[1].a].f ELSE t.v
FsOf(m) == IF m.in = "whole" THEN Types[m.fs[1].t] ELSE m.fs
BodyRight(t, m) == IF m.fs = <<>> THEN t.body = At("absent") \/ t.body = Mark(Obj(<<>>))
                   ELSE LET b == Mark(PackFs(FsOf(m), Fields(t, m)))
                        IN IF m.in = "free" THEN Same(t.body, Obj(b.f @@ t.free.f)) ELSE Same(t.body, b)
Back(t, m) == /\ t.back.n = t.n /\ t.kept
              /\ m.fs # <<>> => Same(t.back.v, t.v)
              /\ m.in = "free" => Same(t.back.free, t.free)
Case(t) == LET m == Messages[t.n] IN {r[1] : r \in {x \in {<<"members", TopRight(t, m)>>, <<"envelope", HeadRight(t, m)>>, <<"fields_out", BodyRight(t, m)>>, <<"fields_in", Back(t, m)>>} : ~x[2]}}
Kind(t) == IF t.is = Decides(t.type, t.word, t.success) THEN {} ELSE {"kind"}
VARIABLE k
Init == k = 0
Next == k < Len(Traces) /\ k' = k + 1
        /\ LET t == Traces[k + 1]
               b == IF t.kind = "case" THEN Case(t) ELSE Kind(t)
           IN IF b = {} THEN TRUE ELSE PrintT("RES " \o ToJson([id |-> t.id, bad |-> b]))
Done == k = Len(Traces) => PrintT("DONE " \o ToString(k))
Spec == Init /\ [][Next]_k
=============================================================================
