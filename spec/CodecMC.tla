------------------------------- MODULE CodecMC -------------------------------
(* Every message and, around its smallest and its fullest form, every pair of  *)
(* fields with every kind of value each can have.                              *)
EXTENDS Codec, Json
CONSTANTS Pairs    \* TRUE: two fields differ from the base, FALSE: one

\* values are classes here; the harness puts concrete values in their place
A(f, n) == At(f.a \o "#" \o n)
RECURSIVE Small(_), Full(_)
Small(fs) == [a \in As(fs) |-> LET f == FieldA(fs, a) IN
               IF f.d # None THEN f.d
               ELSE CASE f.k = "obj" -> Obj(Small(Types[f.t])) [] f.k = "objs" -> Lst(<<>>) [] f.k = "word" -> At("\"" \o f.t[1] \o "\"") [] OTHER -> A(f, "A")]
Full(fs) == [a \in As(fs) |-> LET f == FieldA(fs, a) IN
               CASE f.k = "obj" -> Obj(IF f.t = "Source" THEN [Small(Types["Source"]) EXCEPT !["path"] = At("path#A"), !["name"] = At("name#A")] ELSE Full(Types[f.t]))
                 [] f.k = "objs" -> IF f.t = "Source" THEN Lst(<<Obj(Small(Types["Source"]))>>) ELSE Lst(<<Obj(Full(Types[f.t])), Obj(Small(Types[f.t]))>>)
                 [] f.k = "word" -> At("\"" \o f.t[Len(f.t)] \o "\"") [] f.k \in {"strs", "ints"} -> Lst(<<A(f, "A"), A(f, "B")>>)
                 [] f.k = "bool" -> IF f.d = At("true") THEN At("false") ELSE At("true") [] OTHER -> A(f, "A")]
RECURSIVE Alt(_, _)
Alt(f, deep) == (IF f.d = None THEN {} ELSE {f.d}) \cup
          CASE f.k = "int" -> {At("0"), A(f, "A"), A(f, "neg")}
            [] f.k = "str" -> {At("\"\""), A(f, "A"), A(f, "odd")}
            [] f.k = "bool" -> {At("true"), At("false")}
            [] f.k = "word" -> {At("\"" \o f.t[i] \o "\"") : i \in 1..Len(f.t)}
            [] f.k = "any" -> {At("0"), At("false"), At("\"\""), A(f, "A"), A(f, "tree")}
            [] f.k = "map" -> {At("{}"), A(f, "map")}
            [] f.k = "strs" -> {Lst(<<>>), Lst(<<A(f, "A")>>), Lst(<<A(f, "B"), A(f, "A"), At("\"\"")>>)}
            [] f.k = "ints" -> {Lst(<<>>), Lst(<<A(f, "A")>>), Lst(<<A(f, "B"), A(f, "A"), At("0")>>)}
            [] f.k = "obj" -> IF deep = 0 THEN {Obj(Small(Types[f.t])), Obj(Full(Types[f.t]))}
                              ELSE {Obj(Small(Types[f.t])), Obj(Full(Types[f.t]))} \cup
                                   UNION {{Obj([b EXCEPT ![g.a] = x]) : x \in Alt(g, deep - 1)} : g \in {Types[f.t][i] : i \in 1..Len(Types[f.t])}, b \in {Small(Types[f.t]), Full(Types[f.t])}}
            [] f.k = "objs" -> {Lst(<<>>), Lst(<<Obj(Small(Types[f.t]))>>), Lst(<<Obj(Full(Types[f.t])), Obj(Small(Types[f.t]))>>)} \cup
                               (IF deep = 0 THEN {} ELSE
                                   UNION {{Lst(<<Obj([b EXCEPT ![g.a] = x])>>) : x \in Alt(g, deep - 1)} : g \in {Types[f.t][i] : i \in 1..Len(Types[f.t])}, b \in {Small(Types[f.t]), Full(Types[f.t])}})

Forms(fs) == UNION {{[b EXCEPT ![f.a] = x] : x \in Alt(f, 1)} : f \in {fs[i] : i \in 1..Len(fs)}, b \in {Small(fs), Full(fs)}} \cup {Small(fs), Full(fs)}
Forms2(fs) == Forms(fs) \cup
    UNION {{[b EXCEPT ![p[1].a] = x, ![p[2].a] = y] : x \in Alt(p[1], 0), y \in Alt(p[2], 0)} :
           p \in {<<fs[i], fs[j]>> : i, j \in 1..Len(fs)} \ {<<fs[i], fs[i]>> : i \in 1..Len(fs)}, b \in {Small(fs), Full(fs)}}

ASSUME PrintT("SCHEMA " \o ToJson([types |-> Types, messages |-> Messages]))

VARIABLES name, val
Init == /\ name \in Names
        /\ val \in (IF Messages[name].fs = <<>> THEN {<<>>} ELSE IF Pairs THEN Forms2(Messages[name].fs) ELSE Forms(Messages[name].fs))
Next == FALSE /\ UNCHANGED <<name, val>>
Spec == Init /\ [][Next]_<<name, val>>

FS == Messages[name].fs
RoundTrip == FS # <<>> => UnpackFs(FS, PackFs(FS, val).f) = val
Extra == FS # <<>> => LET j == PackFs(FS, val).f IN UnpackFs(FS, j @@ ("x-other" :> At("1")) @@ ("verified_" :> Null)) = val
\* what is left out takes the default of its own
Absent == FS # <<>> => LET j == PackFs(FS, val).f IN
    \A i \in 1..Len(FS) : UnpackFs(FS, [x \in DOMAIN j \ {FS[i].j} |-> j[x]]) = [val EXCEPT ![FS[i].a] = FS[i].d]
NoClash == /\ Cardinality(Js(FS)) = Len(FS) /\ Cardinality(As(FS)) = Len(FS)
           /\ \A t \in DOMAIN Types : Cardinality(Js(Types[t])) = Len(Types[t]) /\ Cardinality(As(Types[t])) = Len(Types[t])
OneKind == LET m == Messages[name] IN
           /\ name # "ErrorResponse" => Decides(m.type, m.word, TRUE) = name
           /\ m.type = "response" /\ m.word # "" => Decides(m.type, m.word, FALSE) = "ErrorResponse"
           /\ Decides(m.type, "x-unknown", TRUE) = "" /\ Decides("x-type", m.word, TRUE) = ""
Report == PrintT("CASE " \o ToJson([n |-> name, v |-> IF FS = <<>> THEN <<>> ELSE val, j |-> IF FS = <<>> THEN Obj(<<>>) ELSE PackFs(FS, val)]))
=============================================================================
