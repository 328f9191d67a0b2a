----------------------------- MODULE MCSpaceDef -----------------------------
(* Definitions of single parameters and of pairs, in every form; their       *)
(* meaning has the properties below, and they are written out for the real   *)
(* code.                                                                     *)
EXTENDS SpaceDef, TLC, Json, IOUtils, SequencesExt
I(n) == [t |-> "int", v |-> 4 * n]
F(q) == [t |-> "float", v |-> q]
S(q) == [t |-> "e", v |-> q]
T(n) == [t |-> "str", v |-> n]
B(n) == [t |-> "bool", v |-> 4 * n]
Opt(n, x) == IF x = "-" THEN <<>> ELSE n :> x
Bound == {I(-1), I(0), I(1), I(10), F(4), F(10), F(40), F(-2), S(4), S(40), S(10), T(1)}
\* bounds, with and without a type
A == {(("form" :> "file") @@ ("lower" :> l) @@ ("upper" :> u)) @@ x : l \in Bound, u \in Bound,
      x \in {<<>>} \cup {("type" :> y) : y \in {"int", "Integer", "float", "cat", "junk"}}}
\* scale, fidelity, default, confidence
Ranges == {<<I(1), I(10)>>, <<F(4), F(40)>>, <<S(4), S(40)>>, <<I(0), I(10)>>, <<F(10), S(40)>>}
Defs == {I(1), I(10), F(10), F(12), F(44), S(40), S(10), T(1), I(0)}
Flags == {<<>>} \cup {("log" :> l) : l \in {0, 1, 2}} \cup {("fid" :> l) : l \in {0, 1, 2}} \cup {("log" :> 1) @@ ("fid" :> 1), ("log" :> 1) @@ ("fid" :> 0)}
Priors == {<<>>} \cup {("default" :> x) : x \in Defs} \cup {("default" :> x) @@ ("conf" :> c) : x \in {I(1), F(12), S(40)}, c \in {"low", "medium", "high", "junk"}} \cup {("conf" :> "high")}
C == {(("form" :> "file") @@ ("lower" :> r[1]) @@ ("upper" :> r[2])) @@ y @@ f @@ p : r \in Ranges, f \in Flags, p \in Priors,
      y \in {<<>>} \cup {("type" :> z) : z \in {"integer", "Float"}}}
\* the same as objects (numbers only; whole ones for integers)
PyOK(d) == \A n \in {"lower", "upper", "default"} \cap DOMAIN d : d[n].t \in {"int", "float"} /\ (d.k = "int" => Whole(d[n]))
P == {d \in {(("form" :> "py") @@ ("k" :> k) @@ ("lower" :> r[1]) @@ ("upper" :> r[2])) @@ f @@ p : k \in {"int", "float"}, f \in Flags, p \in Priors,
             r \in {<<I(1), I(10)>>, <<F(4), F(40)>>, <<I(0), I(10)>>, <<I(10), I(1)>>, <<I(1), I(1)>>, <<F(40), F(40)>>, <<I(-1), F(2)>>, <<I(1), I(2)>>}} : PyOK(d)}
\* choices
Ch == {I(1), F(10), S(40), S(4), T(1), T(2), B(1)}
Lists == {<<>>} \cup {<<x>> : x \in Ch} \cup {<<x, y>> : x \in Ch, y \in Ch} \cup {<<x, y, z>> : x \in Ch, y \in Ch, z \in Ch}
CatOpt == {<<>>} \cup {("default" :> x) : x \in {I(1), F(40), S(10), T(1), T(3), B(1)}} \cup {("default" :> T(1)) @@ ("conf" :> c) : c \in {"medium", "high", "junk"}}
D == {(("form" :> "file") @@ ("choices" :> c)) @@ o @@ y : c \in Lists, o \in CatOpt, y \in {<<>>, ("type" :> "cat"), ("type" :> "Categorical")}}
PD == {d \in {(("form" :> "py") @@ ("k" :> "cat") @@ ("choices" :> c)) @@ o : c \in Lists, o \in CatOpt} :
       (\A i \in DOMAIN d.choices : d.choices[i].t # "e") /\ (Has(d, "default") => d.default.t # "e")}
\* constants, and definitions that lack something or have something else
K == {("form" :> f) @@ ("value" :> x) : f \in Yaml, x \in {I(1), I(0), F(10), S(40), S(10), T(1), B(0), B(1)}}
     \cup {("form" :> "py") @@ ("k" :> "const") @@ ("value" :> x) : x \in {I(1), I(0), F(10), T(1), B(0)}}
O == {("form" :> "file") @@ x : x \in
       {("lower" :> I(1)), ("upper" :> I(1)), ("type" :> "int"), ("type" :> "cat"), ("type" :> "const"), ("type" :> "float") @@ ("choices" :> <<I(1), I(2)>>),
        ("lower" :> I(1)) @@ ("upper" :> I(10)) @@ ("extra" :> 1), ("choices" :> <<T(1), T(2)>>) @@ ("extra" :> 1), ("choices" :> <<T(1), T(2)>>) @@ ("fid" :> 1),
        ("choices" :> <<T(1), T(2)>>) @@ ("log" :> 1), ("lower" :> I(1)) @@ ("choices" :> <<T(1), T(2)>>), ("lower" :> I(1)) @@ ("upper" :> I(2)) @@ ("choices" :> <<T(1), T(2)>>),
        ("default" :> I(1)), ("log" :> 1), ("type" :> "int") @@ ("lower" :> I(1)), ("type" :> "float") @@ ("upper" :> F(4)), ("log" :> 1) @@ ("lower" :> I(1))}}
\* ConfigSpace (always with a default)
G == {(("form" :> f) @@ ("lower" :> r[1]) @@ ("upper" :> r[2]) @@ ("k" :> r[1].t)) @@ l @@ ("default" :> r[3]) : f \in CS, l \in {<<>>, ("log" :> 0), ("log" :> 1)},
       r \in {<<I(1), I(10), I(3)>>, <<F(4), F(40), F(10)>>, <<I(2), I(9), I(9)>>, <<F(2), F(3), F(2)>>}}
     \cup {("form" :> f) @@ ("k" :> "cat") @@ ("choices" :> c) @@ ("default" :> c[i]) : f \in CS, c \in {<<I(1), F(10), T(1)>>, <<T(2), T(1), T(3)>>, <<I(3), I(2), I(1)>>}, i \in 1..3}
     \cup {("form" :> f) @@ ("k" :> "const") @@ ("value" :> x) : f \in CS, x \in {I(1), F(10), T(1)}}
     \cup {("form" :> f) @@ ("k" :> "normal") : f \in CS}
Singles == {[defs |-> <<d>>, clause |-> 0] : d \in A \cup C \cup P \cup D \cup PD \cup K \cup O \cup G}
\* pairs: fidelities, one part refused, clauses
Some(f) == IF f = "py" THEN {("k" :> "int") @@ ("lower" :> I(1)) @@ ("upper" :> I(10)) @@ x : x \in {<<>>, ("fid" :> 1), ("fid" :> 0), ("fid" :> 1) @@ ("log" :> 1)}}
                            \cup {("k" :> "float") @@ ("lower" :> I(1)) @@ ("upper" :> F(10)) @@ x : x \in {<<>>, ("fid" :> 1), ("default" :> F(6))}}
                            \cup {("k" :> "cat") @@ ("choices" :> <<T(1), T(2)>>), ("k" :> "const") @@ ("value" :> I(1)), ("k" :> "cat") @@ ("choices" :> <<T(1)>>)}
           ELSE {("lower" :> I(1)) @@ ("upper" :> I(10)) @@ x : x \in {<<>>, ("fid" :> 1), ("fid" :> 0), ("fid" :> 1) @@ ("log" :> 1)}}
                \cup {("lower" :> F(4)) @@ ("upper" :> F(10)) @@ x : x \in {<<>>, ("fid" :> 1), ("default" :> F(6))}}
                \cup {("choices" :> <<T(1), T(2)>>), ("value" :> I(1)), ("choices" :> <<T(1)>>)}
Pairs == UNION {{[defs |-> <<("form" :> f) @@ a, ("form" :> f) @@ b>>, clause |-> 0] : a \in Some(f), b \in Some(f)} : f \in Yaml \cup {"py"}}
\* a ConfigSpace (with or without clauses), also next to an object
GI == ("k" :> "int") @@ ("lower" :> I(1)) @@ ("upper" :> I(10)) @@ ("default" :> I(3))
GC == ("k" :> "cat") @@ ("choices" :> <<T(1), T(2)>>) @@ ("default" :> T(2))
Mixed == {[defs |-> <<("form" :> f) @@ GI, ("form" :> f) @@ GC>>, clause |-> c] : f \in CS, c \in {0, 1}}
         \cup {[defs |-> <<("form" :> "csin") @@ g, ("form" :> "py") @@ p>>, clause |-> 0] : g \in {GI, GC}, p \in Some("py")}
All == Singles \cup Pairs \cup Mixed

VARIABLES defs, clause
vars == <<defs, clause>>
Init == \E s \in All : defs = s.defs /\ clause = s.clause
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
M == Space(defs, clause)
\* what holds of the meaning itself
Proper == M.end = "ok" => \A i \in DOMAIN M.params : LET m == M.params[i] IN
  CASE m.kind \in {"int", "float"} -> /\ m.lo.v < m.hi.v /\ (m.log = 1 => m.lo.v > 0) /\ (m.kind = "int" => Whole(m.lo) /\ Whole(m.hi) /\ Whole(m.def))
                                      /\ (m.def # Nil => m.lo.v <= m.def.v /\ m.def.v <= m.hi.v)
    [] m.kind = "cat" -> Len(m.choices) > 1 /\ (m.def # Nil => \E j \in DOMAIN m.choices : Same(m.choices[j], m.def))
    [] OTHER -> m.value.t # "e"
OneFidelity == M.end = "ok" => Cardinality({i \in DOMAIN M.params : M.params[i].fid = 1}) <= 1
\* the form does not matter: written in YAML with its type, an object means the same
Written(d) == IF d.k = "const" THEN [n \in DOMAIN d \ {"k"} |-> IF n = "form" THEN "file" ELSE d[n]]
              ELSE [n \in (DOMAIN d \ {"k"}) \cup {"type"} |-> IF n = "form" THEN "file" ELSE IF n = "type" THEN d.k
                     ELSE IF n \in {"lower", "upper"} /\ d.k = "int" THEN I(d[n].v \div 4) ELSE d[n]]
FormFree == Len(defs) = 1 /\ defs[1].form = "py" => Meaning(Written(defs[1])) = Meaning(defs[1])
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(All))
=============================================================================
