------------------------------ MODULE SpaceDef ------------------------------
(***************************************************************************)
(* What the definition of a search space means, however it is written: as  *)
(* objects in Python, in a YAML file (plain, below a "pipeline_space" key, *)
(* or inside a settings file), or as a ConfigSpace.                        *)
(*                                                                         *)
(* A value is [t, v]: its kind ("int", "float", "bool", "str", or "e" for  *)
(* a number in scientific notation, which YAML hands over as text) and its *)
(* number, in quarters (a text is numbered).  A definition is a record of  *)
(* the keys that are given.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Has(d, n) == n \in DOMAIN d
Num(x) == x.t \in {"int", "float", "e"}
Whole(x) == x.v % 4 = 0
Same(x, y) == IF x.t = "str" \/ y.t = "str" THEN x = y ELSE x.v = y.v
Plain(x) == IF x.t = "e" THEN [t |-> "float", v |-> x.v] ELSE x
Nil == [t |-> "none", v |-> 0]
Refused == [kind |-> "refused"]

TypeName(s) == CASE s \in {"int", "integer", "Integer", "INT"} -> "int" [] s \in {"float", "Float"} -> "float"
                 [] s \in {"cat", "categorical", "Categorical"} -> "cat" [] OTHER -> "bad"
Deduced(d) ==
  IF Has(d, "lower") /\ Has(d, "upper")
  THEN CASE d.lower.t = "int" /\ d.upper.t = "int" -> "int"
         [] d.lower.t = "float" /\ d.upper.t = "float" -> "float"
         [] Num(d.lower) /\ Num(d.upper) /\ "e" \in {d.lower.t, d.upper.t} -> "float"
         [] OTHER -> "bad"
  ELSE IF Has(d, "choices") THEN "cat" ELSE "bad"
Yaml == {"file", "wrap", "inline"}
CS == {"cs", "csin"}
Kind(d) == IF d.form \in Yaml THEN (IF Has(d, "value") THEN "const" ELSE IF Has(d, "type") THEN TypeName(d.type) ELSE Deduced(d)) ELSE d.k

Keys(k) == {"form", "k", "type"} \cup CASE k \in {"int", "float"} -> {"lower", "upper", "log", "fid", "default", "conf"}
                                        [] k = "cat" -> {"choices", "default", "conf"} [] k = "const" -> {"value"} [] OTHER -> {}
Need(k) == CASE k \in {"int", "float"} -> {"lower", "upper"} [] k = "cat" -> {"choices"} [] k = "const" -> {"value"} [] OTHER -> {}
Conf(d) == IF Has(d, "conf") THEN d.conf ELSE "low"
Flag(d, n) == IF Has(d, n) THEN d[n] ELSE 0

\* are the numbers of the definition numbers of this kind?
Fits(k, d) ==
  /\ Num(d.lower) /\ Num(d.upper) /\ (Has(d, "default") => Num(d.default))
  /\ k = "int" => /\ d.form \in Yaml => (d.lower.t = "int" /\ d.upper.t = "int") \/ "e" \in {d.lower.t, d.upper.t}
                  /\ Whole(d.lower) /\ Whole(d.upper) /\ (Has(d, "default") => Whole(d.default))
Sound(d) ==
  /\ d.lower.v < d.upper.v
  /\ Flag(d, "log") \in {0, 1} /\ Flag(d, "fid") \in {0, 1}
  /\ Flag(d, "log") = 1 => d.lower.v > 0
  /\ Has(d, "default") => d.lower.v <= d.default.v /\ d.default.v <= d.upper.v
Numeric(k, d) ==
  IF ~Fits(k, d) THEN Refused
  ELSE IF ~Sound(d) THEN Refused
  ELSE [kind |-> k, lo |-> [t |-> k, v |-> d.lower.v], hi |-> [t |-> k, v |-> d.upper.v], log |-> Flag(d, "log"), fid |-> Flag(d, "fid"),
        def |-> IF Has(d, "default") THEN [t |-> k, v |-> d.default.v] ELSE Nil, conf |-> Conf(d), choices |-> <<>>, value |-> Nil]
Choice(d) ==
  LET c == [i \in DOMAIN d.choices |-> Plain(d.choices[i])]
      df == IF Has(d, "default") THEN Plain(d.default) ELSE Nil
  IN  IF \/ Len(c) < 2
         \/ \E i, j \in DOMAIN c : i < j /\ Same(c[i], c[j])
         \/ df # Nil /\ ~\E i \in DOMAIN c : Same(c[i], df)
      THEN Refused
      ELSE [kind |-> "cat", lo |-> Nil, hi |-> Nil, log |-> 0, fid |-> 0, def |-> df, conf |-> Conf(d), choices |-> c, value |-> Nil]
Constant(d) == [kind |-> "const", lo |-> Nil, hi |-> Nil, log |-> 0, fid |-> 0, def |-> Plain(d.value), conf |-> "low", choices |-> <<>>, value |-> Plain(d.value)]
Meaning(d) ==
  LET k == Kind(d) IN
  IF k \notin {"int", "float", "cat", "const"} \/ ~(DOMAIN d \subseteq Keys(k)) \/ ~(Need(k) \subseteq DOMAIN d) THEN Refused
  ELSE IF Conf(d) \notin {"low", "medium", "high"} THEN Refused
  ELSE CASE k \in {"int", "float"} -> Numeric(k, d) [] k = "cat" -> Choice(d) [] k = "const" -> Constant(d)

\* a space: its definitions, and whether it (a ConfigSpace) has conditions or forbidden clauses
Space(defs, clause) ==
  LET m == [i \in DOMAIN defs |-> Meaning(defs[i])]
      bad == clause = 1 \/ \E i \in DOMAIN m : m[i] = Refused
  IN  IF bad THEN [end |-> "refused", params |-> <<>>]
      ELSE IF Cardinality({i \in DOMAIN m : m[i].fid = 1}) > 1 THEN [end |-> "refused", params |-> <<>>]
      ELSE [end |-> "ok", params |-> m]
\* the parameter that is the fidelity (its position), and whether there is a prior
Fidelity(s) == IF \E i \in DOMAIN s.params : s.params[i].fid = 1 THEN CHOOSE i \in DOMAIN s.params : s.params[i].fid = 1 ELSE 0
Prior(s) == IF \E i \in DOMAIN s.params : s.params[i].kind # "const" /\ s.params[i].def # Nil THEN 1 ELSE 0
\* a value an evaluation got: [t, fl, ce] (the quarters below and above it)
In(g, m) == CASE m.kind \in {"int", "float"} -> g.t = m.kind /\ m.lo.v <= g.fl /\ g.ce <= m.hi.v /\ (m.kind = "int" => g.fl = g.ce)
              [] m.kind = "cat" -> \E i \in DOMAIN m.choices : g = [t |-> m.choices[i].t, fl |-> m.choices[i].v, ce |-> m.choices[i].v]
              [] m.kind = "const" -> g = [t |-> m.value.t, fl |-> m.value.v, ce |-> m.value.v]

\* ---- judging what the real code made of a definition: the names of what differs
SameParam(p, m) == /\ \A n \in {"kind", "lo", "hi", "log", "fid", "conf", "choices", "value"} : p[n] = m[n]
                   /\ IF m.def.t = "none" \/ p.def.t = "none" THEN p.def = m.def ELSE IF m.kind = "cat" THEN Same(p.def, m.def) ELSE p.def = m.def
Judge(r) ==
  LET s == Space(r.defs, r.clause) IN
  IF s.end # r.seen.end THEN {"end"}
  ELSE IF s.end = "refused" THEN (IF r.seen.got = <<>> THEN {} ELSE {"evaluated"})
  ELSE (IF Len(r.seen.params) = Len(s.params) /\ \A i \in DOMAIN s.params : SameParam(r.seen.params[i], s.params[i]) THEN {} ELSE {"params"})
       \cup (IF r.seen.fid = Fidelity(s) THEN {} ELSE {"fidelity"})
       \cup (IF r.seen.prior = Prior(s) THEN {} ELSE {"prior"})
       \cup (IF Len(r.seen.got) = Len(s.params) /\ \A i \in DOMAIN s.params : In(r.seen.got[i], s.params[i]) THEN {} ELSE {"value"})
=============================================================================
