------------------------------- MODULE MCSpace -------------------------------
(* The declared spaces to propose from: pairs of parameter classes, with or   *)
(* without a fidelity and defaults; and, for every single-parameter case,     *)
(* that the judgement accepts exactly the points of the space.                *)
EXTENDS Space, TLC, Json, IOUtils, SequencesExt
Classes == {"float", "floatlog", "floatwide", "floattiny", "floatneg", "int2", "int", "intlog", "intbig",
            "cat2", "cat5", "catmixed", "catbool", "const"}
Fids == {"none", "int", "float", "intlog"}
Priors == {"none", "some", "all"}
Rank == [c \in Classes |-> CHOOSE i \in 1..Cardinality(Classes) : SetToSeq(Classes)[i] = c]
Cases == {c \in [a : Classes, b : Classes, fid : Fids, prior : Priors] : Rank[c.a] <= Rank[c.b] /\ (c.a = "const" => c.b # "const")}
Kind(c) == CASE c \in {"float", "floatlog", "floatwide", "floattiny", "floatneg"} -> "float"
             [] c \in {"int2", "int", "intlog", "intbig"} -> "int" [] c = "const" -> "const" [] OTHER -> "cat"
\* the judgement itself: a parameter of range 1..3 and a proposed value
Rec(k, t, r, fid, rule, first) ==
  [kind |-> "config", answered |-> TRUE, fresh |-> TRUE, prev |-> TRUE, rule |-> rule, first |-> first,
   ps |-> <<[n |-> "a", k |-> k, fid |-> fid, lo |-> 1, hi |-> 3, d |-> 2]>>, vs |-> <<[n |-> "a", t |-> t, r |-> r]>>]
ASSUME \A k \in {"float", "int"}, t \in {"float", "int", "str", "other"}, r \in -1..5, fid \in BOOLEAN, rule \in {"max", "any"}, first \in BOOLEAN :
         (Broken(Rec(k, t, r, fid, rule, first)) = {}) <=>
            (t = k /\ r \in 1..3 /\ (fid /\ rule = "max" => r = 3) /\ (first /\ ~fid => r = 2))
ASSUME Broken([Rec("int", "int", 2, FALSE, "any", FALSE) EXCEPT !.vs = <<>>]) # {}
ASSUME Broken([Rec("int", "int", 2, FALSE, "any", FALSE) EXCEPT !.vs[1].n = "b"]) # {}
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
