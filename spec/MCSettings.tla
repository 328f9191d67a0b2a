----------------------------- MODULE MCSettings -----------------------------
(* All ways to give one or two arguments (not at all, in the call, in the   *)
(* file, in both with different values, as an explicit None over the file), *)
(* the others being fixed; written out as cases for the real code.          *)
EXTENDS Settings, TLC, Json, IOUtils, SequencesExt
Vals(n) == CASE n = "root" -> <<1, 2>> [] n = "fn" -> <<1, 2>> [] n = "space" -> <<1, 2>> [] n = "total" -> <<2, 4>> [] n = "per" -> <<1, 3>>
             [] n = "cost" -> <<2, 3>> [] n = "ign" -> <<0, 1>> [] n = "lerr" -> <<0, 7>> [] n = "cerr" -> <<0, 3>> [] n = "summ" -> <<0, 1>>
             [] n = "over" -> <<0, 1>> [] n = "dev" -> <<0, 3>> [] n = "task" -> <<0, 2>> [] n = "cont" -> <<0, 1>> [] n = "hooks" -> <<1, 2>>
\* <<in the call, in the file>>; 9: not given, 8: explicitly None
Ways(n) == LET v == Vals(n) IN
  {<<9, 9>>, <<v[1], 9>>, <<v[2], 9>>, <<9, v[1]>>, <<9, v[2]>>, <<v[1], v[2]>>, <<v[2], v[1]>>}
  \cup IF n \in {"total", "per", "cost", "lerr", "cerr", "dev", "task"} THEN {<<8, v[1]>>, <<8, v[2]>>} ELSE {}
Order == <<"root", "fn", "space", "total", "per", "cost", "ign", "lerr", "cerr", "summ", "over", "dev", "task", "cont", "hooks">>
Pos(n) == CHOOSE i \in DOMAIN Order : Order[i] = n
\* everything else: an ordinary run of up to 3 evaluations
Base == [root |-> 1, fn |-> 1, space |-> 1, total |-> 3]
Code(x) == IF x = 8 THEN NONE ELSE x
Given(a, b, wa, wb, k) == {n \in Names : (n = a /\ wa[k] # 9) \/ (n = b /\ wb[k] # 9)}
CallOf(a, b, wa, wb) == LET D == Given(a, b, wa, wb, 1) \cup (DOMAIN Base \ {a, b})
                        IN [n \in D |-> IF n = a THEN Code(wa[1]) ELSE IF n = b THEN Code(wb[1]) ELSE Base[n]]
FileOf(a, b, wa, wb) == [n \in Given(a, b, wa, wb, 2) |-> Code(IF n = a THEN wa[2] ELSE wb[2])]

VARIABLES call, file, pre, fail
vars == <<call, file, pre, fail>>
Init == \E a \in Names : \E b \in {n \in Names : Pos(n) > Pos(a)} : \E wa \in Ways(a), wb \in Ways(b) :
          /\ call = CallOf(a, b, wa, wb) /\ file = FileOf(a, b, wa, wb) /\ pre \in {0, 1} /\ fail \in {0, 2}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* what holds of the meaning itself
E == Effective(call, file)
X == Expected(call, file, pre, fail)
CallWins == \A n \in DOMAIN call : E[n] = call[n]
FileCounts == \A n \in DOMAIN file \ DOMAIN call : E[n] = file[n]
Limits == X.end # "refused" => /\ (E.per # NONE => Len(X.recs) <= E.per) /\ (E.total # NONE => Len(X.recs) <= E.total)
Errors == X.end = "raised" <=> ((\E i \in DOMAIN X.recs : X.recs[i].ok = 0) /\ ~Suppressed(E))
\* the cases, written out for the real code
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(UNION {UNION {{[call |-> CallOf(a, b, w[1], w[2]), file |-> FileOf(a, b, w[1], w[2])] : w \in Ways(a) \X Ways(b)}
                                          : b \in {n \in Names : Pos(n) > Pos(a)}} : a \in Names}))
=============================================================================
