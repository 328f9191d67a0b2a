------------------------------- MODULE MCCli -------------------------------
(* The reports of a run that is asked at any moment, on all small runs:      *)
(* the incumbents form a falling chain that ends in a best configuration,    *)
(* the filters divide the run, and reports only ever grow with the run.      *)
EXTENDS Cli
CONSTANT MaxC
VARIABLE cs
Init == cs = <<>>
Sample == Len(cs) < MaxC /\ cs' = Append(cs, [st |-> "pending", l |-> 0])
Take(i) == cs[i].st = "pending" /\ cs' = [cs EXCEPT ![i] = [st |-> "evaluating", l |-> 0]]
Finish(i, f) == cs[i].st = "evaluating" /\ f.st \in Done /\ cs' = [cs EXCEPT ![i] = f]
Next == Sample \/ \E i \in DOMAIN cs : Take(i) \/ \E f \in Fates : Finish(i, f)
Spec == Init /\ [][Next]_cs
Inc == Incumbents(cs)
Chain == \A a \in 1..(Len(Inc) - 1) : Inc[a] > Inc[a + 1] /\ cs[Inc[a]].l < cs[Inc[a + 1]].l
BestIsIncumbent == IF Best(cs) = {} THEN Inc = <<>> ELSE Inc[1] \in Best(cs)
Divides == Len(Listed(cs, "pending")) + Len(Listed(cs, "evaluating")) + Len(Listed(cs, "succeeded")) + Cardinality(Failures(cs)) = Len(cs)
ErrorsStay == [][Failures(cs) \subseteq Failures(cs')]_cs
=============================================================================
