----------------------------- MODULE MCSummary -----------------------------
(* A run as seen by somebody who asks for its status at any moment: the      *)
(* states are all small run directories; the status changes as it should     *)
(* with every step of a run.                                                 *)
EXTENDS Summary, TLC, Json, IOUtils, SequencesExt
CONSTANT MaxC
VARIABLE cs
Init == cs = <<>>
Sample == Len(cs) < MaxC /\ cs' = Append(cs, [st |-> "pending", l |-> 0])
Take(i) == cs[i].st = "pending" /\ cs' = [cs EXCEPT ![i] = [st |-> "evaluating", l |-> 0]]
Finish(i, f) == cs[i].st = "evaluating" /\ f.st \in Done \cup {"half"} /\ cs' = [cs EXCEPT ![i] = f]
Next == Sample \/ \E i \in DOMAIN cs : Take(i) \/ \E f \in Fates : Finish(i, f)
Spec == Init /\ [][Next]_cs
Total == \A st \in {"evaluating", "success"} : Status(Taken(cs, st)).evaluated + Status(Taken(cs, st)).pending = Len(cs)
Improves == [][\A i \in Best(cs) : \A j \in Best(cs') : cs'[j].l <= cs[i].l]_cs
Counts == [][Status(cs').evaluated >= Status(cs).evaluated /\ Status(cs').errors >= Status(cs).errors]_cs
Ordered(s) == LET o == SetToSeq(Fates)
                  r(f) == CHOOSE i \in DOMAIN o : o[i] = f
              IN \A i \in 1..(Len(s) - 1) : r(s[i]) <= r(s[i + 1])
ASSUME TLCSet(1, {})
Collect == IF Ordered(cs) THEN TLCSet(1, TLCGet(1) \cup {cs}) ELSE TRUE
Post == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(1)))
=============================================================================
