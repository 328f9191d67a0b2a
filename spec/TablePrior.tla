---------------------------- MODULE TablePrior ----------------------------
EXTENDS Prior, Json, IOUtils, TLC, SequencesExt
Records == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
ASSUME JsonSerialize(IOEnv.VERDICTS, [i \in DOMAIN Records |-> SetToSeq(Judge(Records[i]))])
=============================================================================
