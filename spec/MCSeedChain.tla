---------------------------- MODULE MCSeedChain ----------------------------
EXTENDS SeedChain
CONSTANTS W, Max, Deaths, Tear
Init == pos = 0 /\ draws = <<>> /\ busy = 0 /\ half = "none" /\ killed = 0
Next == \E w \in 1..W :
  \/ Len(draws) < Max /\ Enter(w)
  \/ pos # TORN /\ \E d \in {pos, pos + 1} : Publish(w, d)
  \/ pos # TORN /\ \E p \in {pos + 1, IF draws = <<>> THEN 0 ELSE Last(draws)} : Store(w, p)
  \/ killed < Deaths /\ \E p \in {pos} \union (IF Tear THEN {TORN} ELSE {}) : Die(w, p)
Spec == Init /\ [][Next]_vars
=============================================================================
