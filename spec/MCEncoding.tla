----------------------------- MODULE MCEncoding -----------------------------
(* Two values (positions a <= b) are brought through the same domains.       *)
EXTENDS Encoding, TLC, Json, IOUtils, SequencesExt
CONSTANTS Ns, M, Long
VARIABLES a, b, last
vars == <<a, b, last>>
Shapes == {[k |-> "cont", n |-> 0]} \cup {[k |-> "steps", n |-> n] : n \in Ns}
Leq(p, q) == p[1] * q[2] <= q[1] * p[2]
Init == /\ a \in {<<i, M>> : i \in 0..M} /\ b \in {<<i, M>> : i \in 0..M} /\ Leq(a, b) /\ last = [k |-> "cont", n |-> 0]
To(p, n) == <<Step(p[1], p[2], n), n - 1>>
Next == \E d \in Shapes : last' = d /\ IF d.k = "cont" THEN UNCHANGED <<a, b>> ELSE a' = To(a, d.n) /\ b' = To(b, d.n)
Spec == Init /\ [][Next]_vars
Inside == Leq(<<0, 1>>, a) /\ Leq(b, <<1, 1>>)
Ordered == Leq(a, b)
\* what has been at a bound remains there; what is a step of a domain stays when it is brought there again
Ends == [][(a[1] = 0 => a'[1] = 0) /\ (b[1] = b[2] => b'[1] = b'[2])]_vars
Stays == [][(last.k = "steps" /\ last' = last) => a' = a /\ b' = b]_vars
\* every step of a domain keeps its number, however it is encoded, and gets an equal share of the positions
Back == \A n \in Ns : \A i \in 0..(n - 1) : Steps(i, n - 1, n) = {i}
Shares == \A n \in Ns : \A i, j \in 0..(n - 1) :
             LET C(x) == Cardinality({u \in 1..(12 * M) : Step(2 * u - 1, 24 * M, n) = x}) IN C(i) - C(j) \in -1..1
ASSUME Back /\ Shares
Starts(d) == IF d.k = "cont" THEN {<<i, M>> : i \in 0..M} ELSE {<<i, d.n - 1>> : i \in 0..(d.n - 1)}
Walks == UNION {UNION {{[doms |-> <<d>> \o w, at |-> s] : w \in [1..l -> Shapes], s \in Starts(d)} : d \in Shapes} : l \in 1..Long}
Post == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Walks))
=============================================================================
