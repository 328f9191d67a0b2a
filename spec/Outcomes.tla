------------------------------ MODULE Outcomes ------------------------------
(***************************************************************************)
(* What can become of the evaluations a searcher has asked for, as         *)
(* histories: at any time the searcher can be asked for another            *)
(* configuration (Ask), and any running evaluation can end in any way, or  *)
(* never end.  A searcher has to answer in every reachable state.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT Len0
Outcome == {"ok", "tie", "nan", "inf", "ninf", "huge", "fail", "failval", "run"}
VARIABLE hist \* the outcomes of the configurations asked for, in their order
Init == hist = <<>>
Ask(o) == Len(hist) < Len0 /\ hist' = Append(hist, o)
Next == \E o \in Outcome : Ask(o)
Spec == Init /\ [][Next]_hist
Order == SetToSeq(Outcome)
Rank(o) == CHOOSE i \in DOMAIN Order : Order[i] = o
Sorted(h) == \A i \in 1..(Len(h) - 1) : Rank(h[i]) <= Rank(h[i + 1])
Histories == UNION {[1..n -> Outcome] : n \in 1..Len0}
\* every history of the state machine is one of these, and every one of these is reached
Reach == hist \in Histories \cup {<<>>}
Post == /\ TLCGet("distinct") = Cardinality(Histories) + 1
        /\ JsonSerialize(IOEnv.OUT, SetToSeq({[h |-> h, sorted |-> Sorted(h)] : h \in Histories}))
=============================================================================
