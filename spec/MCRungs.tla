------------------------------ MODULE MCRungs ------------------------------
EXTENDS Rungs, TLC
CONSTANTS P, MaxConf, MaxRun, Losses
Next == \/ /\ Cardinality({c \in 0..(Count - 1) : Conf(c).run}) < MaxRun
           /\ \E a \in Answers : (a.prev = -1 => Count < MaxConf) /\ Ask(a)
        \/ \E c \in 0..(Count - 1), l \in Losses : Done(c, l)
Spec == Init(P) /\ [][Next]_vars
P1 == [mode |-> "sync", eta |-> 2, lo |-> 1, hi |-> 4, s |-> 0, all |-> FALSE, skip |-> 0, real |-> FALSE]
P2 == [mode |-> "sync", eta |-> 2, lo |-> 1, hi |-> 4, s |-> 0, all |-> TRUE, skip |-> 0, real |-> FALSE]
P3 == [mode |-> "async", eta |-> 2, lo |-> 1, hi |-> 4, s |-> 0, all |-> FALSE, skip |-> 0, real |-> FALSE]
P4 == [mode |-> "async", eta |-> 2, lo |-> 1, hi |-> 4, s |-> 0, all |-> TRUE, skip |-> 1, real |-> FALSE]
P5 == [mode |-> "sync", eta |-> 3, lo |-> 1, hi |-> 9, s |-> 1, all |-> FALSE, skip |-> 1, real |-> FALSE]
Pars == <<P1, P2, P3, P4, P5>>
=============================================================================
