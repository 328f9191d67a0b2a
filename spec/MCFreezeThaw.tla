---------------------------- MODULE MCFreezeThaw ----------------------------
EXTENDS FreezeThaw
CONSTANTS MaxConf, MaxRun, Losses
Pars == {[lo |-> lo, hi |-> hi, step |-> st, init |-> i] : lo \in {1, 2}, hi \in {4, 5}, st \in {1, 2, 3}, i \in {1, 2}}
Next == \/ /\ Cardinality({c \in 0..(Count - 1) : Running(c)}) < MaxRun
           /\ \E a \in Possible : (a.prev = -1 => Count < MaxConf) /\ Ask(a)
        \/ \E c \in 0..(Count - 1), l \in Losses : Done(c, l)
MCInit == \E P \in {q \in Pars : q.hi - q.lo >= q.step} : Init(P)
Spec == MCInit /\ [][Next]_vars
\* a model that prefers to continue, and the best so far, brings configurations to the end
Greedy == /\ \E P \in {q \in Pars : q.hi - q.lo >= q.step} : Init(P)
          /\ [][\/ \E a \in Best([i \in 1..Count |-> IF Running(i - 1) THEN 0 ELSE 2 + Steps(i - 1)[Len(Steps(i - 1))].score], 1) : Count < MaxConf /\ Ask(a)
                \/ \E c \in 0..(Count - 1), l \in Losses : Done(c, l)]_vars
          /\ WF_vars(Count < MaxConf /\ \E a \in Best([i \in 1..Count |-> IF Running(i - 1) THEN 0 ELSE 2 + Steps(i - 1)[Len(Steps(i - 1))].score], 1) : Ask(a))
          /\ WF_vars(\E c \in 0..(Count - 1), l \in Losses : Done(c, l))
Reaches == <>(Count = MaxConf \/ \E c \in 0..(Count - 1) : Top(c) = Last(par))
=============================================================================
