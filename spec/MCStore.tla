------------------------------ MODULE MCStore ------------------------------
EXTENDS Store
CONSTANTS H, D, MaxClock
Init == /\ ver = 0 /\ val = None /\ clock = 0 /\ lock = 0 /\ out = [r |-> "ok", d |-> None]
        /\ hnd = [h \in 1..H |-> [v |-> 0, d |-> None]]
Next == \/ Remove
        \/ \E h \in 1..H : \/ Load(h) \/ Get(h) \/ Peek(h) \/ Stale(h) \/ IsLocked(h) \/ Acquire(h) \/ Release(h)
                           \/ \E d \in 1..D : New(h, d) \/ NewOrLoad(h, d) \/ Put(h, d) \/ PutHeld(h, d)
Spec == Init /\ [][Next]_vars
Bound == clock <= MaxClock
GetIsNewest == [][\A h \in 1..H : out'.r = "ok" /\ out'.d # None => out'.d \in {val'} \cup {hnd[k].d : k \in 1..H}]_vars
=============================================================================
