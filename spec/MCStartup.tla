----------------------------- MODULE MCStartup -----------------------------
EXTENDS Startup
CONSTANTS W, Ids
Init == /\ info = 0 /\ part = [p \in Parts |-> 0] /\ creator = 0
        /\ wk \in [1..W -> {[pc |-> "off", id |-> i] : i \in Ids}]
Step(w) == \/ Launch(w) \/ CreateInfo(w) \/ LoadInfo(w) \/ Ready(w) \/ Exit(w) \/ Crash(w)
           \/ \E p \in Parts : CreatePart(w, p, w)
Ended == \A w \in 1..W : wk[w].pc \in {"done", "refused", "dead"}
Next == (\E w \in 1..W : Step(w)) \/ (Ended /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A w \in 1..W : WF_vars(Launch(w) \/ CreateInfo(w) \/ LoadInfo(w) \/ Ready(w) \/ Exit(w)
           \/ \E p \in Parts : CreatePart(w, p, w))
\* a worker with the identity of the run always gets in; somebody gets in if nobody dies
Terminates == <>Ended
FirstIn == (Ended /\ \A w \in 1..W : wk[w].pc # "dead") => \E w \in 1..W : wk[w].pc = "done" /\ creator = w
=============================================================================
