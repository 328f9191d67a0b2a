------------------------------- MODULE MCCsv -------------------------------
EXTENDS Csv
CONSTANTS W, Max, Deaths
Init == trials = <<>> /\ csv = Nothing /\ wk = [w \in 1..W |-> Off] /\ lock = 0
\* one step of the run: a new configuration, or one moves on
Steps == (IF Len(trials) < Max THEN {Append(trials, 0)} ELSE {})
         \cup UNION {IF trials[i] = 0 THEN {[trials EXCEPT ![i] = 1]}
                     ELSE IF trials[i] = 1 THEN {[trials EXCEPT ![i] = 2], [trials EXCEPT ![i] = 10 + i]} ELSE {} : i \in DOMAIN trials}
Views == {v \in UNION {[1..n -> {0, 1, 2, 11, 12, 13}] : n \in 0..Len(trials)} : TRUE}
Torn == [rows |-> <<>>, run |-> [ev |-> 0, pend |-> -2, prog |-> -2, err |-> -2, best |-> -2]]
Dead == Cardinality({w \in 1..W : wk[w].pc = "dead"})
Next == \E w \in 1..W :
  \/ Launch(w) \/ Collect(w) \/ Begin(w) \/ Exit(w)
  \/ \E ts \in Steps : Change(w, ts)
  \/ wk[w].pc = "summing" /\ \E v \in Views : Write(w, v)
  \/ Dead < Deaths /\ \E c \in {csv, Torn} : Crash(w, c)
Spec == Init /\ [][Next]_vars
=============================================================================
