----------------------------- MODULE MCProtocol -----------------------------
(* Model checking instance: a few workers, every interleaving, failures and *)
(* crashes of any worker at any point.                                      *)
EXTENDS Protocol, TLC
CONSTANTS W,          \* number of workers
          MaxTrials,  \* bound on the number of trials
          MaxCrashes,
          MaxTotal, InProg, MaxW, MaxCost, OnErr, Fails  \* settings

NoLimit == -1
S == [maxTotal |-> MaxTotal, inProg |-> InProg, maxW |-> MaxW, maxCost |-> MaxCost,
      maxCostW |-> None, maxWall |-> None, maxTimW |-> None, maxTim |-> None,
      onErr |-> OnErr, lossErr |-> None, costErr |-> None]

Init ==
  /\ trials = <<>> /\ errs = <<>> /\ used = 0 /\ lock = 0 /\ runs = <<>> /\ crashes = 0
  /\ wk = [w \in 1..W |-> Fresh]
  /\ set = [w \in 1..W |-> S]

Outs(w) == {[ok |-> TRUE, loss |-> 10 * w + runs[wk[w].t], cost |-> 1, dur |-> 1]}
           \cup IF Fails THEN {[ok |-> FALSE, loss |-> -1, cost |-> -1, dur |-> 1]} ELSE {}

Step(w) ==
  \/ Launch(w) \/ Internal(w) \/ Ask(w)
  \/ ClaimOk(w) \/ Report(w, 1) \/ Ledger(w) \/ ErrLog(w) \/ Exit(w) \/ EvalStart(w)
  \/ Len(trials) < MaxTrials /\ Sample(w, Len(trials))
  \/ wk[w].pc = "eval" /\ \E o \in Outs(w) : EvalEnd(w, o)
  \/ crashes < MaxCrashes /\ Crash(w)

Next == (\E w \in 1..W : Step(w)) \/ (AllEnded /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A w \in 1..W : WF_vars(Launch(w) \/ Internal(w) \/ Ask(w) \/ Mutating(w, 0, 1)
            \/ Exit(w) \/ EvalStart(w) \/ (wk[w].pc = "eval" /\ \E o \in Outs(w) : EvalEnd(w, o)))

Perms == Permutations(1..W)

\* ---- what the limits promise (uniform settings)
Started == Cardinality({t \in DOMAIN trials : runs[t] > 0})
Done == Cardinality({t \in DOMAIN trials : Finished(trials[t])})
Claimed == Cardinality({t \in DOMAIN trials : trials[t].st # "p"})
Left == \A w \in 1..W : wk[w].pc \in Ended
TotalBound == (MaxTotal # None /\ InProg) => Claimed <= MaxTotal + W - 1
TotalBoundC == (MaxTotal # None /\ ~InProg) => Done <= MaxTotal + W - 1
OneWorkerExact == (W = 1 /\ MaxTotal # None) => Claimed <= MaxTotal
\* a run that ends without errors or crashes has completed the budget
TotalReached == (MaxTotal # None /\ Left /\ NoCrash /\ MaxW = None /\ MaxCost = None
                  /\ OnErr \in {"ignore"}) => Done >= MaxTotal
PerWorker == \A w \in 1..W : MaxW # None => wk[w].nev <= MaxW
CostStop == MaxCost # None => CostSum <= MaxCost + W - 1   \* cost 1 each
NoErrGoesOn == (OnErr = "raise_any" /\ crashes = 0) =>
   \A w \in 1..W : wk[w].err => wk[w].pc \in {"report","account","check","raising","raised"}
\* a rejected claim is only ever caused by another worker (or a crash), so nobody gives up
NoGiveUp == (crashes = 0 /\ OnErr = "ignore") => \A w \in 1..W : wk[w].pc # "raised"
Terminates == <>(\A w \in 1..W : wk[w].pc \in Ended)
=============================================================================
