----------------------------- MODULE TraceRungs -----------------------------
(* Judges the answers of the real searchers: every one has to be an answer   *)
(* that Rungs allows in the state reached, at that rung's fidelity and for   *)
(* an otherwise unchanged configuration.                                     *)
EXTENDS Rungs, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
R == T[l + 1]
TraceInit == tid \in DOMAIN Traces /\ l = 0 /\ Init(Traces[tid].par)
Step ==
  IF R.k = "ask"
  THEN /\ \E a \in Answers : a.c = R.c /\ a.r = R.r /\ a.prev = R.prev /\ Ask(a)
       /\ R.fid = Fid(R.r) /\ R.same /\ (R.prev = -1 \/ R.pc = R.c)
  ELSE R.k = "done" /\ Done(R.c, R.loss)
TraceNext == l < Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
N == Len(Traces)
Track == IF TLCGet(tid) >= l THEN TRUE ELSE TLCSet(tid, l)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0)
Post == JsonSerialize(IOEnv.VERDICTS, [i \in DOMAIN Traces |->
           [i |-> i, reached |-> TLCGet(i), len |-> Len(Traces[i].ev), bad |-> 0, capped |-> FALSE]])
=============================================================================
