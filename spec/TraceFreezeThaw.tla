-------------------------- MODULE TraceFreezeThaw --------------------------
(* Judges the answers of the real ifBO, whose model is one with known       *)
(* preferences.                                                             *)
EXTENDS FreezeThaw, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
R == T[l + 1]
TraceInit == tid \in DOMAIN Traces /\ l = 0 /\ Init(Traces[tid].par)
\* an answer: config c, step s, continuing step prev of pc, at fidelity fid; same: as config c otherwise (as the default, if it has to be);
\* inside: the values are legal; told: what the model was told, if it was asked; legal: all the numbers it was given are between 0 and 1
Step ==
  CASE R.k = "ask" ->
        /\ \E a \in Best(R.pref, R.pnew) : a.c = R.c /\ a.s = R.s /\ a.prev = R.prev /\ Ask(a)
        /\ R.fid = Fid(par, R.s) /\ R.same /\ R.inside /\ (R.prev = -1 \/ R.pc = R.c)
        /\ R.asked => /\ Count >= par.init /\ R.legal /\ Told(R.told)
        /\ Count >= par.init /\ Thawable # {} /\ ~par.silent => R.asked
    [] R.k = "done" -> Done(R.c, R.loss)
    \* ifBO refuses losses outside of 0..1
    [] R.k = "refused" -> R.out /\ UNCHANGED vars
TraceNext == l < Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
N == Len(Traces)
Track == IF TLCGet(tid) >= l THEN TRUE ELSE TLCSet(tid, l)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0)
Post == JsonSerialize(IOEnv.VERDICTS, [i \in DOMAIN Traces |->
           [i |-> i, reached |-> TLCGet(i), len |-> Len(Traces[i].ev), bad |-> 0, capped |-> FALSE]])
=============================================================================
