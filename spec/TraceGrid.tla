------------------------------ MODULE TraceGrid ------------------------------
EXTENDS Grid, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
R == T[l + 1]
Axes == Traces[tid].axes
TraceInit == tid \in DOMAIN Traces /\ l = 0 /\ handed = <<>>
Act == CASE R.k = "axes" -> (\A i \in DOMAIN Axes : AxisOK(Axes[i])) /\ UNCHANGED handed
         [] R.k = "ask" -> Ask(Axes, R.p)
         [] R.k = "refuse" -> Refuse(Axes)
         [] OTHER -> FALSE
TraceNext == l < Len(T) /\ Act /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<handed, tid, l>>
Track == IF TLCGet(tid) >= l THEN TRUE ELSE TLCSet(tid, l)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0)
Post == JsonSerialize(IOEnv.VERDICTS, [i \in DOMAIN Traces |->
           [i |-> i, reached |-> TLCGet(i), len |-> Len(Traces[i].ev), bad |-> 0]])
=============================================================================
