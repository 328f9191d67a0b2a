----------------------------- MODULE TraceStore -----------------------------
(* Judges recorded operations on real resources: [op, h, d, r, o].            *)
EXTENDS Store, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
R == T[l + 1]
TraceInit == /\ tid \in DOMAIN Traces /\ l = 0
             /\ ver = 0 /\ val = None /\ clock = 0 /\ lock = 0 /\ out = [r |-> "ok", d |-> None]
             /\ hnd = [h \in 1..Traces[tid].handles |-> [v |-> 0, d |-> None]]
Do == CASE R.op = "new" -> New(R.h, R.d)
        [] R.op = "load" -> Load(R.h)
        [] R.op = "new_or_load" -> NewOrLoad(R.h, R.d)
        [] R.op = "get" -> Get(R.h)
        [] R.op = "peek" -> Peek(R.h)
        [] R.op = "stale" -> Stale(R.h)
        [] R.op = "is_locked" -> IsLocked(R.h)
        [] R.op = "put" -> Put(R.h, R.d)
        [] R.op = "acquire" -> Acquire(R.h)
        [] R.op = "put_held" -> PutHeld(R.h, R.d)
        [] R.op = "release" -> Release(R.h)
        [] R.op = "remove" -> Remove
TraceNext == /\ l < Len(T) /\ Do /\ out' = [r |-> R.r, d |-> R.o]
             /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
N == Len(Traces)
Track == /\ IF Coherent THEN TRUE ELSE TLCSet(N + tid, 1)
         /\ IF TLCGet(tid) >= l THEN TRUE ELSE TLCSet(tid, l)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0) /\ TLCSet(N + i, 0)
Post == JsonSerialize(IOEnv.VERDICTS, [i \in DOMAIN Traces |->
           [i |-> i, reached |-> TLCGet(i), len |-> Len(Traces[i].ev), bad |-> TLCGet(N + i), capped |-> FALSE]])
=============================================================================
