---------------------------- MODULE TraceConfigs ----------------------------
(* Judges what the real objects look like after every operation.            *)
EXTENDS Configs, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
R == T[l + 1]
O == R.heap
K == Len(heap)
\* what the real code says besides: the numbers for the optimisers agree with the values, the definition is the same
Sound == /\ R.sound
         /\ \A i \in DOMAIN R.prior : R.prior[i] = HasPrior(O[K + i])
D == {<<R.dict[i].p, R.dict[i].v>> : i \in DOMAIN R.dict}
Ok == R.res = "ok"
TraceInit == tid \in DOMAIN Traces /\ l = 0 /\ sp = Traces[tid].sp /\ heap = <<Traces[tid].first>> /\ AllFit
Step ==
  CASE R.op = "copy" -> Ok /\ Copy(R.a)
    [] R.op = "sample" -> Ok /\ Len(O) = K + 1 /\ Sample(R.a, R.ign, O[K + 1])
    [] R.op = "default" -> IF CanDefault(R.a, R.ign, R.miss) THEN Ok /\ Len(O) = K + 1 /\ Default(R.a, R.ign, R.miss, O[K + 1]) ELSE ~Ok /\ Refused
    [] R.op = "load" -> IF CanLoad(R.a, D) THEN Ok /\ Len(O) = K + 1 /\ Load(R.a, D, O[K + 1]) ELSE ~Ok /\ Refused
    [] R.op = "mutate" -> IF CanMutate(R.b) THEN Ok /\ Len(O) = K + 1 /\ Mutate(R.b, O[K + 1]) ELSE ~Ok /\ Refused
    [] R.op = "cross" -> IF Ok THEN Len(O) = K + 2 /\ Cross(R.a, R.b, R.how, O[K + 1], O[K + 2])
                         ELSE R.how # "none" /\ ~CanCross(R.a, R.b) /\ Refused
    [] R.op = "value" -> IF ENABLED SetValue(R.a, R.p, R.v) THEN Ok /\ SetValue(R.a, R.p, R.v) ELSE ~Ok /\ Refused
    [] R.op = "setdef" -> IF ENABLED SetDefault(R.a, R.p, R.v) THEN Ok /\ SetDefault(R.a, R.p, R.v) ELSE ~Ok /\ Refused
    [] R.op = "conf" -> IF R.c \in Confs THEN Ok /\ SetConfidence(R.a, R.p, R.c) ELSE ~Ok /\ Refused
    [] R.op = "top" -> IF Fidelity # {} THEN Ok /\ ToTop(R.a) ELSE ~Ok /\ Refused
    [] R.op = "defaults" -> Ok /\ ToDefaults(R.a)
    [] R.op = "setall" -> IF CanSetAll(D, R.A) THEN Ok /\ SetAll(R.a, D, R.A) ELSE ~Ok /\ SetAllRefused(R.a, D, R.A, O[R.a])
    [] R.op = "equal" -> Ok /\ R.ret = SameValues(R.a, R.b, R.fid) /\ Refused
    [] R.op = "equals" -> Ok /\ R.ret = SameParameters(R.a, R.b) /\ Refused
    [] R.op = "other" -> IF Ok THEN R.p \in Mutable /\ IsOtherOne(R.one, R.b, R.p) /\ Refused ELSE MayFailOnce(R.b, R.p, R.how) /\ Refused
    [] R.op = "write" -> IF Complete(R.a) THEN Ok /\ R.vals = [p \in P |-> heap[R.a][p].v] /\ Refused ELSE ~Ok /\ Refused
    [] R.op = "values" -> Ok /\ R.vals = [p \in P |-> heap[R.a][p].v] /\ Refused
    [] OTHER -> FALSE
TraceNext == l < Len(T) /\ Sound /\ Step /\ heap' = O /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
N == Len(Traces)
Track == IF TLCGet(tid) >= l THEN TRUE ELSE TLCSet(tid, l)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0)
Post == JsonSerialize(IOEnv.VERDICTS, [i \in DOMAIN Traces |->
           [i |-> i, reached |-> TLCGet(i), len |-> Len(Traces[i].ev), bad |-> 0, capped |-> FALSE]])
=============================================================================
