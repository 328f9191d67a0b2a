---------------------------- MODULE TraceStartup ----------------------------
(* Judges recorded start-ups of real workers against Startup. Records are as *)
(* in TraceProtocol; o is the observation [i, p], fx the set of parts that a *)
(* worker was rewriting while it was stopped.                                *)
EXTENDS Startup, Json, IOUtils, TLC, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
R == T[l + 1]
O == Traces[tid].obs[R.o]
Fx == ToSet(R.fx)
MatchesOf(i, p) == /\ "info" \in Fx \/ i = O.i
                   /\ \A x \in Parts : x \in Fx \/ p[x] = O.p[x]
Matches == MatchesOf(info, part)
MatchesN == MatchesOf(info', part')
TraceInit == /\ tid \in DOMAIN Traces /\ l = 0
             /\ info = Traces[tid].init.i /\ part = Traces[tid].init.p /\ creator = 0
             /\ wk = [w \in DOMAIN Traces[tid].ids |-> [pc |-> "off", id |-> Traces[tid].ids[w]]]
Final == Traces[tid].obs[T[Len(T)].o]
Mut(w) == CreateInfo(w) \/ \E p \in Parts : CreatePart(w, p, Final.p[p])
Silent == LoadInfo(R.a) \/ Ready(R.a) \/ (Fx # {} /\ Mut(R.a) /\ MatchesN)
Advance == l' = l + 1 /\ UNCHANGED tid
Explain ==
  CASE R.k = "obs" -> \/ Matches /\ UNCHANGED vars /\ Advance
                      \/ Mut(R.a) /\ MatchesN /\ Advance
    [] R.k = "launch" -> Launch(R.a) /\ MatchesN /\ Advance
    [] R.k = "exit" -> Exit(R.a) /\ MatchesN /\ wk'[R.a].pc = R.how /\ Advance
    [] R.k = "crash" -> \/ Crash(R.a) /\ MatchesN /\ Advance
                        \/ Mut(R.a) /\ MatchesN /\ UNCHANGED <<tid, l>>
TraceNext == l < Len(T) /\ ((Silent /\ UNCHANGED <<tid, l>>) \/ Explain)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Good == Agree /\ Justified /\ Complete
N == Len(Traces)
Cap == atoi(IOEnv.CAP)
Track == /\ IF Good THEN TRUE ELSE TLCSet(N + tid, 1)
         /\ TLCGet(tid) < Len(T)
         /\ TLCGet(2 * N + tid) < Cap
         /\ TLCSet(2 * N + tid, TLCGet(2 * N + tid) + 1)
         /\ IF TLCGet(tid) >= l THEN TRUE ELSE TLCSet(tid, l)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0) /\ TLCSet(N + i, 0) /\ TLCSet(2 * N + i, 0)
Post == JsonSerialize(IOEnv.VERDICTS, [i \in DOMAIN Traces |->
           [i |-> i, reached |-> TLCGet(i), len |-> Len(Traces[i].ev), bad |-> TLCGet(N + i),
            capped |-> TLCGet(2 * N + i) >= Cap]])
=============================================================================
