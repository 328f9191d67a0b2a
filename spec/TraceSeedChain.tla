--------------------------- MODULE TraceSeedChain ---------------------------
(* Judges recorded runs against SeedChain.  o is the observation [c, p]: the *)
(* draws of the configurations so far and the stored position; fx = {"seed"} *)
(* while a worker that was stopped is storing it.                            *)
EXTENDS SeedChain, Json, IOUtils, TLC, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
R == T[l + 1]
O == Traces[tid].obs[R.o]
Fx == ToSet(R.fx)
Same(c, p) == /\ c = O.c \/ ("cfg" \in Fx /\ (c = O.c \/ IsPrefix(c, O.c) \/ IsPrefix(O.c, c)))
              /\ "seed" \in Fx \/ p = O.p
Matches == Same(draws, pos)
MatchesN == Same(draws', pos')
TraceInit == /\ tid \in DOMAIN Traces /\ l = 0
             /\ pos = Traces[tid].init.p /\ draws = Traces[tid].init.c
             /\ busy = 0 /\ half = "none" /\ killed = 0
Seen == {Traces[tid].obs[i].p : i \in DOMAIN Traces[tid].obs}
Inner(w) == \/ Len(O.c) > Len(draws) /\ Publish(w, O.c[Len(draws) + 1])
            \/ \E p \in Seen : Store(w, p)
Advance == l' = l + 1 /\ UNCHANGED tid
Stay == UNCHANGED <<tid, l>>
Explain ==
  CASE R.k = "crash" -> \/ busy # R.a /\ Matches /\ UNCHANGED vars /\ Advance
                        \/ busy = R.a /\ (\E p \in {pos, TORN} : Die(R.a, p) /\ (MatchesN \/ pos' = TORN)) /\ Advance
    [] R.k = "exit" -> R.how = "done" /\ busy # R.a /\ Matches /\ UNCHANGED vars /\ Advance
    [] OTHER -> Matches /\ UNCHANGED vars /\ Advance
TraceNext == /\ l < Len(T)
             /\ \/ Explain
                \/ ~Matches /\ (Enter(R.a) \/ Inner(R.a)) /\ Stay
                \/ R.k # "exit" /\ Fx # {} /\ (Enter(R.a) \/ Inner(R.a)) /\ Stay
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Good == Undisturbed /\ Bounded
N == Len(Traces)
Cap == atoi(IOEnv.CAP)
Track == /\ IF Good THEN TRUE ELSE TLCSet(N + tid, 1)
         /\ TLCGet(tid) < Len(T)
         /\ TLCGet(2 * N + tid) < Cap
         /\ TLCSet(2 * N + tid, TLCGet(2 * N + tid) + 1)
         /\ IF TLCGet(tid) >= l THEN TRUE ELSE TLCSet(tid, l)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0) /\ TLCSet(N + i, 0) /\ TLCSet(2 * N + i, 0)
Post == JsonSerialize(IOEnv.VERDICTS, [i \in DOMAIN Traces |->
           [i |-> i, reached |-> TLCGet(i), len |-> Len(Traces[i].ev), bad |-> TLCGet(N + i),
            capped |-> TLCGet(2 * N + i) >= Cap]])
=============================================================================
