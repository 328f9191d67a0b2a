--------------------------- MODULE TraceProtocol ---------------------------
(***************************************************************************)
(* Judges recorded executions of the real code: each one must be a         *)
(* behaviour of Protocol.  A trace is a sequence of records; record i was  *)
(* taken when worker a had run by itself since record i-1, so exactly the  *)
(* actions of a may explain the difference.  Every record carries what the *)
(* run directory looked like (o, an index into the table of observations)  *)
(* and which parts of it (fx) were being rewritten by a worker that was    *)
(* stopped inside its critical section; those parts are not compared.      *)
(* Kinds of records:                                                       *)
(*   obs     nothing but the observation                                   *)
(*   launch  the worker was started      exit  it returned or raised       *)
(*   start   it entered the user's evaluation function for trial t         *)
(*   end     the function is about to return or raise                      *)
(*   intr    the function is left by Ctrl-C                                *)
(*   ask     the searcher was asked, and shown `view`                      *)
(*   crash   the worker was killed                                         *)
(***************************************************************************)
EXTENDS Protocol, Json, IOUtils, TLC, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>

T == Traces[tid].ev
R == T[l + 1]
O == Traces[tid].obs[R.o]

TrialObs(x) == [st |-> x.st, by |-> x.by, smp |-> x.smp, cfg |-> x.cfg,
                loss |-> x.res.loss, cost |-> x.res.cost, dur |-> x.res.dur, rep |-> x.res.rep]
\* fx.t: trials in flux, fx.n: a trial may be coming into existence, fx.e / fx.u: error log / ledger
MatchesOf(ts, es, u) ==
  LET o == O IN
  /\ \/ Len(ts) = Len(o.t)
     \/ R.fx.n /\ Len(ts) = Len(o.t) + 1
  /\ \A i \in DOMAIN o.t : i \in ToSet(R.fx.t) \/ TrialObs(ts[i]) = o.t[i]
  /\ R.fx.e \/ es = o.e
  /\ R.fx.u \/ u = o.u
Matches  == MatchesOf(trials, errs, used)
MatchesN == MatchesOf(trials', errs', used')

TraceInit ==
  /\ tid \in DOMAIN Traces
  /\ l = 0
  /\ trials = Traces[tid].init.trials /\ errs = Traces[tid].init.errs /\ used = Traces[tid].init.used
  /\ lock = 0 /\ runs = [t \in DOMAIN Traces[tid].init.trials |-> 0] /\ crashes = 0
  /\ wk = [w \in DOMAIN Traces[tid].set |-> Fresh]
  /\ set = Traces[tid].set

Advance == l' = l + 1 /\ UNCHANGED tid
Stay == UNCHANGED <<l, tid>>

\* what the trace knows about a trial that is about to be created / reported
\* (the last observation of the trace, as long as the run is not deleted)
Final == Traces[tid].obs[T[Len(T)].o]
CfgOf(t) == IF t \in DOMAIN Final.t THEN Final.t[t].cfg ELSE 0
RepOf(t) == IF t \in DOMAIN Final.t THEN Final.t[t].rep ELSE 0
Mut(w) == Mutating(w, CfgOf(Len(trials) + 1), IF wk[w].t = 0 THEN 0 ELSE RepOf(wk[w].t))

\* steps of the actor that nobody else can see
Silent ==
  \/ Internal(R.a)
  \/ ~Traces[tid].asks /\ Ask(R.a)
  \* the actor was stopped inside a critical section
  \/ (R.fx.n \/ R.fx.e \/ R.fx.u \/ R.fx.t # <<>>) /\ Mut(R.a) /\ MatchesN

View(o) == [i \in DOMAIN o |-> [st |-> o[i].st, by |-> o[i].by,
             res |-> [loss |-> o[i].loss, cost |-> o[i].cost, dur |-> o[i].dur, rep |-> o[i].rep]]]

Explain ==
  CASE R.k = "obs" ->
         \/ Matches /\ UNCHANGED vars /\ Advance
         \/ Mut(R.a) /\ MatchesN /\ Advance
    [] R.k = "launch" -> Launch(R.a) /\ MatchesN /\ Advance
    [] R.k = "start" -> EvalStart(R.a) /\ wk[R.a].t = R.t /\ MatchesN /\ Advance
    [] R.k = "end" -> EvalEnd(R.a, R.out) /\ MatchesN /\ Advance
    [] R.k = "intr" -> Interrupt(R.a) /\ MatchesN /\ Advance
    [] R.k = "ask" -> Ask(R.a) /\ GoodView(R.a, View(R.view)) /\ (R.u = used) /\ MatchesN /\ Advance
    [] R.k = "exit" -> Exit(R.a) /\ MatchesN /\ Advance /\ wk'[R.a].pc = R.how
    [] R.k = "raised" -> wk[R.a].pc = "raised" /\ Matches /\ UNCHANGED vars /\ Advance
    [] R.k = "crash" ->
         \/ Crash(R.a) /\ MatchesN /\ Advance
         \* killed inside a critical section whose effect is already visible
         \/ Mut(R.a) /\ MatchesN /\ Stay

TraceNext ==
  /\ l < Len(T)
  /\ \/ Silent /\ Stay
     \/ Explain

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* the guarantees, evaluated on every state of the recorded execution
Good == AtMostOnce /\ Owned /\ OneOwner /\ SerialSampling /\ Reported /\ LedgerBound /\ ErrLogSound
\* Remember how far each trace could be explained.  The search is depth first; a trace
\* that was explained need not be explained in other ways, and the search for an
\* explanation is given up (and reported as such) after Cap states.
N == Len(Traces)
Cap == atoi(IOEnv.CAP)
Track == /\ IF Good THEN TRUE ELSE TLCSet(N + tid, 1)
         /\ TLCGet(tid) < Len(T)
         /\ TLCGet(2 * N + tid) < Cap
         /\ TLCSet(2 * N + tid, TLCGet(2 * N + tid) + 1)
         /\ IF TLCGet(tid) >= l THEN TRUE ELSE TLCSet(tid, l)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0) /\ TLCSet(N + i, 0) /\ TLCSet(2 * N + i, 0)
Post == JsonSerialize(IOEnv.VERDICTS, [i \in DOMAIN Traces |->
           [i |-> i, reached |-> TLCGet(i), len |-> Len(Traces[i].ev), bad |-> TLCGet(N + i),
            capped |-> TLCGet(2 * N + i) >= Cap]])
=============================================================================
