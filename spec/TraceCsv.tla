------------------------------ MODULE TraceCsv ------------------------------
(* Judges recorded executions against Csv.  o is the observation [t, c]: the *)
(* codes of the configurations and what the csv files say; fx has "csv"      *)
(* while a worker that was stopped holds the csv lock, and the numbers of    *)
(* configurations that are being rewritten.                                  *)
EXTENDS Csv, Json, IOUtils, TLC, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
R == T[l + 1]
O == Traces[tid].obs[R.o]
Sure == ~R.fx.c
Same(ts, c) == ts = O.t /\ (R.fx.c \/ c = O.c)
Matches == Same(trials, csv)
MatchesN == Same(trials', csv')
TraceInit == /\ tid \in DOMAIN Traces /\ l = 0
             /\ trials = Traces[tid].init.t /\ csv = Traces[tid].init.c
             /\ wk = [w \in 1..Traces[tid].n |-> Off] /\ lock = 0
\* all states between two states of the run
RECURSIVE Between(_, _)
Options(i, a) == IF i \in DOMAIN a THEN {a[i], trials[i]} \cup (IF a[i] = 0 /\ trials[i] >= 1 THEN {1} ELSE {})
                 ELSE {0, trials[i]} \cup (IF trials[i] >= 1 THEN {1} ELSE {})
Between(a, n) == IF n = 0 THEN {<<>>} ELSE {Append(p, c) : p \in Between(a, n - 1), c \in Options(n, a)}
Views(w) == UNION {Between(wk[w].base, n) : n \in Len(wk[w].base)..Len(trials)}
Advance == l' = l + 1 /\ UNCHANGED tid
Stay == UNCHANGED <<tid, l>>
Inner(w) == \/ O.t # trials /\ Change(w, O.t)
            \/ Begin(w)
            \/ /\ wk[w].pc = "summing"
               /\ \E v \in Views(w) : (R.fx.c \/ Describe(v) = O.c) /\ Write(w, v)
Explain ==
  CASE R.k = "launch" -> Launch(R.a) /\ MatchesN /\ Advance
    [] R.k = "crash" -> (\E c \in {csv, O.c} : Crash(R.a, c) /\ MatchesN) /\ Advance
    [] R.k = "exit" -> R.how = "done" /\ Exit(R.a) /\ MatchesN /\ Advance
    [] OTHER -> Matches /\ UNCHANGED vars /\ Advance
TraceNext == l < Len(T) /\ (Explain \/ (R.k # "launch" /\ Inner(R.a) /\ Stay))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Good == Final /\ Own
N == Len(Traces)
Cap == atoi(IOEnv.CAP)
Track == /\ IF Good THEN TRUE ELSE TLCSet(N + tid, 1)
         /\ TLCGet(tid) < Len(T)
         /\ TLCGet(2 * N + tid) < Cap
         /\ TLCSet(2 * N + tid, TLCGet(2 * N + tid) + 1)
         /\ IF TLCGet(tid) >= l THEN TRUE ELSE TLCSet(tid, l)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0) /\ TLCSet(N + i, 0) /\ TLCSet(2 * N + i, 0)
Post == JsonSerialize(IOEnv.VERDICTS, [i \in DOMAIN Traces |->
           [i |-> i, reached |-> TLCGet(i), len |-> Len(Traces[i].ev), bad |-> TLCGet(N + i),
            capped |-> TLCGet(2 * N + i) >= Cap]])
=============================================================================
