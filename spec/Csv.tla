-------------------------------- MODULE Csv --------------------------------
(***************************************************************************)
(* The summary csv of a run.  Every worker that ends collects the state of *)
(* the run and writes it, in a critical section of its own (the csv lock), *)
(* while others still change the run or want to write their summary too.   *)
(* A worker may be killed at any moment.                                   *)
(*                                                                         *)
(* Codes of a configuration: 0 waiting, 1 being evaluated, 2 failed,       *)
(* 10 + loss succeeded.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT InLock    \* TRUE: the data are collected while the lock is held
VARIABLES trials,  \* codes, in the order of creation
          csv,     \* what the csv files say
          wk,      \* wk[w]: [pc, base, mine]
          lock     \* who holds the csv lock, 0 if nobody
vars == <<trials, csv, wk, lock>>

Stage(c) == IF c >= 2 THEN 2 ELSE c
Before(a, b) == /\ Len(a) <= Len(b)
                /\ \A i \in DOMAIN a : a[i] = b[i] \/ Stage(a[i]) < Stage(b[i])
NCodes(ts, S) == Cardinality({i \in DOMAIN ts : ts[i] \in S})
Evaluated(ts) == Cardinality({i \in DOMAIN ts : ts[i] >= 2})
Best(ts) == LET L == {ts[i] : i \in {j \in DOMAIN ts : ts[j] >= 10}}
            IN  IF L = {} THEN 0 ELSE CHOOSE x \in L : \A y \in L : x <= y
\* what the two files say about a state of the run
Describe(ts) == [rows |-> [i \in DOMAIN ts |-> IF ts[i] >= 2 THEN ts[i] ELSE 0],
                 run |-> [ev |-> Evaluated(ts), pend |-> NCodes(ts, {0, 1}), prog |-> NCodes(ts, {1}),
                          err |-> NCodes(ts, {2}), best |-> Best(ts)]]
Nothing == [rows |-> <<>>, run |-> [ev |-> -1, pend |-> -1, prog |-> -1, err |-> -1, best |-> -1]]

Off == [pc |-> "off", base |-> <<>>, mine |-> <<>>]
Launch(w) == wk[w].pc = "off" /\ wk' = [wk EXCEPT ![w].pc = "work", ![w].mine = trials] /\ UNCHANGED <<trials, csv, lock>>
\* any progress of the run
Change(w, ts) ==
  /\ wk[w].pc = "work" /\ Before(trials, ts) /\ ts # trials
  /\ trials' = ts /\ wk' = [wk EXCEPT ![w].mine = ts] /\ UNCHANGED <<csv, lock>>
\* the worker comes to its end; whether the data are collected before or after the lock is the question
Collect(w) ==
  /\ ~InLock /\ wk[w].pc = "work"
  /\ wk' = [wk EXCEPT ![w].pc = "collected", ![w].base = trials] /\ UNCHANGED <<trials, csv, lock>>
Begin(w) ==
  /\ lock = 0 /\ lock' = w
  /\ IF InLock THEN wk[w].pc = "work" /\ wk' = [wk EXCEPT ![w].pc = "summing", ![w].base = trials]
     ELSE wk[w].pc = "collected" /\ wk' = [wk EXCEPT ![w].pc = "summing"]
  /\ UNCHANGED <<trials, csv>>
Seen(w, v) == IF InLock THEN Before(wk[w].base, v) /\ Before(v, trials) ELSE v = wk[w].base
\* the files say what the run looked like, configuration by configuration, since the worker began
Write(w, v) ==
  /\ wk[w].pc = "summing" /\ lock = w /\ Seen(w, v)
  /\ csv' = Describe(v)
  /\ wk' = [wk EXCEPT ![w].pc = "summed"] /\ lock' = 0 /\ UNCHANGED trials
Exit(w) == wk[w].pc = "summed" /\ wk' = [wk EXCEPT ![w].pc = "done"] /\ UNCHANGED <<trials, csv, lock>>
\* killed; if it was writing, the files may contain anything
Crash(w, c) ==
  /\ wk[w].pc \notin {"off", "done", "dead"}
  /\ wk' = [wk EXCEPT ![w].pc = "dead"]
  /\ lock' = IF lock = w THEN 0 ELSE lock
  /\ IF lock = w THEN csv' = c ELSE UNCHANGED csv
  /\ UNCHANGED trials
-----------------------------------------------------------------------------
\* when every worker has returned, the files describe the run as it is
Final == (\A w \in DOMAIN wk : wk[w].pc \in {"off", "done"}) /\ (\E w \in DOMAIN wk : wk[w].pc = "done") => csv = Describe(trials)
\* whatever happened to others, what a worker did that has returned is in the files, unless a worker was killed while writing
Own == (lock = 0 /\ \A w \in DOMAIN wk : wk[w].pc # "dead") =>
         \A w \in DOMAIN wk : wk[w].pc \in {"summed", "done"} => csv.run.ev >= Evaluated(wk[w].mine)
\* the files never go back to an older state of the run, except when a worker is killed
Forward == [][(csv' # csv /\ csv # Nothing /\ \A w \in DOMAIN wk : wk'[w].pc # "dead") =>
                 csv'.run.ev >= csv.run.ev /\ Len(csv'.rows) >= Len(csv.rows)]_vars
=============================================================================
