------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* The shared-run protocol of NePS: any number of workers (processes) that *)
(* share a run directory, each looping                                     *)
(*     check limits -> take the oldest pending trial, or sample one ->     *)
(*     claim it -> evaluate it -> report it -> account for it              *)
(* and that may be killed at any moment.  The state is what is visible in  *)
(* the run directory (trials, error log, cost ledger) plus what each       *)
(* worker remembers.  One action is one critical section of the            *)
(* implementation, or one atomic point inside a sequence of them.          *)
(*                                                                         *)
(* The same actions are used to model check the guarantees (MC_*.cfg) and  *)
(* to judge executions of the real code (TraceProtocol.tla).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Recheck,      \* TRUE: a listed pending trial is re-checked when it is picked
  SerialSample  \* TRUE: sampling is serialised by the optimizer lock

VARIABLES
  trials,  \* sequence, in creation order, of
           \* [st, by, smp, cfg, ver, res]: st is "p"ending, "e"valuating, "s"uccess, "c"rashed,
           \* cfg stands for the configuration and the facts fixed when it was sampled
  errs,    \* sequence of <<trial, worker>>: the shared error log
  used,    \* the shared cost ledger
  wk,      \* wk[w]: what worker w remembers (pc etc.)
  lock,    \* the worker that is sampling, 0 if none
  runs,    \* runs[t]: how often the evaluation of trial t was entered (history)
  crashes, \* number of workers killed so far (history)
  set      \* set[w]: settings of worker w (constant during a behaviour)

vars == <<trials, errs, used, wk, lock, runs, crashes, set>>
store == <<trials, errs, used>>

NoRes == [loss |-> -1, cost |-> -1, dur |-> -1, rep |-> 0]
None  == -1     \* an absent limit / cost / loss

Workers == DOMAIN wk

NoTotals == [n |-> 0, c |-> 0, d |-> 0, e |-> FALSE]
Fresh == [pc |-> "off", t |-> 0, v |-> 0, lb |-> 0, lo |-> NoTotals,
          nev |-> 0, cst |-> 0, tim |-> 0, err |-> FALSE, nfail |-> 0,
          out |-> [ok |-> TRUE, loss |-> 0, cost |-> -1, dur |-> 0], base |-> <<>>, sf |-> 0,
          todo |-> {}]

Finished(tr) == tr.st \in {"s", "c"}
Stage(st) == CASE st = "p" -> 0 [] st = "e" -> 1 [] OTHER -> 2
Pending == {t \in DOMAIN trials : trials[t].st = "p"}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE Sum(_, _)
Sum(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + Sum(f, n - 1)

Count(inProg) == Cardinality({t \in DOMAIN trials : Finished(trials[t]) \/ (inProg /\ trials[t].st = "e")})
CostSum == LET c(t) == IF Finished(trials[t]) /\ trials[t].res.cost >= 0 THEN trials[t].res.cost ELSE 0
           IN  Sum(c, Len(trials))
DurSum  == LET d(t) == IF Finished(trials[t]) /\ trials[t].res.dur >= 0 THEN trials[t].res.dur ELSE 0
           IN  Sum(d, Len(trials))
Totals(w) == [n |-> Count(set[w].inProg), c |-> CostSum, d |-> DurSum, e |-> errs # <<>>]

\* what is remembered for one step only is forgotten afterwards (fewer states)
Goto(w, p) == wk' = [wk EXCEPT ![w].pc = p, ![w].lo = NoTotals, ![w].lb = 0, ![w].sf = 0]

-----------------------------------------------------------------------------
Launch(w) ==
  /\ wk[w].pc = "off"
  /\ Goto(w, "check")
  /\ UNCHANGED <<store, lock, runs, crashes, set>>

\* Limits that concern only this worker: own error, evaluations, cost, time.
Reached(x, limit) == limit # None /\ x >= limit
OwnLimit(w) == \/ Reached(wk[w].nev, set[w].maxW)
               \/ Reached(wk[w].cst, set[w].maxCostW)
               \/ Reached(wk[w].tim, set[w].maxWall)
               \/ Reached(wk[w].tim, set[w].maxTimW)
OwnVerdict(w) ==
  IF wk[w].err /\ set[w].onErr \in {"raise_worker", "raise_any"} THEN "raising"
  ELSE IF wk[w].err /\ set[w].onErr \in {"stop_worker", "stop_any"} THEN "stopping"
  ELSE IF OwnLimit(w) THEN "stopping" ELSE "checking"

CheckBegin(w) ==
  /\ wk[w].pc = "check"
  /\ wk' = [wk EXCEPT ![w].pc = OwnVerdict(w), ![w].lo = Totals(w), ![w].t = 0, ![w].v = 0]
  /\ UNCHANGED <<store, lock, runs, crashes, set>>

\* Limits that concern the whole run.  The worker reads the error log and then one
\* trial after the other, so the totals it sees lie between those at the beginning
\* and those at the end of the sweep (they never decrease).
AnyPolicy(w) == set[w].onErr \in {"raise_any", "stop_any"}
MayStop(w, hi) == \/ Reached(hi.n, set[w].maxTotal)
                  \/ Reached(hi.c, set[w].maxCost)
                  \/ Reached(hi.d, set[w].maxTim)
MayGo(w, lo) == /\ ~Reached(lo.n, set[w].maxTotal)
                /\ ~Reached(lo.c, set[w].maxCost)
                /\ ~Reached(lo.d, set[w].maxTim)
CheckEnd(w) ==
  /\ wk[w].pc = "checking"
  /\ LET hi == Totals(w)
         lo == wk[w].lo
     IN  \/ AnyPolicy(w) /\ hi.e /\ Goto(w, IF set[w].onErr = "raise_any" THEN "raising" ELSE "stopping")
         \/ (~AnyPolicy(w) \/ ~lo.e) /\ MayStop(w, hi) /\ Goto(w, "stopping")
         \/ (~AnyPolicy(w) \/ ~lo.e) /\ MayGo(w, lo) /\ Goto(w, "look")
  /\ UNCHANGED <<store, lock, runs, crashes, set>>

\* Listing the trials of the run.
LookBegin(w) ==
  /\ wk[w].pc = "look"
  /\ wk' = [wk EXCEPT ![w].pc = "looking", ![w].lb = Len(trials),
                      ![w].sf = IF Recheck \/ Pending = {} THEN 0 ELSE MinOf(Pending)]
  /\ UNCHANGED <<store, lock, runs, crashes, set>>

\* The oldest pending trial is picked.  A trial never becomes pending again, so "every
\* older one was seen not to be pending" means that it is the oldest one at this point.
Pick(w, t) ==
  wk' = [wk EXCEPT ![w].pc = "claim", ![w].t = t, ![w].v = trials[t].ver, ![w].lb = 0, ![w].sf = 0]
Fetch(w) ==
  /\ wk[w].pc = "looking"
  /\ IF Recheck
     THEN /\ Pending # {}
          /\ MinOf(Pending) <= wk[w].lb
          /\ Pick(w, MinOf(Pending))
     ELSE wk[w].sf # 0 /\ Pick(w, wk[w].sf)
  /\ UNCHANGED <<store, lock, runs, crashes, set>>

\* None of the listed trials is pending any more.
NothingPending(w) ==
  /\ wk[w].pc = "looking"
  /\ IF Recheck THEN \A t \in Pending : t > wk[w].lb ELSE wk[w].sf = 0
  /\ Goto(w, "want")
  /\ UNCHANGED <<store, lock, runs, crashes, set>>

SampleBegin(w) ==
  /\ wk[w].pc = "want"
  /\ SerialSample => lock = 0
  /\ lock' = w
  /\ wk' = [wk EXCEPT ![w].pc = "asking", ![w].base = trials]
  /\ UNCHANGED <<store, runs, crashes, set>>

\* The searcher is asked for a configuration, and is shown every trial of the run in
\* a state it had while the worker held the lock.
GoodView(w, view) ==
  /\ SerialSample => Len(view) = Len(trials)
  /\ \A t \in DOMAIN view :
       /\ Stage(wk[w].base[t].st) <= Stage(view[t].st)
       /\ Stage(view[t].st) <= Stage(trials[t].st)
       /\ Stage(view[t].st) = 2 => view[t].st = trials[t].st /\ view[t].res = trials[t].res
       /\ Stage(view[t].st) = 1 => view[t].by = trials[t].by
Ask(w) ==
  /\ wk[w].pc = "asking"
  /\ Goto(w, "asked")
  /\ UNCHANGED <<store, lock, runs, crashes, set>>

NewTrial(w, c) == [st |-> "p", by |-> 0, smp |-> w, cfg |-> c, ver |-> 1, res |-> NoRes]
Sample(w, c) ==
  /\ wk[w].pc = "asked"
  /\ trials' = Append(trials, NewTrial(w, c))
  /\ runs' = Append(runs, 0)
  /\ wk' = [wk EXCEPT ![w].pc = "sampled", ![w].t = Len(trials) + 1, ![w].v = 1, ![w].base = <<>>]
  /\ UNCHANGED <<errs, used, lock, crashes, set>>

SampleEnd(w) ==
  /\ wk[w].pc = "sampled"
  /\ lock' = 0
  /\ Goto(w, "claim")
  /\ UNCHANGED <<store, runs, crashes, set>>

MaxFailedClaims == 10
ClaimOk(w) ==
  LET t == wk[w].t IN
  /\ wk[w].pc = "claim"
  /\ trials[t].ver = wk[w].v
  /\ trials' = [trials EXCEPT ![t].st = "e", ![t].by = w, ![t].ver = @ + 1]
  /\ wk' = [wk EXCEPT ![w].pc = "start", ![w].v = @ + 1, ![w].nfail = 0]
  /\ UNCHANGED <<errs, used, lock, runs, crashes, set>>
ClaimLost(w) ==
  /\ wk[w].pc = "claim"
  /\ trials[wk[w].t].ver # wk[w].v
  /\ wk' = [wk EXCEPT ![w].nfail = @ + 1,
                      ![w].pc = IF wk[w].nfail + 1 >= MaxFailedClaims THEN "raised" ELSE "check"]
  /\ UNCHANGED <<store, lock, runs, crashes, set>>

EvalStart(w) ==
  /\ wk[w].pc = "start"
  /\ runs' = [runs EXCEPT ![wk[w].t] = @ + 1]
  /\ Goto(w, "eval")
  /\ UNCHANGED <<store, lock, crashes, set>>

\* out: [ok, loss, cost, dur] - what the user's function did
EvalEnd(w, out) ==
  LET c == IF out.ok THEN out.cost ELSE set[w].costErr IN
  /\ wk[w].pc = "eval"
  /\ wk' = [wk EXCEPT ![w].pc = "report", ![w].out = out,
                      ![w].nev = @ + 1,
                      ![w].tim = @ + out.dur,
                      ![w].cst = IF c >= 0 THEN @ + c ELSE @,
                      ![w].err = @ \/ ~out.ok]
  /\ UNCHANGED <<store, lock, runs, crashes, set>>

\* the evaluation is left by something that is not an ordinary error (Ctrl-C)
Interrupt(w) ==
  /\ wk[w].pc = "eval"
  /\ Goto(w, "raised")
  /\ UNCHANGED <<store, lock, runs, crashes, set>>

\* rep stands for the report as a whole (learning curve, extra information, ...)
ResOf(w, rep) == LET o == wk[w].out IN
  [loss |-> IF o.ok THEN o.loss ELSE set[w].lossErr,
   cost |-> IF o.ok THEN o.cost ELSE set[w].costErr,
   dur  |-> o.dur, rep |-> rep]
CostOf(w) == ResOf(w, 0).cost
\* The report goes into the store if nobody changed the trial; afterwards the cost and
\* the error are accounted for (in any order), which other workers see separately.
Duties(w) == (IF CostOf(w) > 0 THEN {"ledger"} ELSE {}) \cup (IF wk[w].out.ok THEN {} ELSE {"errlog"})
After(todo) == IF todo = {} THEN "check" ELSE "account"
Report(w, rep) ==
  LET t == wk[w].t IN
  /\ wk[w].pc = "report"
  /\ IF trials[t].ver = wk[w].v
     THEN /\ trials' = [trials EXCEPT ![t].st = IF wk[w].out.ok THEN "s" ELSE "c",
                                      ![t].res = ResOf(w, rep), ![t].ver = @ + 1]
          /\ wk' = [wk EXCEPT ![w].todo = Duties(w), ![w].pc = After(Duties(w))]
     ELSE /\ UNCHANGED trials
          /\ Goto(w, "raised")
  /\ UNCHANGED <<errs, used, lock, runs, crashes, set>>

Discharge(w, d) ==
  /\ wk[w].pc = "account" /\ d \in wk[w].todo
  /\ wk' = [wk EXCEPT ![w].todo = @ \ {d}, ![w].pc = After(wk[w].todo \ {d})]
Ledger(w) ==
  /\ Discharge(w, "ledger")
  /\ used' = used + CostOf(w)
  /\ UNCHANGED <<trials, errs, lock, runs, crashes, set>>

ErrLog(w) ==
  /\ Discharge(w, "errlog")
  /\ errs' = Append(errs, <<wk[w].t, w>>)
  /\ UNCHANGED <<trials, used, lock, runs, crashes, set>>

Exit(w) ==
  /\ wk[w].pc \in {"stopping", "raising"}
  /\ Goto(w, IF wk[w].pc = "stopping" THEN "done" ELSE "raised")
  /\ UNCHANGED <<store, lock, runs, crashes, set>>

Ended == {"done", "raised", "dead"}
\* The worker is killed.  If it was about to write a trial, the version of the trial
\* may already have changed, which makes others re-read it.
Crash(w) ==
  /\ wk[w].pc \notin (Ended \cup {"off"})
  /\ Goto(w, "dead")
  /\ lock' = IF lock = w THEN 0 ELSE lock
  /\ crashes' = crashes + 1
  /\ \/ UNCHANGED trials
     \/ /\ wk[w].pc \in {"claim", "report"}
        /\ trials[wk[w].t].ver = wk[w].v
        /\ trials' = [trials EXCEPT ![wk[w].t].ver = @ + 1]
  /\ UNCHANGED <<errs, used, runs, set>>

\* everything but Ask/EvalEnd/Crash/Interrupt, which the environment decides
Internal(w) ==
  \/ CheckBegin(w) \/ CheckEnd(w) \/ LookBegin(w) \/ Fetch(w) \/ NothingPending(w)
  \/ SampleBegin(w) \/ SampleEnd(w) \/ ClaimLost(w)
Mutating(w, c, rep) ==
  \/ Sample(w, c) \/ ClaimOk(w) \/ Report(w, rep) \/ Ledger(w) \/ ErrLog(w)

-----------------------------------------------------------------------------
(* Guarantees                                                              *)

AtMostOnce == \A t \in DOMAIN trials : runs[t] <= 1
Owned ==      \* an evaluation is only ever run by the worker recorded for it
  \A w \in Workers : wk[w].pc \in {"start", "eval", "report"} =>
     trials[wk[w].t].st = "e" /\ trials[wk[w].t].by = w
OneOwner == \A u, v \in Workers : u # v /\ wk[u].pc \in {"start", "eval", "report"}
     /\ wk[v].pc \in {"start", "eval", "report"} => wk[u].t # wk[v].t
SerialSampling == \A u, v \in Workers : u # v =>
     ~({wk[u].pc, wk[v].pc} \subseteq {"asking", "asked", "sampled"})
NotYet == {"off", "check", "checking", "look", "looking", "want", "asking", "asked"}
Reported == \* a worker past its report has its result in the store
  \A w \in Workers : wk[w].pc = "account" =>
     Finished(trials[wk[w].t]) /\ trials[wk[w].t].res = ResOf(w, trials[wk[w].t].res.rep)

AllEnded == \A w \in Workers : wk[w].pc \in Ended \cup {"off"}
Quiet == \A w \in Workers : wk[w].pc \notin {"report", "account"}
NoCrash == crashes = 0 /\ \A w \in Workers : wk[w].pc # "raised"
LedgerExact == Quiet /\ crashes = 0 => used = CostSum
LedgerBound == used <= CostSum
ErrLogExact == Quiet /\ crashes = 0 =>
  /\ Len(errs) = Cardinality({t \in DOMAIN trials : trials[t].st = "c"})
  /\ \A t \in DOMAIN trials : trials[t].st = "c" => \E i \in DOMAIN errs : errs[i] = <<t, trials[t].by>>
ErrLogSound == \A i \in DOMAIN errs : trials[errs[i][1]].st = "c" /\ trials[errs[i][1]].by = errs[i][2]

\* Everything a result consists of never changes again (action property)
Immutable == [][\A t \in DOMAIN trials :
    /\ t \in DOMAIN trials'
    /\ trials'[t].smp = trials[t].smp /\ trials'[t].cfg = trials[t].cfg
    /\ Stage(trials[t].st) <= Stage(trials'[t].st)
    /\ trials[t].st # "p" => trials'[t].by = trials[t].by
    /\ Finished(trials[t]) => trials'[t].st = trials[t].st /\ trials'[t].res = trials[t].res]_vars
=============================================================================
