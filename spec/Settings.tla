------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* What the arguments of a run mean.  They may be given in the call (from  *)
(* Python or on the command line) and in a settings file; the call has     *)
(* priority, then the file, then the default.  The effective settings      *)
(* decide where the run lives, which function is evaluated how often on    *)
(* which space with which searcher, and what happens on errors.            *)
(*                                                                         *)
(* Everything is a number: NONE is "no value", 0/1 are truth values, and   *)
(* roots, functions, spaces, hooks, searchers and identifiers are numbered.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NONE == -1
Names == {"root", "fn", "space", "total", "per", "cost", "ign", "lerr", "cerr", "summ", "over", "dev", "task", "cont", "hooks"}
Default == [root |-> NONE, fn |-> NONE, space |-> NONE, total |-> NONE, per |-> NONE, cost |-> NONE, ign |-> 0, lerr |-> NONE,
            cerr |-> NONE, summ |-> 1, over |-> 0, dev |-> NONE, task |-> NONE, cont |-> 0, hooks |-> 0]
From(call, file, n) == IF n \in DOMAIN call THEN call[n] ELSE IF n \in DOMAIN file THEN file[n] ELSE Default[n]
\* the searcher is given as a whole: [alg, kw], where kw (an argument of it) may be missing (NONE)
NoSearcher == [alg |-> 0, kw |-> NONE]
Searcher(call, file) == IF "searcher" \in DOMAIN call THEN call.searcher ELSE IF "searcher" \in DOMAIN file THEN file.searcher ELSE NoSearcher
Effective(call, file) == [n \in Names |-> From(call, file, n)]

\* spaces: 1, 2 plain, 3 with a default, 4 with a fidelity, 5 with both
Prior(s) == s \in {3, 5}
Fid(s) == s \in {4, 5}
\* searchers: 1 random search, 2 Bayesian optimisation, 3 PiBO, 4 Hyperband, 5 PriorBand, 6 a class of the user
Chosen(s) == IF Prior(s) THEN (IF Fid(s) THEN 5 ELSE 3) ELSE (IF Fid(s) THEN 4 ELSE 2)
\* an argument of the searcher given in the call has no effect if the searcher is chosen by NePS
Identity(call, file) ==
  LET s == Searcher(call, file)
      e == Effective(call, file)
  IN  IF s.alg = 0 THEN [alg |-> Chosen(e.space), kw |-> NONE]
      ELSE [alg |-> s.alg, kw |-> IF "kw" \in DOMAIN call THEN call.kw ELSE s.kw]

\* ---- a single worker
Stop(e, n, cnt, prog, cs) ==
  \/ e.per # NONE /\ n >= e.per
  \/ e.total # NONE /\ cnt + (IF e.cont = 1 THEN 0 ELSE prog) >= e.total
  \/ e.cost # NONE /\ cs >= e.cost
Suppressed(e) == e.ign = 1 \/ (e.lerr # NONE /\ e.cerr # NONE)
RECURSIVE Go(_, _, _, _, _, _)
\* fail: which evaluation of the call fails; the others return loss 1 and cost 1
Go(e, fail, prog, cnt, cs, recs) ==
  LET n == Len(recs) IN
  IF Stop(e, n, cnt, prog, cs) THEN [recs |-> recs, end |-> "ok"]
  ELSE IF n + 1 = fail
       THEN LET r == Append(recs, [ok |-> 0, loss |-> e.lerr, cost |-> e.cerr])
            IN  IF Suppressed(e) THEN Go(e, fail, prog, cnt + 1, cs + (IF e.cerr = NONE THEN 0 ELSE e.cerr), r)
                ELSE [recs |-> r, end |-> "raised"]
       ELSE Go(e, fail, prog, cnt + 1, cs + 1, Append(recs, [ok |-> 1, loss |-> 1, cost |-> 1]))

Refused(e) == e.fn = NONE \/ e.root = NONE \/ e.space = NONE \/ (e.total = NONE /\ e.cost = NONE)
Where(e) == <<e.root, e.task, e.dev>>
Nowhere == <<NONE, NONE, NONE>>
\* pre: root 1 already holds a run of random search with a finished evaluation (cost 1) and one in progress
Found(e, pre) == pre = 1 /\ Where(e) = <<1, NONE, NONE>>
Joined(e, pre) == Found(e, pre) /\ e.over = 0
HookList(h) == CASE h = 0 -> <<>> [] h = 1 -> <<1>> [] h = 2 -> <<2, 1>> [] OTHER -> <<>>

Expected(call, file, pre, fail) ==
  LET e == Effective(call, file)
      id == Identity(call, file)
      nothing == [end |-> "refused", where |-> Nowhere, recs |-> <<>>, fn |-> NONE, space |-> NONE, alg |-> NONE, kw |-> NONE,
                  csv |-> 0, hooks |-> <<>>, old |-> pre]
  IN  IF Refused(e) \/ (Joined(e, pre) /\ id # [alg |-> 1, kw |-> NONE]) THEN nothing
      ELSE LET j == Joined(e, pre)
               g == IF j THEN Go(e, fail, 1, 1, 1, <<>>) ELSE Go(e, fail, 0, 0, 0, <<>>)
               some == Len(g.recs) > 0
           IN  [end |-> g.end, where |-> Where(e), recs |-> g.recs, fn |-> IF some THEN e.fn ELSE NONE, space |-> IF some THEN e.space ELSE NONE,
                alg |-> id.alg, kw |-> id.kw, csv |-> IF g.end = "ok" THEN e.summ ELSE 0,
                hooks |-> IF some THEN HookList(e.hooks) ELSE <<>>,
                old |-> IF pre = 0 \/ (Found(e, pre) /\ e.over = 1) THEN 0 ELSE 1]

\* ---- judging an observed run: the names of what differs
Judge(r) == LET x == Expected(r.call, r.file, r.pre, r.fail) IN {k \in DOMAIN x : x[k] # r.seen[k]}
=============================================================================
