------------------------------ MODULE Summary ------------------------------
(***************************************************************************)
(* What the status of a run has to say about its configurations.           *)
(* A configuration is [st, l]: pending, evaluating, success (l: rank of    *)
(* its loss, from -1 for -infinity over 1, 2, ... to INF; NaN for none),   *)
(* failed (crashed, with or without a value configured for errors), or     *)
(* half: a worker was killed when it had written the result (of rank l),   *)
(* before it could mark the configuration as finished.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
INF == 9
NaN == 10
Fates == {[st |-> "pending", l |-> 0], [st |-> "evaluating", l |-> 0],
          [st |-> "success", l |-> 1], [st |-> "success", l |-> 2], [st |-> "success", l |-> 3], [st |-> "success", l |-> -1],
          [st |-> "success", l |-> INF], [st |-> "success", l |-> NaN],
          [st |-> "failed", l |-> 0], [st |-> "failval", l |-> 0], [st |-> "half", l |-> 2]}
SeqSet(s) == {s[i] : i \in DOMAIN s}
Done == {"success", "failed", "failval"}
Count(cs, S) == Cardinality({i \in DOMAIN cs : cs[i].st \in S})
Usable(cs) == {i \in DOMAIN cs : cs[i].st = "success" /\ cs[i].l < INF}
Best(cs) == {i \in Usable(cs) : \A j \in Usable(cs) : cs[i].l <= cs[j].l}
\* the status of any run
Status(cs) == [evaluated |-> Count(cs, Done), pending |-> Count(cs, {"pending", "evaluating"}),
               worker |-> Count(cs, {"evaluating"}), errors |-> Count(cs, {"failed", "failval"}),
               best |-> Best(cs)]

(* What was observed: cs as it is in the run directory, got: the summary,  *)
(* done/open/free: configurations listed as finished, unfinished and not   *)
(* yet taken, rows: the lines of the csv file in their order               *)
NumbersOK(cs, g) == LET s == Status(cs) IN
  /\ g.evaluated = s.evaluated /\ g.pending = s.pending /\ g.worker = s.worker /\ g.errors = s.errors
  /\ IF s.best = {} THEN g.best = 0 /\ g.loss = INF
     ELSE g.best \in s.best /\ g.loss = cs[g.best].l
ListsOK(cs, R) ==
  /\ SeqSet(R.done) = {i \in DOMAIN cs : cs[i].st \in Done} /\ Len(R.done) = Count(cs, Done)
  /\ SeqSet(R.open) = {i \in DOMAIN cs : cs[i].st \notin Done} /\ Len(R.open) = Count(cs, {"pending", "evaluating"})
  /\ SeqSet(R.free) = {i \in DOMAIN cs : cs[i].st = "pending"}
RowsOK(cs, rows) ==
  /\ Len(rows) = Len(cs) /\ {r.i : r \in SeqSet(rows)} = DOMAIN cs
  /\ \A r \in SeqSet(rows) : /\ r.done = (cs[r.i].st \in Done) /\ r.config
                             /\ r.l = IF cs[r.i].st = "success" THEN cs[r.i].l ELSE NaN
\* the finished ones come first, from the best to the worst
Sorted(rows) == \A a, b \in DOMAIN rows : (a < b /\ rows[a].l # NaN /\ rows[b].l # NaN) => rows[a].l <= rows[b].l
LossesFirst(rows) == \A a, b \in DOMAIN rows : (rows[a].l # NaN /\ rows[b].l = NaN) => a < b
Wrong(cs, R) ==
  {c \in {"summary", "printed", "lists", "csv numbers", "csv rows", "csv order"} :
     CASE c = "summary" -> ~NumbersOK(cs, R.sum)
       [] c = "printed" -> ~NumbersOK(cs, R.printed)
       [] c = "lists" -> ~ListsOK(cs, R)
       [] c = "csv numbers" -> ~NumbersOK(cs, R.csv)
       [] c = "csv rows" -> ~RowsOK(cs, R.rows)
       [] c = "csv order" -> ~(Sorted(R.rows) /\ LossesFirst(R.rows))}
\* what was left half way counts as being evaluated or as finished, but as the same everywhere
Taken(cs, st) == [i \in DOMAIN cs |-> IF cs[i].st # "half" THEN cs[i]
                                      ELSE IF st = "success" THEN [st |-> st, l |-> cs[i].l] ELSE [st |-> st, l |-> 0]]
Judge(R) ==
  IF R.k = "failed" THEN {R.what} ELSE
  IF Wrong(Taken(R.cs, "evaluating"), R) = {} THEN {} ELSE Wrong(Taken(R.cs, "success"), R)
=============================================================================
