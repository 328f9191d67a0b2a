-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* What the reading commands of the command line say about a run: status   *)
(* (with its filters), results, info-config and errors.  The run is the    *)
(* sequence of its configurations in the order in which they were sampled, *)
(* as in Summary.                                                          *)
(***************************************************************************)
EXTENDS Summary
VAL == 50       \* the loss configured for errors
\* what is shown as the loss of a configuration
Shown(c) == CASE c.st = "success" -> c.l [] c.st = "failval" -> VAL [] OTHER -> NaN
States(c) == CASE c.st = "pending" -> {"PENDING"} [] c.st = "evaluating" -> {"EVALUATING"} [] c.st = "success" -> {"SUCCESS"}
               [] OTHER -> {"CRASHED", "FAILED"}
\* ---- status: the latest first
Down(S) == LET RECURSIVE D(_) D(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : y <= x IN <<m>> \o D(T \ {m}) IN D(S)
Latest(cs, n) == SelectSeq(Down(DOMAIN cs), LAMBDA i : i > Len(cs) - n)
Of(cs, st) == Down({i \in DOMAIN cs : cs[i].st = st})
Listed(cs, f) == CASE f = "none" -> Latest(cs, 7) [] f = "pending" -> Of(cs, "pending") [] f = "evaluating" -> Of(cs, "evaluating") [] f = "succeeded" -> Of(cs, "success")
\* ---- results: those that were the best of all sampled before them, the latest first
Incumbents(cs) == Down({i \in Usable(cs) : \A j \in Usable(cs) : j < i => cs[i].l < cs[j].l})
\* ---- errors
Failures(cs) == {i \in DOMAIN cs : cs[i].st \in {"failed", "failval"}}

ListOK(cs, f, rows) ==
  /\ [k \in DOMAIN rows |-> rows[k].i] = Listed(cs, f)
  /\ \A k \in DOMAIN rows : rows[k].i \in DOMAIN cs => rows[k].st \in States(cs[rows[k].i]) /\ rows[k].l = Shown(cs[rows[k].i])
InfoOK(cs, x) == x.i \in DOMAIN cs /\ x.config /\ x.st \in States(cs[x.i]) /\ x.l = Shown(cs[x.i]) /\ x.reported = (cs[x.i].st \in Done) /\ x.worker
Judge23(R) ==
  IF R.k = "failed" THEN {R.what} ELSE
  {c \in {"status numbers", "best", "list", "results", "info", "errors", "unknown", "changed"} :
     CASE c = "status numbers" -> \E g \in SeqSet(R.status) : LET s == Status(R.cs) IN
            ~(/\ g.ok = s.evaluated - s.errors /\ g.failed = s.errors /\ g.active = s.worker /\ g.pending = s.pending /\ g.worker = s.worker
              /\ g.loss = IF s.best = {} THEN INF ELSE R.cs[CHOOSE b \in s.best : TRUE].l)
       [] c = "best" -> \E g \in SeqSet(R.status) : g.filter = "none" /\
            ~(IF Best(R.cs) = {} THEN g.best = 0 ELSE g.best \in Best(R.cs) /\ g.config /\ g.bestloss = R.cs[g.best].l)
       [] c = "list" -> \E g \in SeqSet(R.status) : ~ListOK(R.cs, g.filter, g.rows)
       [] c = "results" -> \/ [k \in DOMAIN R.results |-> R.results[k].i] # Incumbents(R.cs)
                           \/ \E x \in SeqSet(R.results) : ~(x.i \in DOMAIN R.cs /\ x.config /\ x.l = R.cs[x.i].l)
       [] c = "info" -> \/ {x.i : x \in SeqSet(R.info)} # DOMAIN R.cs
                        \/ \E x \in SeqSet(R.info) : ~InfoOK(R.cs, x)
       [] c = "errors" -> \/ {x.i : x \in SeqSet(R.errors)} # Failures(R.cs) \/ Len(R.errors) # Cardinality(Failures(R.cs))
                          \/ \E x \in SeqSet(R.errors) : ~x.own
       [] c = "unknown" -> ~R.unknown
       [] c = "changed" -> ~R.same}
=============================================================================
