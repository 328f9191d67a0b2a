------------------------------- MODULE Curve -------------------------------
(* What plots and TensorBoard show of runs.                                  *)
EXTENDS Integers, Sequences, FiniteSets
None == 1000000000
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x
-----------------------------------------------------------------------------
(* The curve of the best error.  A run is a sequence of finished evaluations *)
(* in the order in which they were started: [ok, loss, cost, prev, end], prev*)
(* is the evaluation it continues (0: none), end when it ended, since the    *)
(* start of the first; all in thousandths.  ok: with a loss that is a number.*)
(* crash: without any result.  The axis: evaluations, key (a cost that adds  *)
(* up), more (what was new of it), time (when evaluations ended).            *)
Counts(axis, e) == axis \in {"evaluations", "time"} \/ ~e.crash
Share(h, axis, i) ==
  IF ~Counts(axis, h[i]) THEN 0 ELSE
  CASE axis = "evaluations" -> 1000
    [] axis = "key" -> h[i].cost
    [] axis = "more" -> h[i].cost - (IF h[i].prev > 0 THEN h[h[i].prev].cost ELSE 0)
RECURSIVE Upto(_, _, _)
Upto(h, axis, i) == IF i = 0 THEN 0 ELSE Upto(h, axis, i - 1) + Share(h, axis, i)
\* where each evaluation is on the axis
Places(h, axis) == [i \in DOMAIN h |-> IF axis = "time" THEN h[i].end ELSE Upto(h, axis, i)]
Shown(h, axis) == {i \in DOMAIN h : Counts(axis, h[i])}
\* the best error once x has been spent
Known(h, pl, x) == {h[i].loss : i \in {i \in DOMAIN h : h[i].ok /\ pl[i] <= x}}
\* the evaluations that were better than all before
Steps(h) == {i \in DOMAIN h : h[i].ok /\ \A j \in 1..(i - 1) : h[j].ok => h[j].loss > h[i].loss}
\* the curve of some runs (seeds) is the mean of theirs; tol: how exact places are
RECURSIVE SumUp(_)
SumUp(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumUp(Tail(s))
Near(R, x, y, at) ==
  \* (at: places up to there count as reached)
  LET K == [k \in DOMAIN R.runs |-> Known(R.runs[k], Places(R.runs[k], R.axis), at)] IN
  IF \A k \in DOMAIN K : K[k] # {}
  THEN y # None /\ Abs(Len(K) * y - SumUp([k \in DOMAIN K |-> Min(K[k])])) <= 2 * Len(K)
  ELSE \* a run without any success so far
       (\A k \in DOMAIN K : K[k] = {} => \E i \in Shown(R.runs[k], R.axis) : Places(R.runs[k], R.axis)[i] <= at) => y = None
Curve(R) ==
  LET all == UNION {{Places(R.runs[k], R.axis)[i] : i \in Shown(R.runs[k], R.axis)} : k \in DOMAIN R.runs}
      within == {p \in all : p >= R.from /\ p <= R.to} IN
  (IF \A k \in DOMAIN R.line : Near(R, R.line[k].x, R.line[k].y, R.line[k].x + R.tol) \/ Near(R, R.line[k].x, R.line[k].y, R.line[k].x - R.tol) THEN {} ELSE {"best"})
  \cup (IF \A p \in within : \E k \in DOMAIN R.line : Abs(R.line[k].x - p) <= R.tol THEN {} ELSE {"missing"})
  \cup (IF \A k \in 2..Len(R.line) : R.line[k].x >= R.line[k - 1].x THEN {} ELSE {"order"})
\* the incumbents of the command line: the number of the evaluation, and its loss
Incumbents(R) ==
  LET E == {<<i, R.run[i].loss>> : i \in Steps(R.run)}
      D == {<<R.line[k].x, R.line[k].y>> : k \in DOMAIN R.line} IN
  IF Len(R.line) = Cardinality(E) /\ (\A e \in E : \E d \in D : d[1] = 1000 * e[1] /\ Abs(d[2] - e[2]) <= 1) THEN {} ELSE {"incumbents"}
-----------------------------------------------------------------------------
(* TensorBoard.  A process works on runs; during an evaluation it logs.      *)
(* What happened: [k "run", r], [k "begin", id, first] (first: where its     *)
(* lineage began), [k "log", step, v, extra, scalar, hparam, inc], off, on,  *)
(* [k "end", how, loss] (how: ok, failed, interrupted).                      *)
Fresh == [r |-> 0, id |-> "", first |-> "", on |-> TRUE, wish |-> FALSE, done |-> [r \in 1..2 |-> <<>>],
          files |-> {}, graph |-> [r \in 1..2 |-> <<>>], n |-> 0]
\* files: everything logged, numbered: [r, dir, tag, step, v, n]
Put(s, tag, step, v) == [s EXCEPT !.n = @ + 1, !.files = @ \cup {[r |-> s.r, dir |-> s.first, tag |-> tag, step |-> step, v |-> v, n |-> s.n]}]
BestOf(q) == IF q = <<>> \/ \A i \in DOMAIN q : q[i] = None THEN None ELSE Min({q[i] : i \in DOMAIN q})
Do(s, e) ==
  CASE e.k = "run" -> [s EXCEPT !.r = e.r]
    [] e.k = "begin" -> [s EXCEPT !.id = e.id, !.first = e.first, !.wish = FALSE]
    [] e.k = "off" -> [s EXCEPT !.on = FALSE]
    [] e.k = "on" -> [s EXCEPT !.on = TRUE]
    [] e.k = "log" -> IF ~s.on THEN s ELSE
         LET a == IF e.scalar THEN Put(s, "loss", e.step, e.v) ELSE s
             b == IF e.hparam THEN Put(a, "summary", e.step, e.v) ELSE a
             c == IF e.extra # None THEN Put(b, "extra", e.step, e.extra) ELSE b IN
         [c EXCEPT !.wish = e.inc]
    [] e.k = "end" -> IF e.how = "interrupted" THEN [s EXCEPT !.id = "", !.wish = FALSE] ELSE
         \* the graph shows what had been recorded when it ended
         LET g == IF s.wish THEN [s EXCEPT !.graph[s.r] = Append(@, [step |-> Len(s.done[s.r]), v |-> BestOf(s.done[s.r])])] ELSE s IN
         [g EXCEPT !.done[s.r] = Append(@, IF e.how = "ok" THEN e.loss ELSE None), !.id = "", !.wish = FALSE]
RECURSIVE After(_, _)
After(s, es) == IF es = <<>> THEN s ELSE After(Do(s, Head(es)), Tail(es))
\* R.shown: every scalar found below the run directories [r, dir, tag, step, v]; R.graph likewise
SamePoint(a, b) == a.r = b.r /\ a.dir = b.dir /\ a.tag = b.tag /\ a.step = b.step /\ Abs(a.v - b.v) <= 1
SameStep(a, b) == a.step = b.step /\ (a.v = b.v \/ (a.v # None /\ b.v # None /\ Abs(a.v - b.v) <= 1))
Board(R) ==
  LET s == After(Fresh, R.events) IN
       (IF \A p \in s.files : Cardinality({q \in s.files : SamePoint(p, q)}) = Cardinality({k \in DOMAIN R.shown : SamePoint(p, R.shown[k])}) THEN {} ELSE {"logged"})
  \cup (IF \A k \in DOMAIN R.shown : \E p \in s.files : SamePoint(p, R.shown[k]) THEN {} ELSE {"stray"})
  \cup (IF \A r \in 1..2 : /\ Len(R.graph[r]) = Len(s.graph[r])
                           /\ \A k \in DOMAIN s.graph[r] : Cardinality({j \in DOMAIN s.graph[r] : SameStep(s.graph[r][k], s.graph[r][j])}) = Cardinality({j \in DOMAIN R.graph[r] : SameStep(s.graph[r][k], R.graph[r][j])})
        THEN {} ELSE {"graph"})
-----------------------------------------------------------------------------
Judge(R) ==
  CASE R.kind = "curve" -> Curve(R)
    [] R.kind = "incumbents" -> Incumbents(R)
    [] R.kind = "board" -> Board(R)
    [] R.kind = "failed" -> {"failed"}
    [] OTHER -> {"unknown"}
=============================================================================
