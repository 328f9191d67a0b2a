----------------------------- MODULE Surrogate -----------------------------
(* What searchers with a model learn from the evaluations there are, when    *)
(* the model decides, and how prior and costs weigh what it proposes.        *)
(*                                                                           *)
(* A history is a sequence of evaluations [cfg, rung, st, loss, cost]: st is *)
(* open (not finished), ok, or failed (finished without a loss one could     *)
(* compare: it crashed, or the loss is infinite or no number); cost is in    *)
(* units, -1 if none was reported.  Losses are in thousandths.               *)
EXTENDS Integers, Sequences, FiniteSets

Open(h) == {i \in DOMAIN h : h[i].st = "open"}
Done(h) == DOMAIN h \ Open(h)
Usable(h) == {i \in DOMAIN h : h[i].st = "ok"}
Abs(x) == IF x < 0 THEN -x ELSE x
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Sum(_)
Sum(f) == IF DOMAIN f = {} THEN 0 ELSE LET x == CHOOSE x \in DOMAIN f : TRUE IN f[x] + Sum([y \in DOMAIN f \ {x} |-> f[y]])
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
-----------------------------------------------------------------------------
(* One fidelity: Bayesian optimization, with priors (piBO) and with costs.   *)
\* the initial design first; then, while nothing can be learnt, at random
Phase(h, init) == IF Len(h) < init THEN "design" ELSE IF Usable(h) = {} THEN "random" ELSE "model"
\* a failure looks like what is in the middle of what has been seen, neither good nor bad
Below(h, l) == Cardinality({j \in Usable(h) : h[j].loss <= l})
Above(h, l) == Cardinality({j \in Usable(h) : h[j].loss >= l})
Middle(h, l) == 2 * Below(h, l) >= Cardinality(Usable(h)) /\ 2 * Above(h, l) >= Cardinality(Usable(h))
\* train: pairs [cfg, y]; every finished evaluation once
LearnsOne(h, train) ==
  /\ Len(train) = Cardinality(Done(h))
  /\ \A i \in Done(h) : \E k \in DOMAIN train :
        /\ train[k].cfg = h[i].cfg
        /\ IF h[i].st = "ok" THEN Abs(train[k].y - h[i].loss) <= 1
           ELSE \E d \in {-1, 0, 1} : Middle(h, train[k].y + d)
Avoids(S, h, pending) == SameBag(pending, [k \in 1..Cardinality(S) |-> h[CHOOSE i \in S : Cardinality({j \in S : j <= i}) = k].cfg])
\* costs: what was reported, of finished evaluations
Priced(h) == {i \in Done(h) : h[i].cost >= 0}
LearnsCosts(h, costs) ==
  /\ Len(costs) = Cardinality(Priced(h))
  /\ \A i \in Priced(h) : \E k \in DOMAIN costs : costs[k].cfg = h[i].cfg /\ costs[k].y = h[i].cost
\* of what is left of the budget (thousandths), costs count that much
CostShare(used, budget) == (1000 * (budget - used)) \div budget
One(R) ==
  LET p == Phase(R.h, R.init) IN
  IF R.phase # p THEN {"phase"} ELSE
  IF p = "design" THEN (IF R.point = Len(R.h) + 1 THEN {} ELSE {"design"}) ELSE
  IF p = "random" THEN {} ELSE
       (IF LearnsOne(R.h, R.train) THEN {} ELSE {"learn"})
  \cup (IF Avoids(Open(R.h), R.h, R.pending) THEN {} ELSE {"pending"})
  \cup (IF R.costs = "unused" \/ LearnsCosts(R.h, R.paid) THEN {} ELSE {"costs"})
-----------------------------------------------------------------------------
(* Many fidelities: MOBSTER and PriorBand with a model.  Either one model of *)
(* the highest rung with enough evaluations, or a joint one of all rungs.    *)
Cfgs(h) == {h[i].cfg : i \in DOMAIN h}
Latest(h, c) == CHOOSE i \in DOMAIN h : h[i].cfg = c /\ \A j \in DOMAIN h : h[j].cfg = c => h[j].rung <= h[i].rung
At(h, r) == {i \in Usable(h) : h[i].rung = r}
Active(s, h) == LET E == {r \in 0..(Len(s.fids) - 1) : Cardinality(At(h, r)) >= s.init} IN IF E = {} THEN -1 ELSE Max(E)
Fid(s, r) == s.fids[r + 1]
Top(s) == s.fids[Len(s.fids)]
\* resources spent; of those that are on their way up either nothing or what they have reached
SpentOf(s, h, S) == Sum([c \in {h[i].cfg : i \in S} |-> Fid(s, Max({h[i].rung : i \in {i \in S : h[i].cfg = c}}))])
Lasts(h) == {Latest(h, c) : c \in Cfgs(h)}
Spent(s, h, S) == <<SpentOf(s, h, S \cap Lasts(h)), SpentOf(s, h, S)>>
\* the model decides: {TRUE}, {FALSE}, or (somebody is on the way up) either
Decides(s, h) ==
  IF s.mode = "rung" THEN {Active(s, h) >= 0}
  ELSE LET u == Spent(s, h, Usable(h)) IN {x \in BOOLEAN : (x => u[2] >= s.init * Top(s)) /\ (~x => u[1] < s.init * Top(s))}
TrainSet(s, h) == IF s.mode = "rung" THEN At(h, Active(s, h)) ELSE Usable(h)
PendingSet(s, h) == {i \in Open(h) \cap Lasts(h) : s.mode = "joint" \/ h[i].rung = Active(s, h)}
LearnsMany(s, h, train) ==
  LET T == TrainSet(s, h) IN
  /\ Len(train) = Cardinality(T)
  /\ \A i \in T : \E k \in DOMAIN train : train[k].cfg = h[i].cfg /\ Abs(train[k].y - h[i].loss) <= 1
\* the weight of the prior (an exponent, in thousandths): ten for the first full evaluation's worth, and less with everything spent
PriorExponent(s, h, e) ==
  LET u == Spent(s, h, Done(h)) IN
  /\ 99 * e * u[1] <= 100 * 10000 * Top(s)
  /\ 101 * e * u[2] >= 100 * 10000 * Top(s) - 100 * u[2]
Many(R) ==
  IF R.model \notin Decides(R.s, R.h) THEN {"phase"} ELSE
  IF ~R.model THEN {} ELSE
       (IF LearnsMany(R.s, R.h, R.train) THEN {} ELSE {"learn"})
  \cup (IF Avoids(PendingSet(R.s, R.h), R.h, R.pending) THEN {} ELSE {"pending"})
  \cup (IF R.expo = -1 \/ PriorExponent(R.s, R.h, R.expo) THEN {} ELSE {"prior"})
-----------------------------------------------------------------------------
(* How much prior and costs weigh.  Differences between two candidates, in   *)
(* thousandths of the logarithm: w of what is maximised, less that of the    *)
(* plain acquisition; lp of the prior's density; lc of the cost expected.    *)
\* (|x| <= 10^6, e and a in thousandths)
Weighs(R) == IF \A k \in DOMAIN R.rows : Abs(R.rows[k].w - ((R.e * R.rows[k].lp - R.a * R.rows[k].lc) \div 1000)) <= 20 + (Abs(R.rows[k].lp) + Abs(R.rows[k].lc)) \div 250
             THEN {} ELSE {"weight"}
CostsCount(R) == IF R.a = CostShare(R.used, R.budget) THEN {} ELSE {"share"}
\* exponents of the prior as samples are added to the initial design: from one to nothing, never more than before
Decay(R) == IF /\ R.e[1] >= 950 /\ R.e[1] <= 1000
               /\ \A k \in DOMAIN R.e : R.e[k] >= 0 /\ (k > 1 => R.e[k] <= R.e[k - 1] + 2)
               /\ R.e[Len(R.e)] <= 20
            THEN {} ELSE {"decay"}
\* the more parameters, the longer it counts (narrow, wide: the same for few and for many)
Longer(R) == IF \A k \in 2..Len(R.few) : R.many[k] >= R.few[k] - 2 /\ (R.few[k] > 50 => R.many[k] > R.few[k]) THEN {} ELSE {"longer"}
-----------------------------------------------------------------------------
(* It is losses that are minimised: of n proposals of the model most have a  *)
(* loss below the middle of what was tried before.                           *)
Improves(n, better) == 4 * better >= 3 * n
Judge(R) ==
  CASE R.kind = "one" -> One(R)
    [] R.kind = "many" -> Many(R)
    [] R.kind = "weighs" -> Weighs(R) \cup (IF R.budget = 0 THEN {} ELSE CostsCount(R))
    [] R.kind = "decay" -> Decay(R)
    [] R.kind = "longer" -> Longer(R)
    [] R.kind = "improves" -> IF Improves(R.n, R.better) THEN {} ELSE {"direction"}
    [] R.kind = "failed" -> {"failed"}
    [] OTHER -> {"unknown"}
=============================================================================
