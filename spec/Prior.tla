------------------------------- MODULE Prior -------------------------------
(***************************************************************************)
(* What declaring a default, and how confident one is of it, does to the   *)
(* search.                                                                 *)
(*                                                                         *)
(* Positions on the scale of a parameter, and shares, are in thousandths.  *)
(* Log densities are in thousandths as well, so that exact comparisons     *)
(* allow for the last digit.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Ends == {"low", "quarter", "middle", "high"}
Confidences == {"low", "medium", "high"}
-----------------------------------------------------------------------------
(* The density of one parameter: rows [at, d] at some of its positions (or *)
(* numbers of choices); def: the position of the default, -1: none         *)
At(R, p) == (CHOOSE i \in DOMAIN R.rows : R.rows[i].at = p)
Peak(R) == R.rows[At(R, R.def)].d
Drop(R, i) == Peak(R) - R.rows[i].d
Dist(R, i) == Abs(R.rows[i].at - R.def)
Uniform(R) == {c \in {"uniform"} : \E i, j \in DOMAIN R.rows : Abs(R.rows[i].d - R.rows[j].d) > 2}
\* the default is the most likely; it gets less likely with the distance, the same in both directions
Bell(R) == {c \in {"mode", "focus", "falling", "even"} :
   CASE c = "mode" -> \E i \in DOMAIN R.rows : Drop(R, i) < 0
     [] c = "focus" -> \E i \in DOMAIN R.rows : Dist(R, i) >= 200 /\ Drop(R, i) < 10
     [] c = "falling" -> \E i, j \in DOMAIN R.rows : Dist(R, i) + 10 < Dist(R, j) /\ R.rows[i].d < R.rows[j].d
     [] c = "even" -> \E i, j \in DOMAIN R.rows : Dist(R, i) = Dist(R, j) /\ Abs(R.rows[i].d - R.rows[j].d) > 5}
Choice(R) == {c \in {"mode", "focus", "even"} :
   CASE c = "mode" -> \E i \in DOMAIN R.rows : Drop(R, i) < 0
     [] c = "focus" -> \E i \in DOMAIN R.rows : R.rows[i].at # R.def /\ Drop(R, i) < 10
     [] c = "even" -> \E i, j \in DOMAIN R.rows : R.rows[i].at # R.def /\ R.rows[j].at # R.def /\ Abs(R.rows[i].d - R.rows[j].d) > 2}
Density(R) == IF R.def < 0 THEN Uniform(R) ELSE IF R.k = "cat" THEN Choice(R) ELSE Bell(R)
\* a normal density of the given standard deviation (thousandths) around the default
Normal(R) == {c \in {"width"} : \E i \in DOMAIN R.rows :
   LET want == (1000 * Dist(R, i) * Dist(R, i)) \div (2 * R.sigma * R.sigma) IN Abs(Drop(R, i) - want) > 5 + want \div 50}
\* all of it together is 1
Whole(R) == {c \in {"mass"} : R.mass \notin 990..1010}
\* the same parameter with the three confidences: the more, the narrower
Narrower(R) == {c \in {"confidence"} :
   LET D(x, i) == Drop([rows |-> R[x], def |-> R.def], i) IN
   \E i \in DOMAIN R.low : (IF R.k = "cat" THEN R.low[i].at # R.def ELSE Abs(R.low[i].at - R.def) >= 200)
                            /\ ~(D("low", i) + 10 < D("medium", i) /\ D("medium", i) + 10 < D("high", i))}
\* of a configuration: its parameters are independent
Joint(R) == {c \in {"joint"} : Abs(R.whole - Sum(R.parts)) > 2 + Len(R.parts)}
-----------------------------------------------------------------------------
(* Draws: counts[i] of n fell where share[i] of them should, give or take  *)
(* six standard deviations                                                 *)
Fits(n, s, count) == LET e == count - (n * s) \div 1000
                     IN e * e <= 36 * ((n * s * (1000 - s)) \div 1000000) + 36 * ((n \div 1000) + 1)
Draws(R) == {c \in {"outside", "shares"} :
   CASE c = "outside" -> Sum(R.counts) # R.n
     [] c = "shares" -> \E i \in DOMAIN R.counts : ~Fits(R.n, R.share[i], R.counts[i])}
\* a searcher with little, more, and much confidence: near[c] of n draws were close to the default; share: so many would be by chance
Steers(R) == {c \in {"chance", "confidence"} :
   CASE c = "chance" -> R.near.high * 1000 <= R.n * (R.share + 40)
     [] c = "confidence" -> R.near.high <= R.near.low + R.n \div 50
                            \/ R.near.high + R.n \div 25 <= R.near.medium \/ R.near.medium + R.n \div 25 <= R.near.low}
\* the first configuration, where the default is to be tried first
First(R) == {c \in {"first"} : R.first # R.default}
-----------------------------------------------------------------------------
(* How PriorBand chooses between uniform samples, samples of the prior,    *)
(* and changes of the incumbent.  H: the history of evaluations [id, rung, *)
(* loss, open], S: settings [eta, fids: fidelity of rung 0, 1, ..., cost:  *)
(* of one bracket, weight, style].  Shares are fractions <<num, den>>.     *)
Finished(H) == {i \in DOMAIN H : ~H[i].open}
\* what a configuration has got to so far counts
Reached(H, id, open) == LET E == {i \in DOMAIN H : H[i].id = id /\ (~H[i].open \/ open)} IN
   IF E = {} THEN -1 ELSE H[CHOOSE i \in E : \A j \in E : H[j].rung <= H[i].rung].rung
Ids(H) == {H[i].id : i \in DOMAIN H}
RECURSIVE Total(_, _, _)
Total(S, H, ids) == IF ids = {} THEN 0 ELSE LET x == CHOOSE x \in ids : TRUE
   IN (IF Reached(H, x, FALSE) < 0 THEN 0 ELSE S.fids[Reached(H, x, FALSE) + 1]) + Total(S, H, ids \ {x})
Used(S, H) == Total(S, H, Ids(H))
\* a configuration that is being promoted may or may not count
Going(H) == {H[i].id : i \in {j \in DOMAIN H : H[j].open}}
UsedAtLeast(S, H) == Total(S, H, Ids(H) \ Going(H))
Top(S) == Len(S.fids) - 1
AtTop(S, H) == \E i \in Finished(H) : H[i].rung = Top(S)
Active(S, H) == {b \in BOOLEAN : IF b THEN AtTop(S, H) /\ Used(S, H) >= S.cost
                                      ELSE ~AtTop(S, H) \/ UsedAtLeast(S, H) < S.cost}
\* <<prior, random>> before the incumbent gets its part
Odds(S, r) == CASE S.weight = "geometric" -> <<Pow(S.eta, r), 1>>
                [] S.weight = "linear" -> <<Top(S) + r * (S.eta - 1), Top(S)>>
                [] S.weight = "50-50" -> <<1, 1>>
Ppm(a, b) == IF b <= 2000 THEN (a * 1000000) \div b ELSE (a * 1000) \div (b \div 1000)
RandomShare(S, r) == LET o == Odds(S, r) IN <<o[2], o[1] + o[2]>>
\* of the rest, that of the prior: <<>> where it depends on how the best ones score
PriorPart(S, H) ==
  CASE S.style = "constant" -> {<<S.eta, S.eta + 1>>}
    [] S.style = "decay" -> {<<1, Pow(2, u \div (S.eta * S.fids[Top(S) + 1]))>> : u \in {Used(S, H), UsedAtLeast(S, H)}}
    [] S.style = "dynamic" -> IF \E r \in 0..Top(S) : Cardinality({H[i].id : i \in {j \in Finished(H) : H[j].rung = r}}) >= S.eta THEN {} ELSE {<<S.eta, S.eta + 1>>}
\* the loss of a configuration is that at the highest fidelity that it has got to
LossOf(H, id) == H[CHOOSE i \in Finished(H) : H[i].id = id /\ H[i].rung = Reached(H, id, FALSE)].loss
\* what may be drawn with which shares (millionths); inc = 0 if it is not to be used yet
Close(x, y) == Abs(x - y) <= 20
Mix(R) ==
  LET S == R.s
      H == R.h
      w == R.w
      rnd == RandomShare(S, R.rung)
      rest == 1000000 - Ppm(rnd[1], rnd[2])
      pp == PriorPart(S, H)
  IN {c \in {"sum", "random", "incumbent", "prior", "which"} :
     CASE c = "sum" -> ~Close(w.random + w.prior + w.inc, 1000000) \/ w.random < 0 \/ w.prior < 0 \/ w.inc < 0
       [] c = "random" -> ~Close(w.random, Ppm(rnd[1], rnd[2]))
       [] c = "incumbent" -> R.active \notin Active(S, H) \/ (~R.active /\ w.inc # 0)
       [] c = "prior" -> R.active /\ pp # {} /\ ~\E f \in pp : Abs(w.prior - ((rest \div 1000) * Ppm(f[1], f[2])) \div 1000) <= 2000
       [] c = "which" -> R.active /\ \E x \in Ids(H) \ Going(H) : R.inc # x /\ LossOf(H, x) < LossOf(H, R.inc)}
-----------------------------------------------------------------------------
Judge(R) == CASE R.kind = "density" -> Density(R)
              [] R.kind = "normal" -> Density(R) \cup Normal(R)
              [] R.kind = "whole" -> Whole(R)
              [] R.kind = "narrower" -> Narrower(R)
              [] R.kind = "joint" -> Joint(R)
              [] R.kind = "draws" -> Draws(R)
              [] R.kind = "steers" -> Steers(R)
              [] R.kind = "first" -> First(R)
              [] R.kind = "mix" -> Mix(R)
              [] R.kind = "failed" -> {"failed"}
=============================================================================
