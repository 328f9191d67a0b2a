------------------------------ MODULE MCPrior ------------------------------
(* Configurations are sampled, evaluated, and continued at the next rung by  *)
(* several workers, while the mixture of samples is followed.                *)
EXTENDS Prior, TLC, Json, IOUtils, SequencesExt
CONSTANTS Eta, Fids, Cost, MaxIds, Workers, Losses
Fids2 == <<1, 2>>
Fids3 == <<1, 3, 9>>
VARIABLE h
S(w, s) == [eta |-> Eta, fids |-> Fids, cost |-> Cost, weight |-> w, style |-> s]
Weights == {"geometric", "linear", "50-50"}
Styles == {"constant", "decay", "dynamic"}
Rungs == 0..(Len(Fids) - 1)
Init == h = <<>>
Sample == /\ Cardinality(Going(h)) < Workers /\ Cardinality(Ids(h)) < MaxIds
          /\ h' = Append(h, [id |-> Cardinality(Ids(h)), rung |-> 0, loss |-> 0, open |-> TRUE])
Promote == /\ Cardinality(Going(h)) < Workers
           /\ \E x \in Ids(h) \ Going(h) : Reached(h, x, FALSE) < Len(Fids) - 1
                 /\ h' = Append(h, [id |-> x, rung |-> Reached(h, x, FALSE) + 1, loss |-> 0, open |-> TRUE])
Finish == \E i \in DOMAIN h : h[i].open /\ \E l \in Losses : h' = [h EXCEPT ![i].open = FALSE, ![i].loss = l]
Next == Sample \/ Promote \/ Finish
Spec == Init /\ [][Next]_h
\* either it is known whether the incumbent is used, or a configuration is on its way up
Decided == \A w \in Weights : Active(S(w, "constant"), h) # {} /\ (Going(h) = {} => Cardinality(Active(S(w, "constant"), h)) = 1)
\* the best one is one that has finished
HasBest == TRUE \in Active(S("linear", "constant"), h) => \E x \in Ids(h) : Reached(h, x, FALSE) >= 0
\* what the description says is accepted, and anything else is not
Ideal(w, s, r, on) ==
  LET st == S(w, s)
      rnd == Ppm(RandomShare(st, r)[1], RandomShare(st, r)[2])
      f == IF PriorPart(st, h) = {} THEN <<1, 2>> ELSE CHOOSE f \in PriorPart(st, h) : TRUE
      p == IF on THEN (((1000000 - rnd) \div 1000) * Ppm(f[1], f[2])) \div 1000 ELSE 1000000 - rnd
      best == IF Ids(h) \ Going(h) = {} THEN CHOOSE x \in {-1} \cup Ids(h) : x = -1 \/ Reached(h, x, FALSE) >= 0
              ELSE CHOOSE x \in Ids(h) \ Going(h) : \A y \in Ids(h) \ Going(h) : LossOf(h, x) <= LossOf(h, y)
  IN [kind |-> "mix", s |-> st, h |-> h, rung |-> r, w |-> [random |-> rnd, prior |-> p, inc |-> 1000000 - rnd - p], active |-> on, inc |-> best]
Accepts == \A w \in Weights : \A s \in Styles : \A r \in Rungs : \A on \in Active(S(w, s), h) :
   LET R == Ideal(w, s, r, on) IN
   /\ Mix(R) = {}
   /\ "random" \in Mix([R EXCEPT !.w.random = R.w.random + 1000, !.w.prior = R.w.prior - 1000])
   /\ (Cardinality(Active(S(w, s), h)) = 1 => "incumbent" \in Mix([R EXCEPT !.active = ~on]))
   /\ (on /\ PriorPart(S(w, s), h) # {} => "prior" \in Mix([R EXCEPT !.w.inc = R.w.inc + 5000, !.w.prior = R.w.prior - 5000]))
\* the higher the rung, the less is drawn uniformly
ASSUME \A w \in {"geometric", "linear"} : \A r \in Rungs \ {0} :
   LET a == RandomShare(S(w, "constant"), r - 1)
       b == RandomShare(S(w, "constant"), r)
   IN b[1] * a[2] < a[1] * b[2]
\* nothing that has been spent is forgotten: without workers the incumbent stays in use
Stays == [][Going(h) = {} /\ Going(h') = {} /\ Active(S("linear", "constant"), h) = {TRUE} => Active(S("linear", "constant"), h') = {TRUE}]_h
Grows == [][Used(S("linear", "constant"), h') >= Used(S("linear", "constant"), h)]_h
-----------------------------------------------------------------------------
Where == [low |-> 0, quarter |-> 250, middle |-> 500, high |-> 1000]
Grid == [i \in 1..21 |-> (i - 1) * 50]
IdealBell(def, sigma) == [k |-> "num", def |-> def, sigma |-> sigma, rows |-> [i \in DOMAIN Grid |-> [at |-> Grid[i], d |-> 700 - (1000 * Abs(Grid[i] - def) * Abs(Grid[i] - def)) \div (2 * sigma * sigma)]]]
IdealChoice(n, def, gain) == [k |-> "cat", def |-> def, rows |-> [i \in 1..n |-> [at |-> i - 1, d |-> IF i - 1 = def THEN gain - 900 ELSE -900]]]
ASSUME \A e \in Ends : \A sg \in {125, 250, 500, 750} :
   LET b == IdealBell(Where[e], sg) IN
   /\ Density(b) = {} /\ Normal(b) = {} /\ Normal([b EXCEPT !.sigma = sg + 60]) # {}
   /\ Density([b EXCEPT !.def = IF e = "high" THEN 700 ELSE Where[e] + 200]) # {}
   /\ Density([b EXCEPT !.def = -1]) # {}
ASSUME \A n \in 2..5 : \A d \in 0..(n - 1) : Density(IdealChoice(n, d, 400)) = {} /\ Density(IdealChoice(n, d, 0)) # {} /\ Density(IdealChoice(n, d, -400)) # {}
                          /\ Density([IdealChoice(n, d, 0) EXCEPT !.def = -1]) = {}
ASSUME \A e \in Ends : LET R(a, b, c) == [k |-> "num", def |-> Where[e], low |-> IdealBell(Where[e], a).rows, medium |-> IdealBell(Where[e], b).rows, high |-> IdealBell(Where[e], c).rows]
                       IN Narrower(R(500, 250, 125)) = {} /\ Narrower(R(250, 500, 125)) # {} /\ Narrower(R(500, 500, 125)) # {}
ASSUME \A n \in {400, 2000} : \A s \in {20, 100, 250, 500} : Fits(n, s, (n * s) \div 1000) /\ ~Fits(n, s, n - (n \div 20)) /\ ~Fits(n, s + 250, (n * s) \div 1000)
-----------------------------------------------------------------------------
(* Parameters, and searches, to be tried                                    *)
Numbers == {[k |-> k, n |-> 0, def |-> d] : k \in {"float", "logfloat", "int", "logint"}, d \in Ends \cup {"none"}}
ChoiceCases == UNION {{[k |-> "cat", n |-> n, def |-> d] : d \in {"low", "high", "none"}} : n \in 2..5}
Joints == {<<a, b>> : a \in Numbers, b \in ChoiceCases} \cup {<<a, b, c>> : a \in {x \in Numbers : x.def \in {"none", "quarter"}}, b \in {x \in Numbers : x.def = "high"}, c \in {x \in ChoiceCases : x.n = 3}}
Searches == {[eta |-> e, rungs |-> r, weight |-> w, style |-> s, inc |-> i, workers |-> k] :
               e \in {2, 3, 4}, r \in {2, 3}, w \in Weights, s \in Styles, i \in {"hypersphere", "gaussian", "crossover", "mutation"}, k \in {1, 3}}
Post == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [singles |-> SetToSeq(Numbers \cup ChoiceCases), joints |-> SetToSeq(Joints), searches |-> SetToSeq(Searches)])
=============================================================================
