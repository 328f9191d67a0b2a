---------------------------- MODULE MCSurrogate ----------------------------
(* Evaluations are started, continued at the next rung, and end in any order *)
(* and in any way, while what a model may learn from them is followed.       *)
EXTENDS Surrogate, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, Init0, Fids, Losses, Costs
CostsC == {-1, 2}
CostsD == {2}
Fids3 == <<1, 3, 9>>
VARIABLE h
Tops == Len(Fids) - 1
Modes == {[mode |-> m, fids |-> Fids, init |-> Init0] : m \in {"rung", "joint"}}
Init == h = <<>>
New == [cfg |-> Cardinality(Cfgs(h)), rung |-> 0, st |-> "open", loss |-> 0, cost |-> -1]
Start == Len(h) < MaxLen /\ h' = Append(h, New)
Continue == /\ Len(h) < MaxLen
            /\ \E c \in Cfgs(h) : LET i == Latest(h, c) IN
                 h[i].st = "ok" /\ h[i].rung < Tops /\ h' = Append(h, [New EXCEPT !.cfg = c, !.rung = h[i].rung + 1])
End == \E i \in Open(h) : \/ \E l \in Losses, k \in Costs : h' = [h EXCEPT ![i].st = "ok", ![i].loss = l, ![i].cost = k]
                          \/ h' = [h EXCEPT ![i].st = "failed"]
Next == Start \/ Continue \/ End
Spec == Init /\ [][Next]_h
List(S) == [k \in 1..Cardinality(S) |-> CHOOSE i \in S : Cardinality({j \in S : j <= i}) = k]
Of(S) == [k \in DOMAIN List(S) |-> h[List(S)[k]].cfg]
FillOf == CHOOSE l \in {h[i].loss : i \in Usable(h)} : Middle(h, l)
-----------------------------------------------------------------------------
\* one fidelity (continuations play no part)
IdealOne == LET p == Phase(h, Init0) IN
  [kind |-> "one", h |-> h, init |-> Init0, phase |-> p, point |-> Len(h) + 1, costs |-> "used",
   train |-> IF p # "model" THEN <<>> ELSE [k \in DOMAIN List(Done(h)) |-> LET i == List(Done(h))[k] IN [cfg |-> h[i].cfg, y |-> IF h[i].st = "ok" THEN h[i].loss ELSE FillOf]],
   pending |-> IF p # "model" THEN <<>> ELSE Of(Open(h)),
   paid |-> [k \in DOMAIN List(Priced(h)) |-> [cfg |-> h[List(Priced(h))[k]].cfg, y |-> h[List(Priced(h))[k]].cost]]]
Flat == \A i \in DOMAIN h : h[i].rung = 0
\* there is always exactly one thing to do, and a model has something to learn from
Learnable == Phase(h, Init0) = "model" => Usable(h) # {} /\ Open(h) \cup Done(h) = DOMAIN h /\ Usable(h) \subseteq Done(h)
\* a failure is neither better than the best nor worse than the worst
FailsInside == Usable(h) # {} => \A l \in -3..5 : Middle(h, 1000 * l) => 1000 * l >= Min({h[i].loss : i \in Usable(h)}) /\ 1000 * l <= Max({h[i].loss : i \in Usable(h)})
OneAccepts == Flat =>
  LET R == IdealOne IN
  /\ One(R) = {}
  /\ (R.phase = "model" =>
        /\ \A k \in DOMAIN R.train : "learn" \in One([R EXCEPT !.train = RemoveAt(R.train, k)])
        /\ \A k \in DOMAIN R.train : h[R.train[k].cfg + 1].st = "ok" => "learn" \in One([R EXCEPT !.train[k].y = @ + 1000])
        /\ (Open(h) # {} => "pending" \in One([R EXCEPT !.pending = <<>>]) /\ "learn" \in One([R EXCEPT !.train = Append(R.train, [cfg |-> h[Min(Open(h))].cfg, y |-> 1000])]))
        /\ \A k \in DOMAIN R.paid : "costs" \in One([R EXCEPT !.paid = RemoveAt(R.paid, k)])
        /\ One([R EXCEPT !.phase = "random"]) = {"phase"})
  /\ (R.phase = "design" => One([R EXCEPT !.point = @ + 1]) = {"design"})
-----------------------------------------------------------------------------
\* many fidelities
IdealMany(s, on) == [kind |-> "many", s |-> s, h |-> h, model |-> on, expo |-> -1,
  train |-> IF ~on THEN <<>> ELSE [k \in DOMAIN List(TrainSet(s, h)) |-> [cfg |-> h[List(TrainSet(s, h))[k]].cfg, y |-> h[List(TrainSet(s, h))[k]].loss]],
  pending |-> IF ~on THEN <<>> ELSE Of(PendingSet(s, h))]
Decided == \A s \in Modes : Decides(s, h) # {} /\ (Open(h) = {} /\ (\A i \in DOMAIN h : h[i].st = "ok") => Cardinality(Decides(s, h)) = 1)
\* nothing is learnt from what failed or is not finished, and there are enough to learn from
Enough == \A s \in Modes : TRUE \in Decides(s, h) =>
   /\ TrainSet(s, h) \subseteq Usable(h) /\ TrainSet(s, h) \cap PendingSet(s, h) = {}
   /\ (s.mode = "rung" => Cardinality(TrainSet(s, h)) >= s.init)
   /\ TrainSet(s, h) # {}
ManyAccepts == \A s \in Modes : \A on \in Decides(s, h) :
  LET R == IdealMany(s, on) IN
  /\ Many(R) = {}
  /\ (Cardinality(Decides(s, h)) = 1 => Many([R EXCEPT !.model = ~on]) = {"phase"})
  /\ (on => /\ \A k \in DOMAIN R.train : "learn" \in Many([R EXCEPT !.train = RemoveAt(R.train, k)])
            /\ (PendingSet(s, h) # {} => "pending" \in Many([R EXCEPT !.pending = <<>>]))
            /\ LET u == Spent(s, h, Done(h)) IN u[1] > 0 =>
                  LET e == (10000 * Top(s)) \div u[2] IN
                  PriorExponent(s, h, e) /\ ~PriorExponent(s, h, e \div 4) /\ ~PriorExponent(s, h, ((10000 * Top(s)) \div u[1]) * 4))
\* the rung of the model rises, and never falls
Rises == [][\A s \in Modes : Active(s, h') >= Active(s, h)]_h
\* without failures on the way, what has been spent is never forgotten
Kept == [][\A s \in Modes : Spent(s, h', Usable(h'))[2] >= Spent(s, h, Usable(h))[2]]_h
-----------------------------------------------------------------------------
\* what is said about weights is not empty
Fade(n, d) == [k \in 1..n |-> 1000 \div (1 + ((k - 1) * k) \div d)]
ASSUME Decay([e |-> Fade(40, 2)]) = {} /\ Decay([e |-> [k \in 1..40 |-> 1000]]) # {} /\ Decay([e |-> [k \in 1..40 |-> 0]]) # {} /\ Decay([e |-> [k \in 1..40 |-> 500 + k]]) # {}
ASSUME Longer([few |-> Fade(10, 2), many |-> Fade(10, 4)]) = {} /\ Longer([few |-> Fade(10, 4), many |-> Fade(10, 2)]) # {} /\ Longer([few |-> Fade(10, 4), many |-> Fade(10, 4)]) # {}
Rows == << [w |-> 700, lp |-> 1000, lc |-> 600], [w |-> -1150, lp |-> -500, lc |-> 1800] >>
ASSUME LET R == [rows |-> Rows, e |-> 1000, a |-> 500] IN
  /\ Weighs([R EXCEPT !.rows[2].w = -1400]) = {} /\ Weighs([R EXCEPT !.rows[2].w = -1400, !.e = 0]) # {}
  /\ Weighs([R EXCEPT !.rows[2].w = -1400, !.a = 0]) # {} /\ Weighs([R EXCEPT !.rows[2].w = -1400, !.a = -500]) # {}
ASSUME CostShare(25, 100) = 750 /\ CostShare(0, 7) = 1000 /\ CostShare(7, 7) = 0
-----------------------------------------------------------------------------
(* Histories to be asked about: every way in which five evaluations of one   *)
(* fidelity can have gone.                                                   *)
Fates == {"open", "ok", "failed"}
Histories == [1..5 -> Fates]
Settings == {[space |-> s, prior |-> p, cost |-> c] : s \in {"float", "mixed", "choices", "many"}, p \in BOOLEAN, c \in BOOLEAN}
Searches == {[name |-> n, mode |-> m, workers |-> w, fails |-> f, start |-> i] :
               n \in {"MOBSTER", "PriorBand", "PriorBandAsha", "PriorBandAshaHB"}, m \in {"rung", "joint"}, w \in {1, 3}, f \in {0, 20}, i \in {1, 3}}
Post == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [histories |-> SetToSeq(Histories), settings |-> SetToSeq(Settings), searches |-> SetToSeq(Searches)])
=============================================================================
