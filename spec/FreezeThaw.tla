----------------------------- MODULE FreezeThaw -----------------------------
(***************************************************************************)
(* Freeze-thaw optimisation (ifBO): every configuration is evaluated step  *)
(* by step, each step continuing the one before it at a fidelity that is   *)
(* higher by the step size, until the highest fidelity is reached.  After  *)
(* an initial design of new configurations every request is answered by    *)
(* whatever the model prefers: a further step of a configuration that is   *)
(* not being evaluated right now, or the first step of a new one.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES conf, \* conf[c+1]: seq of steps, [run: is it being evaluated, score: what the model is told (millionths)]
          par   \* [lo, hi, step: of the fidelity, init: size of the initial design]
vars == <<conf, par>>
ONE == 1000000
\* steps are numbered from 0; the lowest fidelity is raised such that they end at the highest
Last(P) == (P.hi - P.lo) \div P.step
Fid(P, s) == P.hi - (Last(P) - s) * P.step
Count == Len(conf)
Steps(c) == conf[c + 1]
Top(c) == Len(Steps(c)) - 1
Running(c) == \E i \in DOMAIN Steps(c) : Steps(c)[i].run
Thawable == {c \in 0..(Count - 1) : ~Running(c) /\ Top(c) < Last(par)}
New == [c |-> Count, s |-> 0, prev |-> -1]
Next1(c) == [c |-> c, s |-> Top(c) + 1, prev |-> Top(c)]
Possible == IF Count < par.init THEN {New} ELSE {New} \cup {Next1(c) : c \in Thawable}
\* pref[c+1]: how much the model likes to continue c; pnew: how much a new one
Liking(a, pref, pnew) == IF a.prev = -1 THEN pnew ELSE pref[a.c + 1]
Best(pref, pnew) == {a \in Possible : \A b \in Possible : Liking(a, pref, pnew) >= Liking(b, pref, pnew)}
Ask(a) == /\ conf' = IF a.prev = -1 THEN Append(conf, <<[run |-> TRUE, score |-> -1]>>)
                     ELSE [conf EXCEPT ![a.c + 1] = Append(@, [run |-> TRUE, score |-> -1])]
          /\ UNCHANGED par
\* loss in millionths; a failure without a value counts as the worst loss
Done(c, loss) == /\ c \in 0..(Count - 1) /\ Steps(c)[Len(Steps(c))].run
                 /\ conf' = [conf EXCEPT ![c + 1][Len(Steps(c))] = [run |-> FALSE, score |-> ONE - loss]]
                 /\ UNCHANGED par
Init(P) == conf = <<>> /\ par = P
-----------------------------------------------------------------------------
(* What the model is told before an answer: rows [c, b, y, h] with budget   *)
(* b, score y and encoded values h (numbers of distinct ones).  Every step  *)
(* is there once, with its score if there is one; budgets grow with the     *)
(* steps, are the same for all configurations and end at 1.                 *)
Rank(rows, i) == Cardinality({j \in DOMAIN rows : rows[j].c = rows[i].c /\ rows[j].b < rows[i].b})
Told(rows) ==
  /\ Len(rows) = LET RECURSIVE Sum(_) Sum(n) == IF n = 0 THEN 0 ELSE Sum(n - 1) + Len(conf[n]) IN Sum(Count)
  /\ \A i \in DOMAIN rows :
       LET c == rows[i].c
           s == Rank(rows, i)
       IN /\ c \in 0..(Count - 1) /\ s <= Top(c)
          /\ Steps(c)[s + 1].run \/ rows[i].y - Steps(c)[s + 1].score \in -2..2
          /\ rows[i].b > 0 /\ (rows[i].b = ONE <=> s = Last(par))
  /\ \A i, j \in DOMAIN rows :
       /\ (Rank(rows, i) = Rank(rows, j)) <=> (rows[i].b = rows[j].b)
       /\ rows[i].c = rows[j].c => (rows[i].h = rows[j].h /\ (i # j => rows[i].b # rows[j].b))
-----------------------------------------------------------------------------
FidInside == \A c \in 0..(Count - 1) : \A i \in DOMAIN Steps(c) : Fid(par, i - 1) \in par.lo..par.hi
OneAtATime == \A c \in 0..(Count - 1) : \A i \in 1..(Len(Steps(c)) - 1) : ~Steps(c)[i].run
Ladder == /\ Fid(par, Last(par)) = par.hi /\ Fid(par, 0) - par.lo \in 0..(par.step - 1)
          /\ \A s \in 1..Last(par) : Fid(par, s) - Fid(par, s - 1) = par.step
NeverWaits == Possible # {}
Design == Count < par.init => \A c \in 0..(Count - 1) : Top(c) = 0
Thaws == [][\A c \in 0..(Count - 1) : Len(conf'[c + 1]) - Len(conf[c + 1]) \in {0, 1}
              /\ (Len(conf'[c + 1]) # Len(conf[c + 1]) => ~Running(c) /\ Count >= par.init)]_vars
=============================================================================
