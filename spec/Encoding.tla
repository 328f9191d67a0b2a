------------------------------ MODULE Encoding ------------------------------
(***************************************************************************)
(* How values of parameters are represented as numbers: every value has a  *)
(* position between 0 and 1, from the lower to the upper bound, on the     *)
(* scale of the parameter.  Searchers work on positions and bring them     *)
(* back to values.                                                         *)
(*                                                                         *)
(* A domain [k, n] is                                                      *)
(*   steps    n evenly spaced values, numbered from 0: integers, bins,     *)
(*            choices                                                      *)
(*   cont     all numbers between two bounds, evenly or on a log scale     *)
(*   logint   n integers on a log scale: of their positions only the order *)
(*            and some (powers of the same base) are easy to tell          *)
(* Positions are fractions <<num, den>>, or millionths where observed.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
SeqSet(s) == {s[i] : i \in DOMAIN s}
Least(a, b) == IF a <= b THEN a ELSE b
\* the step that a position belongs to: all of them get equal shares
Step(num, den, n) == Least((num * n) \div den, n - 1)
\* exactly between two steps (as far as a computer can tell) it may be either
Steps(num, den, n) == {Step(num, den, n)} \cup
   (IF (num * n) % den = 0 /\ num # 0 /\ num # den THEN {Step(num, den, n), (num * n) \div den - 1} ELSE {})
Ppm(num, den) == (num * 1000000) \div den
Near(p, num, den) == p - Ppm(num, den) \in -2..2
Legal(d, l) == l \in 0..(d.n - 1)
-----------------------------------------------------------------------------
(* A value is brought from domain to domain: seen[i] is what it is in      *)
(* doms[i]: step l, or position p.  at is its position before.             *)
RECURSIVE WalkBad(_, _, _)
WalkBad(doms, seen, at) ==
  IF doms = <<>> THEN {}
  ELSE LET d == Head(doms)
           o == Head(seen)
       IN CASE d.k = "steps" -> IF ~Legal(d, o.l) THEN {"outside"}
                                ELSE IF o.l \notin Steps(at[1], at[2], d.n) THEN {"step"}
                                ELSE WalkBad(Tail(doms), Tail(seen), <<o.l, d.n - 1>>)
            [] d.k = "cont" -> IF ~o.inside THEN {"outside"}
                               ELSE IF ~Near(o.p, at[1], at[2]) THEN {"position"}
                               ELSE WalkBad(Tail(doms), Tail(seen), at)
-----------------------------------------------------------------------------
(* All values of a domain encoded and decoded again, in their order:       *)
(* rows [u: millionths, r: rank of the exact position, back: step]         *)
Scale(rows) ==
  {c \in {"order", "back", "range"} :
     CASE c = "order" -> \E i \in 1..(Len(rows) - 1) : rows[i].r >= rows[i + 1].r
       [] c = "back" -> \E i \in DOMAIN rows : rows[i].back # i - 1
       [] c = "range" -> \E i \in DOMAIN rows : rows[i].u \notin 0..1000000}
\* the positions themselves, where the ends are the bounds
Exact(d, rows) ==
  {c \in {"ends", "position"} :
     CASE c = "ends" -> rows[1].u # 0 \/ rows[Len(rows)].u # 1000000
       [] c = "position" -> d.k # "logint" /\ \E i \in DOMAIN rows : ~Near(rows[i].u, i - 1, Len(rows) - 1)}
\* positions (2j - 1) / 2M brought to values: steps lv[j]
Lift(d, lv) ==
  LET M == Len(lv) IN
  {c \in {"outside", "order", "share", "reach"} :
     CASE c = "outside" -> \E j \in DOMAIN lv : ~Legal(d, lv[j])
       [] c = "order" -> \E j \in 1..(M - 1) : lv[j] > lv[j + 1]
       [] c = "share" -> d.k = "steps" /\ \E j \in DOMAIN lv : lv[j] \notin Steps(2 * j - 1, 2 * M, d.n)
       [] c = "reach" -> SeqSet(lv) # 0..(d.n - 1)}
\* points of a log scale: powers b^0 .. b^m are evenly spaced
Powers(rows) == {c \in {"position", "back"} :
     CASE c = "position" -> \E i \in DOMAIN rows : ~Near(rows[i].u, i - 1, Len(rows) - 1)
       [] c = "back" -> \E i \in DOMAIN rows : ~rows[i].back}
-----------------------------------------------------------------------------
(* Whole configurations: doms of the parameters (in their order), in and   *)
(* out: steps or points of all configurations before and after, u: the     *)
(* encoding (millionths, or numbers of choices where num = FALSE), alone:  *)
(* the same, had each configuration been encoded by itself, rest: whether  *)
(* constants, and nothing else, came with it                               *)
Config(R) ==
  {c \in {"back", "encoding", "order", "rest", "shape"} :
     CASE c = "shape" -> Len(R.out) # Len(R.in) \/ Len(R.u) # Len(R.in) \/ \E i \in DOMAIN R.u : Len(R.u[i]) # Len(R.doms)
       [] c = "back" -> R.out # R.in
       [] c = "encoding" -> \E i \in DOMAIN R.u : \E k \in DOMAIN R.u[i] :
                              LET d == R.doms[k] IN
                              IF d.num THEN d.k # "logint" /\ ~Near(R.u[i][k], R.in[i][k], d.n - 1)
                              ELSE R.u[i][k] # R.in[i][k] * 1000000
       [] c = "order" -> R.alone # R.u
       [] c = "rest" -> ~R.rest}
Judge(R) ==
  IF R.kind = "failed" THEN {R.what}
  ELSE CASE R.kind = "walk" -> WalkBad(R.doms, R.seen, R.at)
         [] R.kind = "norm" -> Scale(R.rows)
         [] R.kind = "exact" -> Scale(R.rows) \cup Exact(R.dom, R.rows)
         [] R.kind = "lift" -> Lift(R.dom, R.lv)
         [] R.kind = "powers" -> Powers(R.rows)
         [] R.kind = "config" -> Config(R)
=============================================================================
