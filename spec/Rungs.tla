------------------------------- MODULE Rungs -------------------------------
(***************************************************************************)
(* Successive halving, Hyperband and their asynchronous variants.          *)
(*                                                                         *)
(* A multi-fidelity run evaluates configurations on a ladder of fidelities *)
(* (rungs 0..Top, a factor eta apart, the highest one the full fidelity).  *)
(* Every request for a configuration is answered either by promoting a     *)
(* finished configuration to the next rung or by a new configuration at a  *)
(* lowest rung; requests never wait.                                       *)
(*                                                                         *)
(*   sync:  configurations belong, in order of their numbers, to brackets; *)
(*          a bracket of kind s starts with Size(s, s) configurations at   *)
(*          rung s; when a rung is full and finished its best 1/eta are    *)
(*          promoted, best first; the oldest bracket has priority.         *)
(*   async: whenever at least eta finished configurations rest at a rung   *)
(*          the best of them can be promoted, highest rung first.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES conf, \* conf[c+1]: [rung, run: is it being evaluated, loss: by rung], for every configuration
          par   \* [mode, eta, lo, hi, s, all, skip]: bounds of the fidelity, early stopping rate,
                \* whether all brackets are cycled (Hyperband), whether number 0 is outside (evaluated at full fidelity)
vars == <<conf, par>>
Par == par.p
INF == 1000000  \* failed

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
TopOf(P) == CHOOSE k \in 0..40 : P.lo * Pow(P.eta, k) <= P.hi /\ P.lo * Pow(P.eta, k + 1) > P.hi
\* fidelity of a rung (integers), or of a rung in units of hi / eta^Top (reals)
FidOf(P, top, r) == IF P.real THEN P.hi * Pow(P.eta, r) ELSE P.hi \div Pow(P.eta, top - r)
\* number of configurations of a bracket of kind s that reach rung r
SizeOf(P, top, s, r) == (((top + 1) \div (top - s + 1)) * Pow(P.eta, top - s)) \div Pow(P.eta, r - s)
KindOf(P, top, b) == IF P.all THEN b % (top + 1) ELSE P.s
\* what follows from the parameters; brackets 0 .. MAXB - 1 are considered
MAXB == 60
Derived(P) ==
  LET top == TopOf(P)
      size == [s \in 0..top |-> [r \in s..top |-> SizeOf(P, top, s, r)]]
      RECURSIVE Ends(_, _, _)
      Ends(b, start, seq) == IF b = MAXB THEN Append(seq, start)
                             ELSE Ends(b + 1, start + size[KindOf(P, top, b)][KindOf(P, top, b)], Append(seq, start))
  IN [p |-> P, top |-> top, size |-> size, fid |-> [r \in 0..top |-> FidOf(P, top, r)], start |-> Ends(0, P.skip, <<>>)]
Top == par.top
Fid(r) == par.fid[r]
Size(s, r) == par.size[s][r]
Kinds == IF Par.all THEN 0..Top ELSE {Par.s}
Kind(b) == KindOf(Par, Top, b)
Start(b) == par.start[b + 1]
Count == Len(conf)
Conf(c) == conf[c + 1]
Rung(c) == Conf(c).rung
Loss(c) == Conf(c).loss[Len(Conf(c).loss)]
\* bracket b owns the numbers Start(b) .. Start(b+1)-1
Own(b) == {c \in 0..(Count - 1) : Start(b) <= c /\ c < Start(b + 1)}
Full(b) == Count >= Start(b + 1)
Reached(b, r) == {c \in Own(b) : Rung(c) >= r}
At(b, r) == {c \in Own(b) : Rung(c) = r}
Best(S) == {c \in S : \A d \in S : Loss(c) <= Loss(d)}
Promotable(b, r) ==
  /\ Full(b) /\ Kind(b) <= r /\ r < Top
  /\ Cardinality(Reached(b, r)) = Size(Kind(b), r)
  /\ \A c \in At(b, r) : ~Conf(c).run
  /\ Cardinality(Reached(b, r + 1)) < Size(Kind(b), r + 1)
\* the bracket that receives the next new configuration
Filling == CHOOSE b \in 0..(MAXB - 1) : Start(b) <= Count /\ Count < Start(b + 1)
Ready(r) == {c \in 0..(Count - 1) : Rung(c) = r /\ ~Conf(c).run /\ ~(Par.skip = 1 /\ c = 0)}

New(r) == [c |-> Count, r |-> r, prev |-> -1]
Up(c) == [c |-> c, r |-> Rung(c) + 1, prev |-> Rung(c)]
First == IF Count = 0 /\ Par.skip = 1 THEN {New(Top)} ELSE {}
SyncAnswers ==
  LET open == {b \in 0..Filling : \E r \in 0..(Top - 1) : Promotable(b, r)}
  IN IF open = {} THEN {New(Kind(Filling))}
     ELSE LET b == CHOOSE x \in open : \A y \in open : x <= y
              r == CHOOSE x \in 0..(Top - 1) : Promotable(b, x) /\ \A y \in 0..(Top - 1) : Promotable(b, y) => y <= x
          IN {Up(c) : c \in Best(At(b, r))}
AsyncAnswers ==
  UNION {LET open == {r \in s..(Top - 1) : Cardinality(Ready(r)) >= Par.eta}
         IN IF open = {} THEN {New(s)}
            ELSE LET r == CHOOSE x \in open : \A y \in open : y <= x
                 IN {Up(c) : c \in Best(Ready(r))} : s \in Kinds}
\* the answers to a request, and what they do
Answers == IF First # {} THEN First ELSE IF Par.mode = "sync" THEN SyncAnswers ELSE AsyncAnswers
Ask(a) ==
  /\ a \in Answers
  /\ conf' = IF a.prev = -1 THEN Append(conf, [rung |-> a.r, run |-> TRUE, loss |-> <<>>])
             ELSE [conf EXCEPT ![a.c + 1].rung = a.r, ![a.c + 1].run = TRUE]
  /\ UNCHANGED par
\* losses in units; INF for a failed evaluation
Done(c, l) ==
  /\ Conf(c).run
  /\ conf' = [conf EXCEPT ![c + 1].run = FALSE, ![c + 1].loss = Append(@, l)]
  /\ UNCHANGED par
Init(P) == conf = <<>> /\ par = Derived(P)
-----------------------------------------------------------------------------
\* loss of c at rung r: a configuration starts at rung rung+1-Len(loss) (or one less loss if running)
At0(c) == Rung(c) + 1 - Len(Conf(c).loss) - (IF Conf(c).run THEN 1 ELSE 0)
LossAt(c, r) == Conf(c).loss[r - At0(c) + 1]
Has(c, r) == At0(c) <= r /\ r - At0(c) + 1 \in DOMAIN Conf(c).loss
Brackets == {b \in 0..(MAXB - 1) : Start(b) < Count}
\* a request always has an answer, and never one that runs already or skips a rung
Live == Answers # {}
Sane == \A a \in Answers : /\ a.r <= Top
                           /\ a.prev >= 0 => ~Conf(a.c).run /\ a.r = a.prev + 1 /\ Has(a.c, a.prev)
Sync == Par.mode = "sync" =>
  \A b \in Brackets : \A r \in Kind(b)..Top :
    /\ Cardinality(Reached(b, r)) <= Size(Kind(b), r)
    \* who was promoted did at least as well as who was not
    /\ r < Top => \A c \in Reached(b, r + 1), d \in At(b, r) : Has(d, r) => LossAt(c, r) <= LossAt(d, r)
    /\ r < Top /\ Reached(b, r + 1) # {} => Cardinality(Reached(b, r)) = Size(Kind(b), r)
\* whoever was promoted asynchronously left at least eta - 1 behind, none better
Async == (Par.mode = "async" /\ ~Par.all) =>
  \A r \in Par.s..(Top - 1) : {c \in 0..(Count - 1) : Rung(c) > r /\ c >= Par.skip} # {} =>
     Cardinality({c \in 0..(Count - 1) : Rung(c) = r /\ ~Conf(c).run}) >= Par.eta - 1
=============================================================================
