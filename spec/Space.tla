-------------------------------- MODULE Space --------------------------------
(***************************************************************************)
(* What a proposed configuration has to look like, given the declared      *)
(* space.  Numbers are represented by their ranks among the numbers that   *)
(* matter in one observation (bounds, default, proposed value), choices by *)
(* their position (-1: not one of the choices, by value and type).         *)
(*                                                                         *)
(*  parameter [n: name, k: float | int | cat | const, fid, lo, hi: rank or *)
(*             number of the last choice, d: rank of the default or -1]    *)
(*  value     [n: name, t: type, r: rank or position]                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
SeqSet(s) == {s[i] : i \in DOMAIN s}
Param(R, n) == CHOOSE p \in SeqSet(R.ps) : p.n = n
TypeOK(p, v) == CASE p.k = "float" -> v.t = "float"
                  [] p.k = "int" -> v.t = "int"
                  [] OTHER -> v.r >= 0
BoundsOK(p, v) == CASE p.k \in {"float", "int"} -> p.lo <= v.r /\ v.r <= p.hi
                    [] p.k = "cat" -> v.r <= p.hi
                    [] p.k = "const" -> v.r = 0
\* multi-fidelity searchers choose the fidelity (Rungs.tla says which), all others use the full one
FidelityOK(R, p, v) == (p.fid /\ R.rule = "max") => v.r = p.hi
\* the first configuration of a searcher told to start with the defaults
DefaultOK(R, p, v) == (R.first /\ p.d >= 0 /\ ~p.fid) => v.r = p.d
Broken(R) ==
  IF ~R.answered THEN {"no answer"} ELSE
  {c \in {"names", "type", "bounds", "fidelity", "default", "identity", "predecessor"} :
    CASE c = "names" -> {v.n : v \in SeqSet(R.vs)} # {p.n : p \in SeqSet(R.ps)} \/ Len(R.vs) # Len(R.ps)
      [] c = "type" -> \E v \in SeqSet(R.vs) : \E p \in SeqSet(R.ps) : p.n = v.n /\ ~TypeOK(p, v)
      [] c = "bounds" -> \E v \in SeqSet(R.vs) : \E p \in SeqSet(R.ps) : p.n = v.n /\ ~BoundsOK(p, v)
      [] c = "fidelity" -> \E v \in SeqSet(R.vs) : \E p \in SeqSet(R.ps) : p.n = v.n /\ ~FidelityOK(R, p, v)
      [] c = "default" -> \E v \in SeqSet(R.vs) : \E p \in SeqSet(R.ps) : p.n = v.n /\ ~DefaultOK(R, p, v)
      [] c = "identity" -> ~R.fresh
      [] c = "predecessor" -> ~R.prev}
\* How often each of equally large parts of a parameter's range was drawn: n draws, k parts.
\* Seven standard deviations: wrong once in 10^11 for a correct sampler.
Drawn(R) ==
  LET k == Len(R.cells)
      D(i) == R.cells[i] * k - R.n
      most(i) == \A j \in DOMAIN R.cells : R.cells[i] >= R.cells[j]
  IN {c \in {"uniform", "prior", "confidence", "reach"} :
       CASE c = "uniform" -> R.way = "uniform" /\ \E i \in DOMAIN R.cells : D(i) * D(i) > 49 * R.n * k
         [] c = "prior" -> R.way = "prior" /\ ~(most(R.at) /\ D(R.at) > 0)
         [] c = "confidence" -> R.way = "confidence" /\ \E i \in 1..(k - 1) : R.cells[i] >= R.cells[i + 1]
         [] c = "reach" -> R.way = "reach" /\ \E i \in DOMAIN R.cells : R.cells[i] = 0}
Judge(R) == IF R.kind = "config" THEN Broken(R) ELSE Drawn(R)
=============================================================================
