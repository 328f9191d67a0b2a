-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Grid search.  An axis is the sequence of levels of one parameter.       *)
(* A level is given by the part of the parameter's range that rounds to it *)
(* (in millionths of the range, on the logarithm for log parameters), its  *)
(* first and last point; pos says where it is: 0 the lowest, Unit the      *)
(* highest value of the parameter.                                         *)
(*   [k: float | int | cat | const, n: levels asked for (numeric) or       *)
(*    number of choices, pos, from, to]                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE handed  \* the grid points handed out, in their order
Unit == 1000000
Ideal(i, n) == IF n = 1 THEN 0 ELSE (i * Unit) \div (n - 1)
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
At(a, j, x) == a.from[j] <= x /\ x <= a.to[j]
AxisOK(a) ==
  CASE a.k \in {"cat", "const"} -> Len(a.pos) = a.n /\ \A i \in 1..a.n : \E j \in 1..a.n : a.pos[j] = i - 1
    [] OTHER ->
        /\ Increasing(a.pos) /\ Len(a.pos) <= a.n
        /\ a.k = "float" => Len(a.pos) = a.n
        /\ a.n > 1 => (a.pos[1] = 0 /\ a.pos[Len(a.pos)] = Unit)
        \* every level is where it should be, and every level that should be there is
        /\ \A j \in DOMAIN a.pos : \E i \in 0..(a.n - 1) : At(a, j, Ideal(i, a.n))
        /\ \A i \in 0..(a.n - 1) : \E j \in DOMAIN a.pos : At(a, j, Ideal(i, a.n))
Points(axes) == {p \in [DOMAIN axes -> 1..5] : \A i \in DOMAIN axes : p[i] <= Len(axes[i].pos)}  \* (small axes only)
RECURSIVE Size(_, _)
Size(axes, i) == IF i = 0 THEN 1 ELSE Len(axes[i].pos) * Size(axes, i - 1)
InGrid(axes, p) == Len(p) = Len(axes) /\ \A i \in DOMAIN axes : p[i] \in 1..Len(axes[i].pos)
SeqSet(s) == {s[i] : i \in DOMAIN s}
Ask(axes, p) == InGrid(axes, p) /\ p \notin SeqSet(handed) /\ handed' = Append(handed, p)
Refuse(axes) == Len(handed) = Size(axes, Len(axes)) /\ UNCHANGED handed
Once == \A i, j \in DOMAIN handed : handed[i] = handed[j] => i = j
=============================================================================
