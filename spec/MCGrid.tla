------------------------------- MODULE MCGrid -------------------------------
EXTENDS Grid, TLC
Axis(n) == [k |-> "cat", n |-> n, from |-> <<>>, to |-> <<>>, pos |-> [i \in 1..n |-> i - 1]]
VARIABLES axes, over
Init == axes \in {<<Axis(2), Axis(2)>>, <<Axis(3), Axis(1), Axis(2)>>, <<Axis(5)>>} /\ handed = <<>> /\ over = FALSE
Next == \/ \E p \in Points(axes) : Ask(axes, p) /\ UNCHANGED <<axes, over>>
        \/ Refuse(axes) /\ over' = TRUE /\ UNCHANGED axes
Spec == Init /\ [][Next]_<<handed, axes, over>> /\ WF_<<handed, axes, over>>(Next)
Complete == over => SeqSet(handed) = Points(axes)
Ends == <>over
ASSUME AxisOK(Axis(3)) /\ ~AxisOK([Axis(3) EXCEPT !.pos = <<0, 1, 1>>])
Fl(n, p) == [k |-> "float", n |-> n, pos |-> p, from |-> [i \in DOMAIN p |-> p[i] - 2], to |-> [i \in DOMAIN p |-> p[i] + 2]]
ASSUME AxisOK(Fl(3, <<0, 500000, 1000000>>)) /\ ~AxisOK(Fl(3, <<0, 333333, 1000000>>)) /\ ~AxisOK(Fl(3, <<0, 500000>>)) /\ AxisOK(Fl(1, <<0>>))
Two == [k |-> "int", n |-> 4, pos |-> <<0, 1000000>>, from |-> <<-2, 499998>>, to |-> <<500002, 1000002>>]
ASSUME AxisOK(Two) /\ ~AxisOK([Two EXCEPT !.pos = <<0>>, !.from = <<-2>>, !.to = <<500002>>])
=============================================================================
