------------------------------ MODULE MCCurve ------------------------------
(* A process that works on two runs, evaluates, logs, is interrupted, and    *)
(* keeps open what it logs to, as a logger does; and the plots of what has   *)
(* been evaluated.  The files must be those of the abstract description.     *)
(* Faults (each must be noticed): "writer" keeps writing to what is open,    *)
(* "graph" keeps the graph of the first run, "wish" keeps the wish for one.  *)
EXTENDS Curve, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxEv, Fault, Losses
VARIABLES es, writer, graphOf, wish, files, graph
vars == <<es, writer, graphOf, wish, files, graph>>
S == After(Fresh, es)
Busy == S.id # ""
Running == S.r # 0
Init == es = <<>> /\ writer = <<>> /\ graphOf = 0 /\ wish = <<>> /\ files = <<>> /\ graph = [r \in 1..2 |-> <<>>]
Add(e) == es' = Append(es, e)
Logs(r) == Len(SelectSeq(es, LAMBDA e : e.k = "log"))
Run == \E r \in 1..2 : ~Busy /\ Add([k |-> "run", r |-> r]) /\ UNCHANGED <<writer, graphOf, wish, files, graph>>
\* a new configuration, or the continuation of one
Begin == \E f \in {ToString(Len(es))} \cup {p.dir : p \in {p \in S.files : p.r = S.r}} :
  Running /\ ~Busy /\ Add([k |-> "begin", id |-> ToString(Len(es)), first |-> f]) /\ UNCHANGED <<writer, graphOf, wish, files, graph>>
Log == \E inc \in BOOLEAN : LET here == <<S.r, S.first>> IN
  /\ Busy
  /\ Add([k |-> "log", step |-> 0, v |-> 1000 * Len(es), extra |-> None, scalar |-> TRUE, hparam |-> FALSE, inc |-> inc])
  /\ IF ~S.on THEN UNCHANGED <<writer, graphOf, wish, files>> ELSE
     /\ wish' = IF inc THEN <<S.r, S.id>> ELSE <<>>
     /\ writer' = IF writer = <<>> \/ Fault # "writer" THEN here ELSE writer
     /\ graphOf' = IF graphOf = 0 \/ Fault # "graph" THEN S.r ELSE graphOf
     /\ files' = Append(files, [r |-> writer'[1], dir |-> writer'[2], tag |-> "loss", step |-> 0, v |-> 1000 * Len(es)])
  /\ UNCHANGED graph
Switch == Busy /\ Add([k |-> IF S.on THEN "off" ELSE "on"]) /\ UNCHANGED <<writer, graphOf, wish, files, graph>>
End == \E how \in {"ok", "failed", "interrupted"}, l \in Losses :
  /\ Busy /\ (how # "ok" => l = Min(Losses))
  /\ Add([k |-> "end", how |-> how, loss |-> l])
  /\ IF how = "interrupted" THEN UNCHANGED <<writer, graph>> /\ wish' = wish ELSE
     /\ writer' = <<>>
     /\ graph' = IF wish # <<>> /\ (wish = <<S.r, S.id>> \/ Fault = "wish") THEN [graph EXCEPT ![graphOf] = Append(@, [step |-> Len(S.done[S.r]), v |-> BestOf(S.done[S.r])])] ELSE graph
     /\ wish' = IF Fault = "wish" THEN wish ELSE <<>>
  /\ UNCHANGED <<graphOf, files>>
Next == Len(es) < MaxEv /\ (Run \/ Begin \/ Log \/ Switch \/ End)
Spec == Init /\ [][Next]_vars
Seen == [kind |-> "board", events |-> es, shown |-> files, graph |-> graph]
Faithful == Board(Seen) = {}
\* nothing that was logged appears twice, in another place, or not at all
Careful == Fault = "none" => /\ (files # <<>> => /\ "logged" \in Board([Seen EXCEPT !.shown = Tail(files)])
                                  /\ "logged" \in Board([Seen EXCEPT !.shown = Append(files, files[1])])
                                  /\ "stray" \in Board([Seen EXCEPT !.shown = Append(files, [files[1] EXCEPT !.tag = "other"])]))
           /\ \A r \in 1..2 : graph[r] # <<>> => "graph" \in Board([Seen EXCEPT !.graph[r] = Tail(@)]) /\ (graph[1] # graph[2] => "graph" \in Board([Seen EXCEPT !.graph = [q \in 1..2 |-> graph[3 - q]]]))
\* the graph never rises
Falls == \A r \in 1..2 : \A i, j \in DOMAIN graph[r] : i < j => graph[r][j].v <= graph[r][i].v
-----------------------------------------------------------------------------
\* curves of all short runs
Evals(n) == {[ok |-> TRUE, crash |-> FALSE, loss |-> l, cost |-> c, prev |-> p, end |-> e] : l \in {1000, 2000}, c \in {1000, 3000}, p \in 0..(n - 1), e \in {1000 * n, 1000 * n + 1500}}
       \cup {[ok |-> FALSE, crash |-> o, loss |-> 1000, cost |-> 1000, prev |-> 0, end |-> 1000 * n] : o \in BOOLEAN}
Good(h) == /\ \A i \in DOMAIN h : h[i].prev > 0 => h[h[i].prev].ok /\ h[h[i].prev].cost < h[i].cost /\ h[h[i].prev].prev = 0 /\ \A j \in DOMAIN h : j # i => h[j].prev # h[i].prev
           /\ \A i, j \in DOMAIN h : i # j => h[i].end # h[j].end
Runs == {h \in {<<a, b, c>> : a \in Evals(1), b \in Evals(2), c \in Evals(3)} : Good(h)}
Axes == {"evaluations", "key", "more", "time"}
Order(Q) == SetToSortSeq(Q, LAMBDA a, b : a < b)
Ideal(h, axis) == LET pl == Places(h, axis) q == Order({pl[i] : i \in Shown(h, axis)}) IN
  [k \in DOMAIN q |-> [x |-> q[k], y |-> LET K == Known(h, pl, q[k]) IN IF K = {} THEN None ELSE Min(K)]]
Rec(h, axis) == [kind |-> "curve", runs |-> <<h>>, axis |-> axis, from |-> -None, to |-> None, tol |-> 0, line |-> Ideal(h, axis)]
Descending == \A h \in Runs, axis \in Axes : LET l == Ideal(h, axis) IN
  /\ \A i, j \in DOMAIN l : i < j => l[j].y <= l[i].y
  /\ (l # <<>> /\ \E i \in DOMAIN h : h[i].ok) => l[Len(l)].y = Min({h[i].loss : i \in {i \in DOMAIN h : h[i].ok}})
  /\ Curve(Rec(h, axis)) = {}
  /\ \A k \in DOMAIN l : "missing" \in Curve([Rec(h, axis) EXCEPT !.line = RemoveAt(l, k)])
  /\ \A k \in DOMAIN l : l[k].y # None => "best" \in Curve([Rec(h, axis) EXCEPT !.line[k].y = @ - 10]) /\ "best" \in Curve([Rec(h, axis) EXCEPT !.line[k].y = @ + 10])
  \* what comes later is not shown earlier
  /\ \A k \in 2..Len(l) : l[k].y # l[k - 1].y => "best" \in Curve([Rec(h, axis) EXCEPT !.line[k - 1].y = l[k].y])
\* on the axis of evaluations the steps of the curve are the incumbents
Agree == \A h \in Runs : LET l == Ideal(h, "evaluations") IN Steps(h) = {i \in DOMAIN l : l[i].y # None /\ (i = 1 \/ l[i - 1].y # l[i].y)}
ASSUME Descending /\ Agree
-----------------------------------------------------------------------------
(* To be done with the real code: sequences of evaluations, and of what one  *)
(* evaluation does.                                                          *)
Fates == {"ok", "crash", "odd", "valued", "open"}
Histories == [1..4 -> Fates]
Deeds == {[logs |-> n, inc |-> i, off |-> o, end |-> e] : n \in 0..3, i \in BOOLEAN, o \in BOOLEAN, e \in {"ok", "failed", "interrupted"}}
Post == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [histories |-> SetToSeq(Histories), deeds |-> SetToSeq(Deeds)])
=============================================================================
