----------------------------- MODULE TrialLife -----------------------------
(***************************************************************************)
(* The life of one configuration, in the memory of its worker and on disk. *)
(* TLC writes all behaviours up to a length, with what a reader must find, *)
(* and they are replayed into the real classes.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Len0   \* length of the behaviours
VARIABLES t, disk, h
None == 0
New == [st |-> "pending", sub |-> FALSE, beg |-> FALSE, by |-> 0, fin |-> FALSE, rep |-> "none"]
Nothing == [New EXCEPT !.st = "missing"]
Rec(op, arg, seen) == h' = Append(h, [op |-> op, arg |-> arg, seen |-> seen])
Change(op, arg, n) == t' = n /\ UNCHANGED disk /\ Rec(op, arg, n)

Submit == t.rep = "none" /\ Change("submit", 0, [t EXCEPT !.st = "submitted", !.sub = TRUE])
Evaluate(w) == t.rep = "none" /\ Change("evaluate", w, [t EXCEPT !.st = "evaluating", !.beg = TRUE, !.by = w])
Complete(k) == /\ t.rep = "none" /\ t.st = "evaluating"
               /\ Change(k, 0, [t EXCEPT !.st = k, !.fin = TRUE, !.rep = k])
\* back to the state after sampling: everything about the evaluation is forgotten
Reset == t.rep = "none" /\ Change("reset", 0, New)
Corrupt == Change("corrupt", 0, [t EXCEPT !.st = "corrupted"])
Save == disk' = t /\ UNCHANGED t /\ Rec("save", 0, t)
Load == UNCHANGED <<t, disk>> /\ Rec("load", 0, disk)
Init == t = New /\ disk = Nothing /\ h = <<>>
Next == /\ Len(h) < Len0
        /\ \/ Submit \/ (\E w \in 1..2 : Evaluate(w)) \/ Reset \/ Corrupt
           \/ (\E k \in {"success", "failed", "crashed"} : Complete(k))
           \/ (Save /\ (h = <<>> \/ h[Len(h)].op # "save"))
           \/ (Load /\ h # <<>> /\ h[Len(h)].op # "load")
Spec == Init /\ [][Next]_<<t, disk, h>>
\* a report exists exactly for finished evaluations (corruption keeps it)
Consistent == /\ (t.st \in {"success", "failed", "crashed"} <=> (t.rep = t.st))
              /\ (t.rep # "none" => t.fin /\ t.beg /\ t.by # 0)
              /\ (t.st = "evaluating" => t.by # 0)
Durable == [][disk.rep # "none" => disk'.rep = disk.rep]_<<t, disk, h>>
\* only the observations matter, so keep behaviours that end with one
Useful == Len(h) = Len0 /\ h[Len0].op = "load"
ASSUME TLCSet(1, <<>>)
Collect == IF Useful THEN TLCSet(1, Append(TLCGet(1), h)) ELSE TRUE
Post == JsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
