------------------------------- MODULE Result -------------------------------
(***************************************************************************)
(* What is recorded for what the evaluation function does: the meaning of  *)
(* its return value or exception.  Numbers are abstract: 0 means "none".   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Forms   == {"number", "dict", "raise", "nothing", "text", "list"}
Losses  == {"number", "absent", "bad"}
Costs   == {"number", "absent", "bad"}
Curves  == {"absent", "top", "info", "bad"}

\* the values the user may give
LOSS == 1  COST == 2  DCOST == 3  ELOSS == 4  ECOST == 5
Cases ==
  {c \in [form : Forms, loss : Losses, cost : Costs, curve : Curves, info : BOOLEAN, extra : BOOLEAN,
          dcost : {0, DCOST}, dcurve : {"none", "loss"}, eloss : {0, ELOSS}, ecost : {0, ECOST}, ecurve : BOOLEAN] :
     /\ c.form # "dict" => c.loss = "number" /\ c.cost = "absent" /\ c.curve = "absent" /\ ~c.info /\ ~c.extra
     /\ c.curve = "info" => c.info
     \* the settings for errors matter for errors, the defaults for results
     /\ c.eloss = 0 \/ c.dcost = 0 \/ c.ecost # 0}

Fails(c) == \/ c.form \in {"raise", "nothing", "text", "list"}
            \/ c.form = "dict" /\ (c.loss # "number" \/ c.cost = "bad" \/ c.curve = "bad")

Expected(c) ==
  IF Fails(c)
  THEN [as |-> "crashed", state |-> "crashed", loss |-> c.eloss, cost |-> c.ecost,
        curve |-> IF c.ecurve THEN "error" ELSE "none", info |-> FALSE, extra |-> FALSE, err |-> TRUE]
  ELSE [as |-> "success", state |-> "success", loss |-> LOSS,
        cost |-> IF c.form = "dict" /\ c.cost = "number" THEN COST ELSE c.dcost,
        curve |-> IF c.form = "dict" /\ c.curve # "absent" THEN "given"
                  ELSE IF c.dcurve = "loss" THEN "loss" ELSE "none",
        info |-> c.form = "dict" /\ c.info, extra |-> c.form = "dict" /\ c.extra, err |-> FALSE]

\* nothing the user returned is dropped, nothing is made up, and a failure never looks like a result
ASSUME \A c \in Cases : LET e == Expected(c) IN
         /\ e.err <=> e.as = "crashed"
         /\ e.as = "success" => e.loss = LOSS
         /\ e.cost \in {0, COST, DCOST, ECOST}
         /\ (e.cost = ECOST => Fails(c)) /\ (e.loss = ELOSS => Fails(c))
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq({[in |-> c, exp |-> Expected(c)] : c \in Cases}))
=============================================================================
