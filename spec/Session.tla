------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* One process that calls neps.run again and again, on one or several run  *)
(* directories, and what the evaluation function is given and may ask for  *)
(* in the middle of an evaluation.                                         *)
(*                                                                         *)
(* A directory is <<run, id>>.  Every evaluation may leave a checkpoint, a *)
(* number that is new in the whole session, in its own directory.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES run,    \* the run directory in use, NoRun outside of neps.run
          now,    \* the configuration being evaluated, NoId outside of evaluations
          cfgs,   \* run -> sequence of [id, prev, state, ck]
          told,   \* the last end of an evaluation that was announced to the listeners
          marks   \* checkpoints written so far
vars == <<run, now, cfgs, told, marks>>
NoRun == 0
NoId == ""
Nowhere == <<0, "">>
SeqSet(s) == {s[i] : i \in DOMAIN s}
Ids(r) == {c.id : c \in SeqSet(cfgs[r])}
Cfg(r, i) == CHOOSE c \in SeqSet(cfgs[r]) : c.id = i
Index(r, i) == CHOOSE k \in DOMAIN cfgs[r] : cfgs[r][k].id = i
RECURSIVE First(_, _)
First(r, i) == IF Cfg(r, i).prev = NoId THEN i ELSE First(r, Cfg(r, i).prev)

\* what is visible at any moment
TrialInProgress == IF now = NoId THEN NoId ELSE now
StateInUse == run
Dir == <<run, now>>
PrevDir == IF Cfg(run, now).prev = NoId THEN Nowhere ELSE <<run, Cfg(run, now).prev>>
InitialDir == <<run, First(run, now)>>
Checkpoint == IF Cfg(run, now).prev = NoId THEN 0 ELSE Cfg(run, Cfg(run, now).prev).ck

Start(r) == run = NoRun /\ run' = r /\ UNCHANGED <<now, cfgs, told, marks>>
Begin(i, p) ==
  /\ run # NoRun /\ now = NoId /\ i \notin Ids(run) /\ i # NoId
  /\ p = NoId \/ (p \in Ids(run) /\ Cfg(run, p).state \in {"success", "crashed"})
  /\ cfgs' = [cfgs EXCEPT ![run] = Append(@, [id |-> i, prev |-> p, state |-> "evaluating", ck |-> 0])]
  /\ now' = i /\ UNCHANGED <<run, told, marks>>
Save(n) == /\ now # NoId /\ n = marks + 1 /\ marks' = n
           /\ cfgs' = [cfgs EXCEPT ![run][Index(run, now)].ck = n] /\ UNCHANGED <<run, now, told>>
\* an evaluation ends by returning or by raising an error
End(how) == /\ now # NoId /\ how \in {"success", "crashed"}
            /\ cfgs' = [cfgs EXCEPT ![run][Index(run, now)].state = how]
            /\ told' = Dir /\ now' = NoId /\ UNCHANGED <<run, marks>>
\* the process is interrupted (Ctrl-C, exit): the evaluation is lost, the session is not
Interrupt == now # NoId /\ now' = NoId /\ run' = NoRun /\ UNCHANGED <<cfgs, told, marks>>
Return == run # NoRun /\ now = NoId /\ run' = NoRun /\ UNCHANGED <<now, cfgs, told, marks>>

-----------------------------------------------------------------------------
OneAtATime == \A r \in DOMAIN cfgs : \A c \in SeqSet(cfgs[r]) :
                (r = run /\ c.id = now) => c.state = "evaluating"
Inside == now # NoId => run # NoRun /\ now \in Ids(run)
\* lineages stay within the run and lead back to a configuration without predecessor
Lineage == \A r \in DOMAIN cfgs : \A k \in DOMAIN cfgs[r] :
             cfgs[r][k].prev # NoId => \E j \in 1..(k - 1) : cfgs[r][j].id = cfgs[r][k].prev
OwnMark == \A r, s \in DOMAIN cfgs : \A k \in DOMAIN cfgs[r], j \in DOMAIN cfgs[s] :
             (cfgs[r][k].ck # 0 /\ cfgs[r][k].ck = cfgs[s][j].ck) => (r = s /\ k = j)
=============================================================================
