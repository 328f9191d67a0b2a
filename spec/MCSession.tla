----------------------------- MODULE MCSession -----------------------------
(* All short sessions.  hist is the script that leads to a state: the calls *)
(* of neps.run and the fates of the evaluations, replayed by the harness.   *)
EXTENDS Session, TLC, Json, IOUtils, SequencesExt
CONSTANTS Runs, MaxRuns, MaxEv
VARIABLE hist
Init == run = NoRun /\ now = NoId /\ cfgs = [r \in Runs |-> <<>>] /\ told = Nowhere /\ marks = 0 /\ hist = <<>>
Total == LET Sum[k \in 0..Len(hist)] == IF k = 0 THEN 0 ELSE Len(hist[k].ends) + Sum[k - 1] IN Sum[Len(hist)]
Name == <<"1", "2", "3", "4", "5", "6">>
Fate(f) == hist' = [hist EXCEPT ![Len(hist)].ends = Append(@, f)]
Next ==
  \/ \E r \in Runs : /\ Len(hist) < MaxRuns /\ (hist = <<>> => r = 1)
                     /\ (hist # <<>> => hist[Len(hist)].ends # <<>>)
                     /\ Start(r) /\ hist' = Append(hist, [r |-> r, ends |-> <<>>])
  \/ /\ run # NoRun /\ Total < MaxEv /\ UNCHANGED hist
     /\ \E p \in {NoId} \cup (IF run = NoRun THEN {} ELSE Ids(run)) :
          \* without loss of generality: the predecessor is the latest configuration that can be one
          /\ p # NoId => \A c \in SeqSet(cfgs[run]) : Index(run, c.id) > Index(run, p) => c.state = "evaluating"
          /\ Begin(Name[Len(cfgs[run]) + 1], p)
  \/ now # NoId /\ Cfg(run, now).ck = 0 /\ Save(marks + 1) /\ UNCHANGED hist
  \/ End("success") /\ Fate("ok")
  \/ End("crashed") /\ Fate("fail")
  \/ Interrupt /\ Fate("int")
  \/ Return /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<vars, hist>>
ASSUME TLCSet(1, {})
Collect == IF run = NoRun /\ now = NoId /\ hist # <<>> /\ hist[Len(hist)].ends # <<>> THEN TLCSet(1, TLCGet(1) \cup {hist}) ELSE TRUE
Post == JsonSerialize(IOEnv.OUT, SetToSeq(TLCGet(1)))
=============================================================================
