---------------------------- MODULE TraceSession ----------------------------
(* Judges recorded sessions: every event is one action, and what the real   *)
(* process showed (to the evaluation, to listeners, outside) is what the    *)
(* specification shows in that state.                                       *)
EXTENDS Session, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
T == Traces[tid].ev
R == T[l + 1]
TraceInit == /\ tid \in DOMAIN Traces /\ l = 0
             /\ run = NoRun /\ now = NoId /\ cfgs = [r \in 1..2 |-> <<>>] /\ told = Nowhere /\ marks = 0
\* inside an evaluation
Sees == /\ R.trial = now /\ R.state = run
        /\ R.dir \in {Dir, <<-1, "">>}          \* <<-1, "">>: the function does not ask for it
        /\ R.prev \in {PrevDir, <<-1, "">>}
        /\ R.init = InitialDir /\ R.init2 = InitialDir
        /\ R.ck = Checkpoint
        /\ R.given = R.stored /\ R.disk = "evaluating"
Act == CASE R.k = "run" -> Start(R.r)
         [] R.k = "begin" -> Begin(R.id, R.p)
         [] R.k = "look" -> Sees /\ UNCHANGED vars
         [] R.k = "save" -> Save(R.n)
         [] R.k = "end" -> End(R.how) /\ R.told = told'
         [] R.k = "interrupt" -> Interrupt
         [] R.k = "return" -> Return
         [] R.k = "outside" -> run = NoRun /\ R.trial = NoId /\ R.cfgs = [r \in 1..2 |-> [k \in DOMAIN cfgs[r] |-> <<cfgs[r][k].id, cfgs[r][k].prev, cfgs[r][k].state>>]]
                               /\ UNCHANGED vars
         [] OTHER -> FALSE
TraceNext == l < Len(T) /\ Act /\ l' = l + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Track == IF TLCGet(tid) >= l THEN TRUE ELSE TLCSet(tid, l)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0)
Post == JsonSerialize(IOEnv.VERDICTS, [i \in DOMAIN Traces |->
           [i |-> i, reached |-> TLCGet(i), len |-> Len(Traces[i].ev), bad |-> 0]])
=============================================================================
