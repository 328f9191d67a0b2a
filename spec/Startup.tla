------------------------------ MODULE Startup ------------------------------
(***************************************************************************)
(* How workers find or create a shared run.  A run directory consists of   *)
(* the identity of its searcher and of several shared parts (seed state,   *)
(* error log, optimizer state).  Every worker brings its own identity; it  *)
(* creates what is missing, loads what exists, and refuses to take part if *)
(* the run belongs to a different searcher.  Workers may be killed.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Parts       \* the shared parts apart from the identity
VARIABLES info,       \* 0: no identity yet, otherwise the identity of the run
          part,       \* part[p]: 0 if missing, otherwise its content
          wk,         \* wk[w]: [pc, id]
          creator     \* who created the identity (history)
vars == <<info, part, wk, creator>>

Workers == DOMAIN wk
Goto(w, p) == wk' = [wk EXCEPT ![w].pc = p]

Launch(w) == wk[w].pc = "off" /\ Goto(w, "boot") /\ UNCHANGED <<info, part, creator>>
\* one critical section: create the identity or read it
CreateInfo(w) ==
  /\ wk[w].pc = "boot" /\ info = 0
  /\ info' = wk[w].id /\ creator' = w
  /\ Goto(w, "parts")
  /\ UNCHANGED part
LoadInfo(w) ==
  /\ wk[w].pc = "boot" /\ info # 0
  /\ Goto(w, IF info = wk[w].id THEN "parts" ELSE "refuse")
  /\ UNCHANGED <<info, part, creator>>
CreatePart(w, p, c) ==
  /\ wk[w].pc = "parts" /\ part[p] = 0
  /\ part' = [part EXCEPT ![p] = c]
  /\ UNCHANGED <<info, wk, creator>>
Ready(w) ==
  /\ wk[w].pc = "parts" /\ \A p \in Parts : part[p] # 0
  /\ Goto(w, "ready")
  /\ UNCHANGED <<info, part, creator>>
Exit(w) ==
  /\ wk[w].pc \in {"ready", "refuse"}
  /\ Goto(w, IF wk[w].pc = "ready" THEN "done" ELSE "refused")
  /\ UNCHANGED <<info, part, creator>>
Crash(w) ==
  /\ wk[w].pc \in {"boot", "parts", "ready", "refuse"}
  /\ Goto(w, "dead")
  /\ UNCHANGED <<info, part, creator>>

-----------------------------------------------------------------------------
\* everybody who takes part agrees with the identity of the run
Agree == \A w \in Workers : wk[w].pc \in {"parts", "ready", "done"} => info = wk[w].id
\* nobody is refused without reason
Justified == \A w \in Workers : wk[w].pc \in {"refuse", "refused"} => info # 0 /\ info # wk[w].id
Complete == \A w \in Workers : wk[w].pc \in {"ready", "done"} => \A p \in Parts : part[p] # 0
\* nothing that exists is replaced
Stable == [][/\ info # 0 => info' = info
             /\ \A p \in Parts : part[p] # 0 => part'[p] = part[p]]_vars
=============================================================================
