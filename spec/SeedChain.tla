----------------------------- MODULE SeedChain -----------------------------
(***************************************************************************)
(* What a searcher proposes is decided by the run (its random stream and   *)
(* its results), not by the process that happens to ask.                   *)
(*                                                                         *)
(* The run owns one random stream.  Configuration k of an undisturbed run  *)
(* is "draw" k, made at position k-1 of the stream.  A sampling worker     *)
(* makes the next draw, publishes the configuration and stores the new     *)
(* position, in one critical section.  A worker that dies inside of it may *)
(* have done only a part: the draw is then repeated or skipped, or the     *)
(* stored position is torn and the stream continues anywhere.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pos,     \* stored position of the stream, TORN if it is unusable as a reference
          draws,   \* draws[k]: which draw the k-th configuration of the run is
          busy,    \* the worker inside the critical section, 0 if none
          half,    \* what it has done: "none", "published", "stored"
          killed   \* number of workers that died inside (history)
vars == <<pos, draws, busy, half, killed>>
TORN == -1
Free == busy = 0
Last(s) == s[Len(s)]

Enter(w) == Free /\ busy' = w /\ half' = "none" /\ UNCHANGED <<pos, draws, killed>>
Publish(w, d) ==
  /\ busy = w /\ half \in {"none", "stored"}
  /\ IF half = "stored" THEN pos = TORN \/ d = pos
     ELSE pos = TORN \/ d = pos + 1
  /\ draws' = Append(draws, d)
  /\ IF half = "stored" THEN busy' = 0 /\ half' = "none" ELSE half' = "published" /\ UNCHANGED busy
  /\ UNCHANGED <<pos, killed>>
Store(w, p) ==
  /\ busy = w /\ half \in {"none", "published"}
  /\ IF half = "published" THEN pos = TORN \/ p = Last(draws)
     ELSE pos = TORN \/ p = pos + 1
  /\ pos' = p
  /\ IF half = "published" THEN busy' = 0 /\ half' = "none" ELSE half' = "stored" /\ UNCHANGED busy
  /\ UNCHANGED <<draws, killed>>
\* a worker that dies while storing leaves the old position, the new one or a mixture
Die(w, p) ==
  /\ busy = w
  /\ p = pos \/ p = TORN
  /\ pos' = p /\ busy' = 0 /\ half' = "none" /\ killed' = killed + 1
  /\ UNCHANGED draws

-----------------------------------------------------------------------------
\* nobody died: the run is the undisturbed one
Undisturbed == killed = 0 => \A k \in DOMAIN draws : draws[k] = k
\* one death repeats or skips at most one draw (unless it tore the position)
Bounded == (pos # TORN /\ \A k \in DOMAIN draws : draws[k] > 0) =>
             \A k \in DOMAIN draws : draws[k] - k <= killed /\ k - draws[k] <= killed
Consistent == (Free /\ killed = 0) => pos = Len(draws)
=============================================================================
