-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* A shared, versioned resource and the handles through which workers use  *)
(* it.  A handle remembers the version and the data it saw last.  Every    *)
(* operation is atomic, because it holds the lock of the resource; a       *)
(* handle may also keep the lock over several operations (acquire).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS None
VARIABLES ver,    \* 0: the resource does not exist
          val,    \* its data
          clock,  \* the last version handed out; versions are never reused
          hnd,    \* hnd[h] = [v, d]: version and data seen last, v = 0 if never opened
          lock,   \* the handle that holds the lock, or 0
          out     \* the outcome of the last operation
vars == <<ver, val, clock, hnd, lock, out>>
Handles == DOMAIN hnd

Keep == UNCHANGED <<ver, val, clock, hnd, lock>>
Ret(x, d) == out' = [r |-> x, d |-> d]
Blocked(h) == lock # 0 /\ Ret("locked", None) /\ Keep
Write(h, d) == /\ clock' = clock + 1 /\ ver' = clock + 1 /\ val' = d
               /\ hnd' = [hnd EXCEPT ![h] = [v |-> clock + 1, d |-> d]]
               /\ UNCHANGED lock
See(h) == /\ hnd' = [hnd EXCEPT ![h] = [v |-> ver, d |-> val]]
          /\ UNCHANGED <<ver, val, clock, lock>>

\* create the resource, which must not exist
New(h, d) == IF lock # 0 THEN Blocked(h)
             ELSE IF ver # 0 THEN Ret("exists", None) /\ Keep
             ELSE Write(h, d) /\ Ret("ok", None)
Load(h) == IF lock # 0 THEN Blocked(h)
           ELSE IF ver = 0 THEN Ret("missing", None) /\ Keep
           ELSE See(h) /\ Ret("ok", val)
NewOrLoad(h, d) == IF lock # 0 THEN Blocked(h)
                   ELSE IF ver = 0 THEN Write(h, d) /\ Ret("ok", d)
                   ELSE See(h) /\ Ret("ok", val)
\* the newest data
Get(h) == /\ hnd[h].v # 0
          /\ IF lock # 0 THEN Blocked(h)
             ELSE IF ver = 0 THEN Ret("removed", None) /\ Keep
             ELSE See(h) /\ Ret("ok", val)
\* what the handle saw last, without looking
Peek(h) == hnd[h].v # 0 /\ Ret("ok", hnd[h].d) /\ Keep
Stale(h) == hnd[h].v # 0 /\ Ret(IF hnd[h].v # ver THEN "yes" ELSE "no", None) /\ Keep
IsLocked(h) == hnd[h].v # 0 /\ Ret(IF lock # 0 THEN "yes" ELSE "no", None) /\ Keep
\* compare and set
Put(h, d) == /\ hnd[h].v # 0
             /\ IF lock # 0 THEN Blocked(h)
                ELSE IF hnd[h].v # ver THEN Ret("mismatch", None) /\ Keep
                ELSE Write(h, d) /\ Ret("ok", None)
Acquire(h) == /\ hnd[h].v # 0
              /\ IF lock # 0 THEN Blocked(h)
                 ELSE IF ver = 0 THEN Ret("removed", None) /\ Keep
                 ELSE /\ hnd' = [hnd EXCEPT ![h] = [v |-> ver, d |-> val]]
                      /\ lock' = h /\ Ret("ok", val) /\ UNCHANGED <<ver, val, clock>>
\* put by the holder of the lock
PutHeld(h, d) == lock = h /\ Write(h, d) /\ Ret("ok", None)
Release(h) == lock = h /\ lock' = 0 /\ Ret("ok", None) /\ UNCHANGED <<ver, val, clock, hnd>>
\* somebody deletes the resource
Remove == lock = 0 /\ ver # 0 /\ ver' = 0 /\ Ret("ok", None) /\ UNCHANGED <<val, clock, hnd, lock>>
-----------------------------------------------------------------------------
\* a handle that has the current version has the current data
Coherent == \A h \in Handles : hnd[h].v # 0 /\ hnd[h].v = ver => hnd[h].d = val
\* a write is never based on outdated data: the writer had the version it replaces
NoLostUpdate == [][ver' # ver /\ ver # 0 /\ ver' # 0 => \E h \in Handles : hnd[h].v = ver /\ hnd'[h].v = ver']_vars
\* nobody writes while somebody else holds the lock
Exclusive == [][lock # 0 /\ ver' # ver => hnd'[lock].v = ver']_vars
Monotone == [][clock' >= clock /\ (ver' # 0 => ver' >= ver)]_vars
=============================================================================
