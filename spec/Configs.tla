------------------------------- MODULE Configs -------------------------------
(***************************************************************************)
(* The objects that searchers work with: a search space and the            *)
(* configurations made from it.  Every one assigns to each parameter a     *)
(* value or none, a default or none and a confidence in the default; what  *)
(* it may assign is defined once and for all.  New objects are made from   *)
(* others, and some operations change one object; what they do to all the  *)
(* objects there are is said here.                                         *)
(*                                                                         *)
(* Values are numbers (of a categorical, the places of the choices); None  *)
(* is -1.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sp,    \* the definition: sp[p] = [kind, lo, hi, fid]; kind "float", "int", "cat" or "const"
          heap   \* heap[o][p] = [v, d, c]
vars == <<sp, heap>>
None == -1
P == DOMAIN sp
Confs == {"low", "medium", "high"}
Legal(p, v) == IF sp[p].kind = "const" THEN v >= 0 ELSE sp[p].lo <= v /\ v <= sp[p].hi
Const(p) == sp[p].kind = "const"
\* a constant is always its own default
Fits(s) == /\ DOMAIN s = P
           /\ \A p \in P : /\ (s[p].v = None /\ ~Const(p)) \/ Legal(p, s[p].v)
                           /\ (s[p].d = None /\ ~Const(p)) \/ Legal(p, s[p].d)
                           /\ IF Const(p) THEN s[p].d = s[p].v ELSE s[p].c \in Confs
Mutable == {p \in P : ~Const(p) /\ ~sp[p].fid}
Fidelity == {p \in P : sp[p].fid}
\* the beliefs about a parameter are those of x
Believes(y, x) == y.d = x.d /\ y.c = x.c
New(ns) == heap' = heap \o ns /\ UNCHANGED sp
Becomes(o, s) == heap' = [heap EXCEPT ![o] = s] /\ UNCHANGED sp
Refused == UNCHANGED vars
-----------------------------------------------------------------------------
\* what new objects look like; o is the one they are made from
IsSample(n, o, ign) ==
  \A p \in P : /\ Believes(n[p], heap[o][p])
               /\ IF Const(p) \/ (ign /\ sp[p].fid) THEN n[p].v = heap[o][p].v ELSE Legal(p, n[p].v)
\* defaults where there are any
CanDefault(o, ign, miss) == miss \/ \A p \in P : (ign /\ sp[p].fid) \/ heap[o][p].d # None
IsDefault(n, o, ign) == IsSample(n, o, ign) /\ \A p \in P : (ign /\ sp[p].fid) \/ heap[o][p].d = None \/ n[p].v = heap[o][p].d
\* values from a dictionary, a set of <<parameter, value>>
CanLoad(o, dict) == \A x \in dict : x[1] \in P /\ Legal(x[1], x[2]) /\ (Const(x[1]) => x[2] = heap[o][x[1]].v)
IsLoad(n, o, dict) == \A p \in P : /\ Believes(n[p], heap[o][p])
                                   /\ IF \E x \in dict : x[1] = p THEN <<p, n[p].v>> \in dict ELSE n[p].v = heap[o][p].v
\* one of the values is another one
CanMutate(o) == \E p \in Mutable : heap[o][p].v # None
IsMutant(n, o) == \E q \in Mutable : /\ Legal(q, n[q].v) /\ n[q].v # heap[o][q].v /\ heap[o][q].v # None
                                     /\ Believes(n[q], heap[o][q]) /\ \A p \in P \ {q} : n[p] = heap[o][p]
\* one parameter alone; a sample may come to the same value, which is refused
IsOtherOne(x, o, p) == Legal(p, x.v) /\ x.v # heap[o][p].v /\ Believes(x, heap[o][p])
MayFailOnce(o, p, how) == Const(p) \/ sp[p].fid \/ (how = "simple" /\ sp[p].kind \in {"int", "cat"}) \/ (how = "local_search" /\ heap[o][p].v = None)
\* two children; of a crossed categorical one has the choice of one parent and the other that of the other
CanCross(a, b) == \A p \in Mutable : heap[a][p].v # None /\ heap[b][p].v # None
Kept(n, m, a, b, p) == n[p] = heap[a][p] /\ m[p] = heap[b][p]
Crossed(n, m, a, b, p) ==
  /\ heap[a][p].v # None /\ heap[b][p].v # None
  /\ \A k \in {n, m} : Legal(p, k[p].v) /\ \E x \in {a, b} : Believes(k[p], heap[x][p])
  /\ sp[p].kind = "cat" => \/ n[p].v = heap[a][p].v /\ m[p].v = heap[b][p].v
                           \/ n[p].v = heap[b][p].v /\ m[p].v = heap[a][p].v
AreChildren(n, m, a, b, how) ==
  \A p \in P : \/ Kept(n, m, a, b, p) /\ (how = "all" => p \notin Mutable)
               \/ how # "none" /\ p \in Mutable /\ Crossed(n, m, a, b, p)
-----------------------------------------------------------------------------
Copy(o) == New(<<heap[o]>>)
Sample(o, ign, n) == Fits(n) /\ IsSample(n, o, ign) /\ New(<<n>>)
Default(o, ign, miss, n) == CanDefault(o, ign, miss) /\ Fits(n) /\ IsDefault(n, o, ign) /\ New(<<n>>)
Load(o, dict, n) == CanLoad(o, dict) /\ Fits(n) /\ IsLoad(n, o, dict) /\ New(<<n>>)
Mutate(o, n) == CanMutate(o) /\ Fits(n) /\ IsMutant(n, o) /\ New(<<n>>)
Cross(a, b, how, n, m) == (how # "all" \/ CanCross(a, b)) /\ Fits(n) /\ Fits(m) /\ AreChildren(n, m, a, b, how) /\ New(<<n, m>>)
\* one parameter of one object
SetValue(o, p, v) == /\ Legal(p, v) \/ v = None
                     /\ Const(p) => v = heap[o][p].v
                     /\ Becomes(o, [heap[o] EXCEPT ![p].v = v])
SetDefault(o, p, v) == /\ Legal(p, v) \/ v = None
                       /\ Const(p) => v = heap[o][p].d
                       /\ Becomes(o, [heap[o] EXCEPT ![p].d = v])
SetConfidence(o, p, c) == ~Const(p) /\ c \in Confs /\ Becomes(o, [heap[o] EXCEPT ![p].c = c])
\* the highest fidelity
ToTop(o) == Fidelity # {} /\ Becomes(o, [p \in P |-> IF sp[p].fid THEN [heap[o][p] EXCEPT !.v = sp[p].hi] ELSE heap[o][p]])
\* the values become the defaults
ToDefaults(o) == Becomes(o, [p \in P |-> [heap[o][p] EXCEPT !.d = heap[o][p].v]])
\* many parameters at once.  A: what for: [vals, defs, conf, nov (no value first), nod, consts (also constants)]
SetOne(x, p, v, A) ==
  IF Const(p) THEN IF A.consts THEN [x EXCEPT !.v = v, !.d = v] ELSE x
  ELSE [v |-> IF A.vals THEN v ELSE IF A.nov THEN None ELSE x.v,
        d |-> IF A.defs THEN v ELSE IF A.nod THEN None ELSE x.d,
        c |-> IF A.defs THEN A.conf ELSE x.c]
CanSetAll(dict, A) == /\ A.vals \/ A.defs
                      /\ \A x \in dict : x[1] \in P => IF Const(x[1]) THEN ~A.consts \/ (A.vals /\ A.defs)
                                                       ELSE Legal(x[1], x[2]) /\ (A.defs => A.conf \in Confs)
Given(dict, p) == {x \in dict : x[1] = p}
SetAll(o, dict, A) ==
  /\ CanSetAll(dict, A)
  /\ Becomes(o, [p \in P |-> IF Given(dict, p) = {} THEN heap[o][p] ELSE SetOne(heap[o][p], p, (CHOOSE x \in Given(dict, p) : TRUE)[2], A)])
\* refused half way: parameter by parameter as before or as asked for (or with the part of it that came before the refusal)
SetAllRefused(o, dict, A, s) ==
  /\ ~CanSetAll(dict, A) /\ Fits(s)
  /\ \A p \in P : LET g == Given(dict, p) IN
       \/ s[p] = heap[o][p]
       \/ g # {} /\ (A.vals \/ A.defs) /\ LET v == (CHOOSE x \in g : TRUE)[2] IN
            IF Const(p) THEN s[p] = SetOne(heap[o][p], p, v, A)
            ELSE /\ s[p].v \in {heap[o][p].v} \cup (IF A.vals THEN {v} ELSE {}) \cup (IF A.nov THEN {None} ELSE {})
                 /\ s[p].d \in {heap[o][p].d} \cup (IF A.defs THEN {v} ELSE {}) \cup (IF A.nod THEN {None} ELSE {})
                 /\ s[p].c \in {heap[o][p].c} \cup (IF A.defs THEN {A.conf} ELSE {})
  /\ Becomes(o, s)
\* questions
SameValues(a, b, fid) == \A p \in P : (~fid /\ sp[p].fid) \/ heap[a][p].v = heap[b][p].v
SameParameters(a, b) == \A p \in P : heap[a][p] = heap[b][p]
Complete(o) == \A p \in P : heap[o][p].v # None
HasPrior(s) == \E p \in P : ~Const(p) /\ s[p].d # None
-----------------------------------------------------------------------------
AllFit == \A o \in DOMAIN heap : Fits(heap[o])
\* an operation changes one object or makes new ones from those there are, which stay as they are
OneAtATime == [][LET C == {o \in DOMAIN heap : heap'[o] # heap[o]} IN
                   /\ Len(heap') >= Len(heap) /\ Cardinality(C) <= 1 /\ (Len(heap') > Len(heap) => C = {})]_vars
\* constants stay what they are unless they are overwritten in one object; the definition never changes
SameDefinition == [][sp' = sp]_vars
=============================================================================
