------------------------------ MODULE MCConfigs ------------------------------
EXTENDS Configs, TLC
CONSTANTS MaxObj, Spaces, CS
N(k, hi, f) == [kind |-> k, lo |-> 0, hi |-> hi, fid |-> f]
Space(i) == CASE i = 1 -> <<N("cat", 1, FALSE), N("int", 1, TRUE)>>
              [] i = 2 -> <<N("float", 1, FALSE), N("const", 0, FALSE)>>
              [] i = 3 -> <<N("cat", 1, FALSE), N("int", 1, FALSE)>>
Tokens(p) == IF Const(p) THEN 0..1 ELSE -1..sp[p].hi
\* objects with any values and the beliefs of one of two
Kids(a, b) == {<<[x EXCEPT !.v = v], [y EXCEPT !.v = w]>> : x \in {heap[a][1], heap[b][1]}, y \in {heap[a][2], heap[b][2]}, v \in Tokens(1), w \in Tokens(2)}
One(p) == IF Const(p) THEN {[v |-> x, d |-> x, c |-> "low"] : x \in 0..1}
          ELSE [v : -1..sp[p].hi, d : -1..sp[p].hi, c : CS]
Objects == {<<x, y>> : x \in One(1), y \in One(2)}
Dicts == {{}} \cup {{<<p, v>>} : p \in {1, 2}, v \in 0..1} \cup {{<<1, v>>, <<2, w>>} : v \in {0, 3}, w \in 0..1}
Args == [vals : BOOLEAN, defs : BOOLEAN, conf : CS \cup {"junk"}, nov : BOOLEAN, nod : BOOLEAN, consts : BOOLEAN]
Init == \E i \in Spaces : sp = Space(i) /\ heap \in {<<s>> : s \in {<<x, y>> : x \in {z \in One(1) : Const(1) \/ z.v = -1}, y \in {z \in One(2) : IF Const(2) THEN z.v = 0 ELSE z.v = -1}}}
Room(n) == Len(heap) + n <= MaxObj
Next == \E o \in DOMAIN heap, b \in DOMAIN heap :
  \/ Room(1) /\ Copy(o)
  \/ Room(1) /\ \E n \in Kids(o, b) :
       \/ \E ign \in BOOLEAN : Sample(o, ign, n) \/ \E miss \in BOOLEAN : Default(o, ign, miss, n)
       \/ \E d \in Dicts : Load(o, d, n)
       \/ Mutate(o, n)
  \/ Room(2) /\ \E n \in Kids(o, b), m \in Kids(o, b), how \in {"all", "some", "none"} : Cross(o, b, how, n, m)
  \/ \E p \in P : \E v \in Tokens(p) : SetValue(o, p, v) \/ SetDefault(o, p, v)
  \/ \E p \in P, c \in CS : SetConfidence(o, p, c)
  \/ ToTop(o) \/ ToDefaults(o)
  \/ \E d \in Dicts, A \in Args : SetAll(o, d, A)
Spec == Init /\ [][Next]_vars
\* the default configuration is the same however often it is asked for, and it has the same beliefs
DefaultIsFixed == \A o \in DOMAIN heap : CanDefault(o, FALSE, FALSE) =>
   Cardinality({n \in Kids(o, o) : Fits(n) /\ IsDefault(n, o, FALSE)}) = 1
\* something to mutate to, whenever there is something to mutate
MutantExists == \A o \in DOMAIN heap : CanMutate(o) => \E n \in Kids(o, o) : Fits(n) /\ IsMutant(n, o)
ChildrenExist == \A a, b \in DOMAIN heap : CanCross(a, b) => AreChildren(heap[a], heap[b], a, b, "all")
\* loading what an object says gives that object
LoadBack == \A o \in DOMAIN heap : Complete(o) =>
   LET d == {<<p, heap[o][p].v>> : p \in P} IN CanLoad(o, d) /\ \A n \in Kids(o, o) : IsLoad(n, o, d) <=> n = heap[o]
\* every belief there is comes from an earlier object or was set
Sane == \A a, b \in DOMAIN heap : SameParameters(a, b) => SameValues(a, b, TRUE)
=============================================================================
