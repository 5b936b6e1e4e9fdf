-------------------------------- MODULE Vec --------------------------------
(* The dynamic array: NV array variables, each an abstract sequence of values.
   One action per public member; the value 0 is the default-constructed element. *)
EXTENDS Common
CONSTANTS NV, Vals, MaxLen, Depth

Vs == 0..(NV - 1)
VecInit == [i \in Vs |-> <<>>]

(* Next abstract state after operation o in state v. *)
Apply(v, o) ==
    CASE o.k = "new"     -> [v EXCEPT ![o.a] = Const(o.n, 0)]
      [] o.k = "newv"    -> [v EXCEPT ![o.a] = Const(o.n, o.x)]
      [] o.k = "list"    -> [v EXCEPT ![o.a] = o.xs]                  \* construct from list
      [] o.k = "range"   -> [v EXCEPT ![o.a] = o.xs]                  \* construct from pointers
      [] o.k = "copy"    -> [v EXCEPT ![o.a] = v[o.b]]                \* copy construction
      [] o.k = "move"    -> [v EXCEPT ![o.a] = v[o.b], ![o.b] = <<>>] \* move construction, a # b
      [] o.k = "asgn"    -> [v EXCEPT ![o.a] = v[o.b]]
      [] o.k = "masgn"   -> IF o.a = o.b THEN v
                            ELSE [v EXCEPT ![o.a] = v[o.b], ![o.b] = <<>>]
      [] o.k = "lasgn"   -> [v EXCEPT ![o.a] = o.xs]                  \* assignment from list
      [] o.k = "assign"  -> [v EXCEPT ![o.a] = o.xs]                  \* assignment from range
      [] o.k \in {"push", "pushm", "emplace"} -> [v EXCEPT ![o.a] = Append(v[o.a], o.x)]
      [] o.k \in {"pushself", "emplself"} -> [v EXCEPT ![o.a] = Append(v[o.a], v[o.a][o.i + 1])]
      [] o.k = "pop"     -> [v EXCEPT ![o.a] = SubSeq(v[o.a], 1, Len(v[o.a]) - 1)]
      [] o.k = "resize"  -> [v EXCEPT ![o.a] = IF o.n <= Len(v[o.a]) THEN SubSeq(v[o.a], 1, o.n)
                                               ELSE v[o.a] \o Const(o.n - Len(v[o.a]), 0)]
      [] o.k = "reserve" -> v
      [] o.k = "clear"   -> [v EXCEPT ![o.a] = <<>>]
      [] o.k = "set"     -> [v EXCEPT ![o.a][o.i + 1] = o.x]
      [] o.k = "cmp"     -> v
      [] o.k = "ends"    -> v
      [] o.k = "end"     -> VecInit

(* Documented preconditions. *)
Pre(v, o) ==
    CASE o.k = "pop" -> Len(v[o.a]) > 0
      [] o.k = "ends" -> Len(v[o.a]) > 0
      [] o.k \in {"pushself", "emplself", "set"} -> o.i < Len(v[o.a])
      [] o.k \in {"move"} -> o.a # o.b
      [] o.k \in {"new", "newv"} -> o.n > 0
      [] OTHER -> TRUE

(* Result of the call. *)
Result(v, o) ==
    CASE o.k = "cmp" ->
           LET l == v[o.a] r == v[o.b] IN
           <<l = r, l # r, LexLess(l, r), LexLess(r, l), ~LexLess(r, l), ~LexLess(l, r)>>
      [] o.k = "ends" -> <<v[o.a][1], v[o.a][Len(v[o.a])]>>
      [] OTHER -> <<>>

(* ---- the operation alphabet used for exhaustive exploration ---- *)
Lists == {<<x>> : x \in Vals} \cup {<<1, 2, 1>>}
AllOps ==
    [k : {"new", "resize", "reserve"}, a : Vs, n : {1, 3}]
    \cup [k : {"resize"}, a : Vs, n : {0}]
    \cup [k : {"newv"}, a : Vs, n : {2}, x : {1}]
    \cup [k : {"lasgn", "assign"}, a : Vs, xs : {<<1, 2, 1>>, <<2>>}]
    \cup [k : {"copy", "move", "asgn", "masgn", "cmp"}, a : Vs, b : Vs]
    \cup [k : {"push", "pushm", "emplace"}, a : Vs, x : {2}]
    \cup [k : {"pushself", "emplself"}, a : Vs, i : {0, 1}]
    \cup [k : {"pop", "clear", "ends"}, a : Vs]
    \cup [k : {"set"}, a : Vs, i : {0}, x : {1}]

VARIABLES vec, hist
vars == <<vec, hist>>
Init == vec = VecInit /\ hist = <<>>
Do(o) == /\ Pre(vec, o)
         /\ vec' = Apply(vec, o)
         /\ \A i \in Vs : Len(vec'[i]) <= MaxLen
         /\ hist' = Append(hist, o)
Next == Len(hist) < Depth /\ \E o \in AllOps : Do(o)
Spec == Init /\ [][Next]_vars

(* ---- design invariants ---- *)
TypeOK == /\ DOMAIN vec = Vs
          /\ \A i \in Vs : /\ Len(vec[i]) <= MaxLen
                           /\ \A j \in 1..Len(vec[i]) : vec[i][j] \in Vals \cup {0}
(* Ordering is a total order consistent with equality. *)
OrderOK == \A i, j \in Vs :
    LET l == vec[i] r == vec[j] IN
    /\ ~(LexLess(l, r) /\ LexLess(r, l))
    /\ (~LexLess(l, r) /\ ~LexLess(r, l)) <=> (l = r)
(* An operation changes only the arrays it names. *)
FrameOK == [][LET o == hist'[Len(hist')] IN
              \A i \in Vs : (i # o.a /\ (~Has(o, "b") \/ i # o.b)) => vec'[i] = vec[i]]_vars
(* Printing complete behaviours for replay. *)
Emit == Len(hist) = Depth => PrintT("BEHAVIOUR " \o ToJson(hist))
View == vec
=============================================================================
