------------------------------ MODULE OrderMC ------------------------------
(* All arrays up to MaxLen over 0..MaxVal under every operation; all coordinates of W bits. *)
EXTENDS Order
CONSTANTS MaxLen, MaxVal, W
VARIABLES s, hist
Arrays == UNION {[1..n -> 0..MaxVal] : n \in 1..MaxLen}
Perms(n) == {p \in [1..n -> 0..(n - 1)] : IsPerm(p, n)}
First == UNION {{[k |-> k, a |-> a] : a \in Arrays} : k \in {"isort", "sperm"}}
         \cup {[k |-> "sort3", a |-> a] : a \in [1..3 -> 0..2]}
         \cup {[k |-> "sort4", a |-> a] : a \in [1..4 -> 0..3]}
         \cup {[k |-> "setp", p |-> p] : p \in UNION {Perms(n) : n \in 1..MaxLen}}
Coord == SUBSET (0..(W - 1))
Morton == {[k |-> "enc", u |-> "u32", x |-> x] : x \in (Coord \X Coord) \cup (Coord \X Coord \X Coord)}
Init == s = OInit /\ hist = <<>>
Next ==
    \/ hist = <<>> /\ \E o \in First : hist' = <<o>> /\
          IF o.k = "sperm" THEN \E p \in Perms(Len(o.a)) : Sorts(p, o.a) /\ s' = p ELSE s' = OApply(s, o)
    \/ hist = <<>> /\ \E o \in Morton : hist' = <<o>> /\ s' = s
    \/ Len(hist) = 1 /\ s # <<>> /\ hist[1].k \in {"setp", "sperm"}
       /\ hist' = hist \o <<[k |-> "apply", a |-> [i \in 1..Len(s) |-> 10 * i]], [k |-> "invert"],
                            [k |-> "apply", a |-> Permute([i \in 1..Len(s) |-> 10 * i], s)]>>
       /\ s' = InvPerm(s)
Spec == Init /\ [][Next]_<<s, hist>>
SortLaws == hist # <<>> /\ hist[1].k \in {"isort", "sort3", "sort4"} =>
    LET a == hist[1].a IN IsSortedSeq(Sorted(a)) /\ SameElements(a, Sorted(a))
PermLaws == Len(s) > 0 =>
    /\ IsPerm(s, Len(s)) /\ InvPerm(InvPerm(s)) = s
    /\ Permute(Permute([i \in 1..Len(s) |-> i], s), InvPerm(s)) = [i \in 1..Len(s) |-> i]
    /\ (Len(hist) = 1 /\ hist[1].k = "sperm") => Permute(hist[1].a, s) = Sorted(hist[1].a)
MortonLaws == hist # <<>> /\ hist[1].k = "enc" =>
    LET x == hist[1].x D == Len(x) IN
    /\ \A i \in 1..D : Axis(Weave(x), D, i) = x[i]
    /\ D = 2 => \A y \in Coord \X Coord : CodeLess(Weave(x), Weave(y)) = ZLess(x, y)
    /\ D = 3 => \A y \in {<<x[2], x[3], x[1]>>, <<x[3], x[2], x[1]>>, <<x[1], {}, x[2]>>} : CodeLess(Weave(x), Weave(y)) = ZLess(x, y)
Emit == (hist # <<>> /\ (hist[1].k \in {"isort", "sort3", "sort4", "enc"} \/ Len(hist) > 1)) => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
