------------------------------- MODULE PostMC -------------------------------
(* Region growing on all subsets of a small grid, visited in every order. *)
EXTENDS Post
CONSTANTS NX, NY
VARIABLES m, left, R
Id(x, y) == y * (NX + 1) + x
Grid == [i \in 1..((NX + 1) * (NY + 1)) |-> <<((i - 1) % (NX + 1)) * 16, ((i - 1) \div (NX + 1)) * 16>>]
Cell(k) == LET x == (k - 1) % NX y == (k - 1) \div NX IN <<Id(x, y), Id(x + 1, y), Id(x + 1, y + 1), Id(x, y + 1)>>
Mesh0(P) == [ty |-> 4, v |-> Grid, f |-> [k \in 1..(NX * NY) |-> Cell(k)], p |-> P]
Init == \E S \in SUBSET (1..(NX * NY)) :
    /\ S # {} /\ m = Mesh0([k \in 1..(NX * NY) |-> IF k \in S THEN k ELSE 0]) /\ left = S /\ R = {}
Next == \E i \in left : left' = left \ {i} /\ R' = Visit(m, R, i) /\ m' = m
Spec == Init /\ [][Next]_<<m, left, R>>
Partition == UNION R = Powered(m) \ left /\ \A a, b \in R : a # b => a \cap b = {}
Apart == \A a, b \in R : a # b => \A i \in a, j \in b : ~Touch(m, i, j)
RECURSIVE Reach(_, _)
Reach(S, T) == LET N == {j \in T : \E i \in S : Touch(m, i, j)} IN IF N \subseteq S THEN S ELSE Reach(S \cup N, T)
Joined == \A r \in R : Reach({Min(r)}, r) = r
OrderFree == left = {} => R = Regions(m)
Conserved == left = {} => FoldSet(LAMBDA r, a : a + RegionPower6(m, r), 0, R) = SumSeq([i \in Cells(m) |-> m.p[i] * Area6(4, Pts(m, i))])
Emit == (R = {}) => PrintT("BEHAVIOUR " \o ToJson(<<[k |-> "pow", m |-> m]>>))
=============================================================================
