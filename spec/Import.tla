------------------------------- MODULE Import -------------------------------
(* Importing the fine meshes of all coarse cells from one mesh file.  A document lists points, elements over them, for
   every coarse cell the elements of its set, and the elements of every material set. *)
EXTENDS ModelExport
Pt(d, x) == d.v[x + 1]
(* the boundary of an element as a cycle of points, middle vertices between their corners *)
Cycle(c, P(_)) ==
    IF Len(c) < 5 THEN [i \in 1..Len(c) |-> P(c[i])]
    ELSE LET n == Len(c) \div 2 IN [i \in 1..Len(c) |-> IF i % 2 = 1 THEN P(c[(i + 1) \div 2]) ELSE P(c[n + i \div 2])]
TwiceArea(p) == FoldLeft(LAMBDA acc, i : acc + p[i][1] * p[(i % Len(p)) + 1][2] - p[(i % Len(p)) + 1][1] * p[i][2], 0, [i \in 1..Len(p) |-> i])
Upright(p) == IF TwiceArea(p) < 0 THEN Reverse(p) ELSE p
SameCycle(p, q) == Len(p) = Len(q) /\ \E s \in 0..(Len(p) - 1) : \A i \in 1..Len(p) : p[i] = q[((i - 1 + s) % Len(p)) + 1]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
UsedBy(d, ids) == UNION {Range(d.e[i + 1].c) : i \in Range(ids)}
Corner(d, ids) == LET U == UsedBy(d, ids) IN <<MinOf({Pt(d, x)[1] : x \in U}), MinOf({Pt(d, x)[2] : x \in U})>>
Extent(d, ids) == LET U == UsedBy(d, ids) c == Corner(d, ids) IN
                  <<MaxOf({Pt(d, x)[1] : x \in U}) - c[1], MaxOf({Pt(d, x)[2] : x \in U}) - c[2]>>
(* material of every element; -1: in no set, -2: the set's material is not known *)
MatMap(s, d) ==
    LET R == TLCEval([k \in 1..Len(d.ms) |-> [i |-> Range(d.ms[k].i), m |-> MatIndex(s, d.ms[k].n)]]) IN
    TLCEval([i \in 1..Len(d.e) |-> LET k == IndexWhere(R, LAMBDA x : (i - 1) \in x.i) IN
                                   IF k = 0 THEN -1 ELSE IF R[k].m < 0 THEN -2 ELSE R[k].m])
(* what a cell is given: kind, faces as upright cycles relative to the lower left corner, material of every face *)
CellOf(M, d, q) ==
    LET ids == d.cs[q] o == Corner(d, ids) IN
    [t |-> d.e[ids[1] + 1].t,
     f |-> [k \in 1..Len(ids) |-> Upright(Cycle(d.e[ids[k] + 1].c, LAMBDA x : <<Pt(d, x)[1] - o[1], Pt(d, x)[2] - o[2]>>))],
     nv |-> Cardinality(UsedBy(d, ids)),
     ms |-> [k \in 1..Len(ids) |-> M[ids[k] + 1]]]
ImportPre(s, d) ==
    /\ s.mats # <<>> /\ Len(d.cs) = Len(s.cells)
    /\ \A q \in 1..Len(d.cs) :
          /\ d.cs[q] # <<>>
          /\ \A i \in Range(d.cs[q]) : d.e[i + 1].t = d.e[d.cs[q][1] + 1].t
          /\ Extent(d, d.cs[q]) = s.cells[q].e
(* every face of every cell has a known material *)
Complete(M, d) == \A q \in 1..Len(d.cs) : \A i \in Range(d.cs[q]) : M[i + 1] >= 0
(* area per material is the same in the document and in the imported cells *)
AreaOfMat(M, d, m) ==
    LET E == {i \in 0..(Len(d.e) - 1) : M[i + 1] = m} IN
    FoldSet(LAMBDA i, acc : acc + Abs(TwiceArea(Cycle(d.e[i + 1].c, LAMBDA x : Pt(d, x)))), 0, E)
ImportedArea(M, d, m) ==
    FoldLeft(LAMBDA acc, q : acc + LET c == CellOf(M, d, q) IN
        FoldLeft(LAMBDA a, k : a + IF c.ms[k] = m THEN TwiceArea(c.f[k]) ELSE 0, 0, [k \in 1..Len(c.f) |-> k]), 0, [q \in 1..Len(d.cs) |-> q])
=============================================================================
