------------------------------- MODULE RayMC -------------------------------
(* A square of 2 x 2 cells whose centre and inner edges are displaced, crossed by all rays
   from a grid of origins in a set of directions. *)
EXTENDS Mesh
CONSTANTS Ty, NDir, Fineness
VARIABLES m, o
Disp == IF Quadratic(Ty) THEN {-4, 3} ELSE {-6, 0, 5}
Origins == IF Fineness = 1 THEN (IF Quadratic(Ty) THEN {-5, 11, 24, 43, 67} ELSE {-5, 3, 13, 22, 35, 47, 58, 67})
           ELSE {-9, -5, 3, 7, 11, 13, 19, 22, 24, 31, 35, 39, 43, 47, 53, 58, 61, 67}
Dirs == <<<<<<1, 0>>, 1>>, <<<<0, -1>>, 1>>, <<<<3, 4>>, 5>>, <<<<-4, 3>>, 5>>, <<<<12, -5>>, 13>>, <<<<-8, -15>>, 17>>,
          <<<<5, 12>>, 13>>, <<<<-1, 0>>, 1>>, <<<<-12, 5>>, 13>>, <<<<4, -3>>, 5>>, <<<<0, 1>>, 1>>, <<<<15, 8>>, 17>>>>
Step0 == 32
Corner(c) == [j \in 1..9 |-> LET x == (j - 1) % 3 y == (j - 1) \div 3 IN
                 IF j = 5 THEN <<Step0 + c[1], Step0 + c[2]>> ELSE <<x * Step0, y * Step0>>]
Cells == <<<<0, 1, 4, 3>>, <<1, 2, 5, 4>>, <<3, 4, 7, 6>>, <<4, 5, 8, 7>>>>
FaceCorners == IF Corners(Ty) = 4 THEN Cells
               ELSE FlattenSeq([i \in 1..4 |-> LET q == Cells[i] IN
                       IF i % 2 = 1 THEN <<<<q[1], q[2], q[3]>>, <<q[1], q[3], q[4]>>>> ELSE <<<<q[1], q[2], q[4]>>, <<q[2], q[3], q[4]>>>>])
EdgeSet == {LET f == FaceCorners[i] IN {f[k], f[(k % Len(f)) + 1]} : i \in 1..Len(FaceCorners), k \in 1..Corners(Ty)}
EdgeList == SetToSeq(EdgeSet)
InnerEdge(e) == Cardinality({i \in 1..Len(FaceCorners) : e \subseteq Range(FaceCorners[i])}) = 2
Even(x) == x \div 2
MidOf(V, e, w) ==      \* displaced across the edge by w
    LET a == V[Min(e) + 1] b == V[Max(e) + 1] c == <<Even(a[1] + b[1]), Even(a[2] + b[2])>> IN
    IF ~InnerEdge(e) THEN c
    ELSE IF Abs(a[1] - b[1]) > Abs(a[2] - b[2]) THEN <<c[1], c[2] + w>> ELSE <<c[1] + w, c[2]>>
MeshOf(c, w) ==
    LET V == Corner(c) IN
    IF ~Quadratic(Ty) THEN [ty |-> Ty, v |-> V, f |-> FaceCorners]
    ELSE [ty |-> Ty, v |-> V \o [j \in 1..Len(EdgeList) |-> MidOf(V, EdgeList[j], w)],
          f |-> [i \in 1..Len(FaceCorners) |-> LET f == FaceCorners[i] IN
                    f \o [k \in 1..Len(f) |-> 8 + IndexWhere(EdgeList, LAMBDA e : e = {f[k], f[(k % Len(f)) + 1]})]]]
None == [p |-> <<0, 0>>, d |-> <<0, 0>>, h |-> 0]
Init == o = None /\ \E c \in Disp \X Disp, w \in IF Quadratic(Ty) THEN {-2, 2} ELSE {0} : m = MeshOf(c, w)
Next == /\ o = None
        /\ \E p \in Origins \X Origins, k \in 1..NDir : o' = [p |-> p, d |-> Dirs[k][1], h |-> Dirs[k][2]]
        /\ m' = m
Spec == Init /\ [][Next]_<<m, o>>
Fine == o # None /\ GeneralRay(m, o)
TileOK == Sound(m) /\ Oriented(m) = m
(* every crossing of an inner edge is seen by the two faces next to it *)
Pairing == Fine => LET all == SumSeq([i \in Faces(m) |-> Len(CrossFace(m, o, i))])
                       bd == SumSeq(MapSeq(LAMBDA e : Len(CrossEdge(o, e)), BoundaryPts(m)))
                   IN (all - bd) % 2 = 0
Parity == Fine /\ GeneralPoint(m, o.p) => \A i \in Faces(m) : (Len(CrossFace(m, o, i)) % 2 = 1) = InFace(m.ty, PtsOf(m, i), o.p)
Sums == Fine => Near(RegionLength(m, o), SumSeq([i \in Faces(m) |-> Inside(CrossFace(m, o, i))]),
                     (IF Quadratic(Ty) THEN 30 ELSE 2) * (2 + Len(m.f)))
Emit == o # None => PrintT("BEHAVIOUR " \o ToJson([v |-> m.v, f |-> m.f, p |-> o.p, d |-> o.d, h |-> o.h,
                              ray |-> GeneralRay(m, o), loc |-> GeneralPoint(m, o.p)]))
=============================================================================
