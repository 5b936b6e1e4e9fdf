------------------------------ MODULE MeshMC ------------------------------
(* All meshes of at most MaxF faces, in either direction, over a small grid of points. *)
EXTENDS Mesh
CONSTANTS Ty, MaxF
VARIABLES m, last
(* triangles use a 3 x 2 grid, quadrilaterals a 3 x 3 grid; quadratic ones the midpoints too *)
GX == 3
GY == IF Corners(Ty) = 3 THEN 2 ELSE 3
Step0 == IF Quadratic(Ty) THEN 2 ELSE 1
PX == (GX - 1) * Step0 + 1
PY == (GY - 1) * Step0 + 1
Id(x, y) == y * PX + x
Points == [i \in 1..(PX * PY) |-> <<((i - 1) % PX) * 16, ((i - 1) \div PX) * 16>>]
Grid == {<<x * Step0, y * Step0>> : x \in 0..(GX - 1), y \in 0..(GY - 1)}
IdP(p) == Id(p[1], p[2])
WithMids(c) == MapSeq(IdP, c) \o
    (IF Quadratic(Ty) THEN [k \in 1..Len(c) |-> LET b == c[(k % Len(c)) + 1] IN Id((c[k][1] + b[1]) \div 2, (c[k][2] + b[2]) \div 2)] ELSE <<>>)
Tris == {t \in Grid \X Grid \X Grid : Orient(t[1], t[2], t[3]) # 0
            /\ IdP(t[1]) < IdP(t[2]) /\ IdP(t[1]) < IdP(t[3])}
Rects == {<<<<x, y>>, <<x2, y>>, <<x2, y2>>, <<x, y2>>>> : x, x2 \in {p[1] : p \in Grid}, y, y2 \in {p[2] : p \in Grid}}
Quads == {r \in Rects : r[1][1] < r[3][1] /\ r[1][2] < r[3][2]}
Both(S) == S \cup {<<q[1], q[4], q[3], q[2]>> : q \in S}
FaceSeq == SetToSeq({WithMids(c) : c \in IF Corners(Ty) = 3 THEN Tris ELSE Both(Quads)})
Init == m = [ty |-> Ty, v |-> Points, f |-> <<>>] /\ last = 1
Next == /\ Len(m.f) < MaxF
        /\ \E j \in last..Len(FaceSeq) : m' = [m EXCEPT !.f = Append(@, FaceSeq[j])] /\ last' = j
Spec == Init /\ [][Next]_<<m, last>>
FlipTwice == \A i \in Faces(m) : LET f == m.f[i] g == FlipFace(Ty, f) IN FlipFace(Ty, g) = f /\ IsReversal(Ty, f, g) /\ g[1] = f[1]
Repaired == LET n == Oriented(m) IN (\A i \in Faces(n) : Area6(Ty, PtsOf(n, i)) > 0) /\ Oriented(n) = n
Used(n) == UNION {Range(CornerPts(Ty, n.f[i])) : i \in Faces(n)}
UEdges(n) == {{DirEdges(n)[x][1], DirEdges(n)[x][2]} : x \in DOMAIN DirEdges(n)}
Disc == LET n == Oriented(m) IN
        (Len(n.f) > 0 /\ Sound(n)) => Cardinality(Used(n)) - Cardinality(UEdges(n)) + Len(n.f) = 1
(* the boundary of a sound mesh encloses exactly the sum of the faces *)
RECURSIVE Ring(_, _, _)
Ring(B, e, s) == LET g == CHOOSE g \in B : g[1] = e[2] IN IF g = s THEN <<e[1]>> ELSE <<e[1]>> \o Ring(B, g, s)
Encloses == LET n == Oriented(m) IN
    (Len(n.f) > 0 /\ Sound(n)) =>
        LET B == Boundary(n) e == CHOOSE e \in B : TRUE r == Ring(B, e, e) IN
        Twice(MapSeq(LAMBDA x : n.v[x + 1], r)) = SumSeq([i \in Faces(n) |-> Twice(CornerPts(Ty, PtsOf(n, i)))])
Emit == Len(m.f) > 0 => PrintT("BEHAVIOUR " \o ToJson(<<m.f>>))
=============================================================================
