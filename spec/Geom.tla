------------------------------- MODULE Geom -------------------------------
(* Exact planar geometry on integer points.  A curve edge <<a, b, m>> is the parabola arc
   Q(s) = a + s (b - a) + 4 s (1 - s) (m - (a + b) / 2), a straight edge is <<a, b>>. *)
EXTENDS Common
Cross(p, q) == p[1] * q[2] - p[2] * q[1]
Dot(p, q) == p[1] * q[1] + p[2] * q[2]
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
AddP(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Scale(k, p) == <<k * p[1], k * p[2]>>
Orient(a, b, c) == Cross(Sub(b, a), Sub(c, a))        \* twice the signed area
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

(* faces: 3 = triangle, 4 = quadrilateral, 6 / 8 = with quadratic edges (midpoints last) *)
Quadratic(ty) == ty \in {6, 8}
Corners(ty) == CASE ty = 3 -> 3 [] ty = 4 -> 4 [] ty = 6 -> 3 [] ty = 8 -> 4
EdgeOf(ty, f, k) ==                                    \* k in 1..Corners
    LET n == Corners(ty) b == f[(k % n) + 1] IN
    IF Quadratic(ty) THEN <<f[k], b, f[n + k]>> ELSE <<f[k], b>>
EdgesOf(ty, f) == [k \in 1..Corners(ty) |-> EdgeOf(ty, f, k)]
Reversed(e) == IF Len(e) = 3 THEN <<e[2], e[1], e[3]>> ELSE <<e[2], e[1]>>
FaceFromEdges(es) == MapSeq(LAMBDA e : e[1], es)
                     \o (IF Len(es[1]) = 3 THEN MapSeq(LAMBDA e : e[3], es) ELSE <<>>)
(* the same boundary run through in the other direction from the same start *)
FlipFace(ty, f) == LET n == Corners(ty) IN
    FaceFromEdges([k \in 1..n |-> Reversed(EdgeOf(ty, f, n + 1 - k))])
CornerPts(ty, P) == SubSeq(P, 1, Corners(ty))          \* P: points of a face
Twice(pts) == SumSeq([i \in 1..Len(pts) |-> Cross(pts[i], pts[(i % Len(pts)) + 1])])
(* six times the area: shoelace of the corners plus 2/3 of the arc triangles *)
Area6(ty, P) ==
    3 * Twice(CornerPts(ty, P))
    + (IF Quadratic(ty)
       THEN SumSeq([k \in 1..Corners(ty) |->
                LET e == EdgeOf(ty, P, k) IN 4 * Cross(Sub(e[3], e[1]), Sub(e[2], e[1]))])
       ELSE 0)
(* thirty times the first moment: corners plus, for an arc, its area at 3/10 (a + b) + 4/10 m *)
Moment30(ty, P, c) ==
    LET n == Corners(ty) IN
    SumSeq([k \in 1..n |->
        LET e == EdgeOf(ty, P, k) IN
        5 * Cross(e[1], e[2]) * (e[1][c] + e[2][c])
        + (IF Quadratic(ty) THEN 2 * Cross(Sub(e[3], e[1]), Sub(e[2], e[1])) * (3 * (e[1][c] + e[2][c]) + 4 * e[3][c]) ELSE 0)])
IsCCW(ty, P) == Twice(CornerPts(ty, P)) > 0
Convex(pts) == \A i \in 1..Len(pts) : Orient(pts[i], pts[(i % Len(pts)) + 1], pts[((i + 1) % Len(pts)) + 1]) >= 0

(* containment, boundary included, for convex linear faces *)
InConvex(pts, p) == \A i \in 1..Len(pts) : Orient(pts[i], pts[(i % Len(pts)) + 1], p) >= 0
OnBoundary(pts, p) == InConvex(pts, p) /\ \E i \in 1..Len(pts) : Orient(pts[i], pts[(i % Len(pts)) + 1], p) = 0
(* between chord and arc of a curved edge; ee is the doubled deviation *)
InLens(e, p) ==
    LET ab == Sub(e[2], e[1])
        ee == Sub(Scale(2, e[3]), AddP(e[1], e[2]))
        D0 == Cross(ab, ee)
        s == Sgn(D0)
        D == s * D0
        U == s * Cross(Sub(p, e[1]), ee)
        W == s * Cross(ab, Sub(p, e[1]))               \* w in units of ee: w = W / D, arc: w = 2 u (1 - u)
    IN D > 0 /\ U > 0 /\ U < D /\ W >= (IF D0 > 0 THEN 0 ELSE 1) /\   \* the chord belongs to the lens on the left
       W * D < 2 * U * (D - U)
(* p not on an edge or arc *)
InFace(ty, P, p) ==
    IF ~Quadratic(ty) THEN InConvex(P, p)
    ELSE LET n == Cardinality({k \in 1..Corners(ty) : InLens(EdgeOf(ty, P, k), p)})
             c == IF InConvex(CornerPts(ty, P), p) THEN 1 ELSE 0
         IN (n + c) % 2 = 1

(* ---- ray crossings.  Ray o + t d, d = an integer vector of integer length h.
   A crossing is returned as the distance in thousandths of a unit. *)
RayLine(o, d, h, a, b) ==
    LET v == Sub(b, a)
        den == Cross(d, v)
        num == Cross(Sub(a, o), v)
        sn == Cross(Sub(a, o), d)
        g == Sgn(den)
    IN IF den = 0 THEN <<>>
       ELSE IF g * sn >= 0 /\ g * sn <= g * den /\ g * num >= 0
       THEN <<(g * num * h * 1000) \div (g * den)>> ELSE <<>>
(* the parabola arc: crossings of F(s) = Cross(d, Q(s) - o) located on a grid of 128 pieces
   and refined by one secant step *)
NPiece == 128
ArcPos(o, a, b, m, k) ==                                \* NPiece^2 (Q(k / NPiece) - o)
    LET e2 == Sub(Scale(2, m), AddP(a, b)) IN
    AddP(Scale(NPiece * NPiece, Sub(a, o)),
         AddP(Scale(NPiece * k, Sub(b, a)), Scale(2 * k * (NPiece - k), e2)))
RayArc(o, d, h, a, b, m) ==
    LET P == TLCEval([k \in 0..NPiece |-> ArcPos(o, a, b, m, k)])
        F == TLCEval([k \in 0..NPiece |-> Cross(d, P[k])])
        R(k) == Dot(d, P[k])                            \* NPiece^2 * h * distance
        S == {k \in 0..(NPiece - 1) : (F[k] > 0 /\ F[k + 1] <= 0) \/ (F[k] < 0 /\ F[k + 1] >= 0)}
        dist(k) ==
            LET f0 == Abs(F[k]) f1 == Abs(F[k + 1])
                t == IF f0 + f1 < 2000000 THEN (f0 * 1000) \div (f0 + f1)      \* thousandths of the piece
                     ELSE MinI(1000, f0 \div ((f0 + f1) \div 1000))
                r0 == R(k) \div h r1 == R(k + 1) \div h
            IN (((r0 + ((r1 - r0) * t) \div 1000) \div 16) * 1000) \div ((NPiece * NPiece) \div 16)
        T == SetToSortSeq(S, LAMBDA x, y : x < y)
    IN SelectSeq([i \in 1..Len(T) |-> dist(T[i])], LAMBDA r : r >= 0)
(* general position: the ray avoids end points and tangents, its origin the edges *)
OnSegment(a, b, p) == Orient(a, b, p) = 0 /\ Dot(Sub(a, p), Sub(b, p)) <= 0
GeneralLine(o, d, a, b) == Cross(d, Sub(a, o)) # 0 /\ Cross(d, Sub(b, o)) # 0 /\ ~OnSegment(a, b, o)
GeneralArc(o, d, a, b, m) ==
    LET P == TLCEval([k \in 0..NPiece |-> ArcPos(o, a, b, m, k)])
        F == TLCEval([k \in 0..NPiece |-> Cross(d, P[k])])
        margin == (MaxI(Abs(d[1]), Abs(d[2])) * NPiece * NPiece) \div 2         \* half a unit
    IN /\ Abs(F[0]) >= margin /\ Abs(F[NPiece]) >= margin
       /\ \A k \in 0..NPiece : MaxI(Abs(P[k][1]), Abs(P[k][2])) >= NPiece * NPiece
       /\ \A k \in 1..(NPiece - 1) : Sgn(F[k] - F[k - 1]) * Sgn(F[k + 1] - F[k]) <= 0 => Abs(F[k]) >= margin
AwayFromArc(p, a, b, m) == \A k \in 0..NPiece : LET q == ArcPos(p, a, b, m, k) IN MaxI(Abs(q[1]), Abs(q[2])) >= NPiece * NPiece
=============================================================================
