------------------------------- MODULE PrimMC -------------------------------
(* All triangles and quadrilaterals on a small grid, curved shapes with displaced middle vertices,
   and boxes grown point by point. *)
EXTENDS Prim
CONSTANTS G, GQ, Bulge, BoxSteps
VARIABLES s, hist
Grid(n) == (0..n) \X (0..n)
Tris == {[k |-> "poly", ty |-> 3, v |-> <<a, b, c>>] : a \in Grid(G), b \in Grid(G), c \in Grid(G)}
Quads == {[k |-> "poly", ty |-> 4, v |-> <<a, b, c, d>>] : a \in Grid(GQ), b \in Grid(GQ), c \in Grid(GQ), d \in Grid(GQ)}
D == (-Bulge)..Bulge
Tri6s == {[k |-> "poly", ty |-> 6, v |-> <<<<0, 0>>, <<8, 0>>, <<0, 8>>, <<4, 0 + a>>, <<4 + b, 4 + c>>, <<d, 4>>>>] : a \in D, b \in D, c \in D, d \in D}
Quad8s == {[k |-> "poly", ty |-> 8, v |-> <<<<0, 0>>, <<8, 0>>, <<8, 8>>, <<0, 8>>, <<4, a>>, <<8 + b, 4>>, <<4, 8 + c>>, <<d, 4>>>>] : a \in D, b \in D, c \in D, d \in D}
Query(ty, P, n) ==
    LET m == IF ty \in {3, 4} THEN n ELSE 8
        pts == SetToSeq(IF ty \in {3, 4} THEN Grid(m) ELSE {<<x, y>> \in (-1..9) \X (-1..9) : (x + y) % 3 = 0}) IN
    <<[k |-> "pq", i |-> 1, j |-> 2]>> \o (IF Measurable(ty, P) THEN <<[k |-> "pm"], [k |-> "pc", pts |-> pts]>> ELSE <<>>)
Init == s = Start /\ hist = <<>>
Boxes == {<<lo, hi>> \in Grid(2) \X Grid(2) : lo[1] <= hi[1] /\ lo[2] <= hi[2]}
BoxOps == {[k |-> "baddp", x |-> p, f |-> f] : p \in Grid(2), f \in 0..1}
          \cup {[k |-> "baddb", lo |-> b[1], hi |-> b[2], f |-> 1] : b \in Boxes}
Dim2 == [k |-> "bempty", d |-> 2]
Next ==
    \/ hist = <<>> /\ \E o \in Tris \cup Quads \cup Tri6s \cup Quad8s :
          o.v[1] # o.v[2] /\ hist' = <<o>> /\ s' = Step(s, o)
    \/ Len(hist) = 1 /\ hist[1].k = "poly" /\ s' = Step(s, [k |-> "flip"]) /\ hist' = hist \o <<[k |-> "flip"]>>
    \/ hist = <<>> /\ hist' = <<Dim2>> /\ s' = Step(s, Dim2)
    \/ hist = <<>> /\ \E b \in Boxes : LET o == [k |-> "bset", d |-> 2, lo |-> b[1], hi |-> b[2]] IN hist' = <<o>> /\ s' = Step(s, o)
    \/ hist # <<>> /\ Len(hist) < BoxSteps /\ hist[1].k \in {"bempty", "bset"}
       /\ \E o \in BoxOps : hist' = Append(hist, o) /\ s' = Step(s, o)
Spec == Init /\ [][Next]_<<s, hist>>
P == s.p.v
ty == s.p.ty
n == Corners(ty)
Rot(v) == LET c == [i \in 1..n |-> v[(i % n) + 1]] IN
          IF Quadratic(ty) THEN c \o [i \in 1..n |-> v[n + (i % n) + 1]] ELSE c
PolyLaws == P # <<>> =>
    /\ Flipped(ty, Flipped(ty, P)) = P
    /\ Area6(ty, Flipped(ty, P)) = -Area6(ty, P)
    /\ \A c \in 1..2 : Moment30(ty, Flipped(ty, P), c) = -Moment30(ty, P, c) /\ Moment30(ty, Rot(P), c) = Moment30(ty, P, c)
    /\ Area6(ty, Rot(P)) = Area6(ty, P)
    \* the map carries the reference corners and edges onto the vertices and edges
    /\ LET cs == IF n = 3 THEN <<<<0, 0>>, <<4, 0>>, <<0, 4>>>> ELSE <<<<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>>>> IN
       \A k \in 1..n : LET a == cs[k] b == cs[(k % n) + 1] IN
          \A i \in 0..4 : Map32(ty, P, a[1] + ((b[1] - a[1]) * i) \div 4, a[2] + ((b[2] - a[2]) * i) \div 4) = Scale(2, At(EdgeOf(ty, P, k), 4, i))
    /\ LET b == PolyBox(ty, P) IN \A i \in 1..Len(P) : \A c \in 1..2 : b[1][c] <= 1000 * P[i][c] /\ 1000 * P[i][c] <= b[2][c]
    /\ (ty = 4 /\ StrictQuad(P)) =>
         /\ Area6(4, P) = Area6(3, <<P[1], P[2], P[3]>>) + Area6(3, <<P[1], P[3], P[4]>>)
         /\ \A x \in Grid(GQ) : InConvex(P, x) = (InConvex(<<P[1], P[2], P[3]>>, x) \/ InConvex(<<P[1], P[3], P[4]>>, x))
    \* displacing a middle vertex moves area by 2/3 of the cross product with the chord
    /\ Quadratic(ty) => \A k \in 1..n, d \in {<<1, 0>>, <<0, 1>>} :
         Area6(ty, [P EXCEPT ![n + k] = AddP(@, d)]) = Area6(ty, P) + 4 * Cross(d, Sub(P[(k % n) + 1], P[k]))
    /\ (Measurable(ty, P) /\ ~Quadratic(ty)) => \A x \in Grid(3) : InFace(ty, P, x) = \A k \in 1..n : LeftOf(EdgeOf(ty, P, k), x)
    /\ (Measurable(ty, P) /\ Quadratic(ty) /\ Tame(ty, P)) =>
         \A x \in {<<1, 1>>, <<4, 3>>, <<0, 4>>, <<5, 0>>, <<3, 4>>, <<7, 2>>, <<8, 1>>, <<-1, 3>>} :
            (\A k \in 1..n : Clear(EdgeOf(ty, P, k), x)) => InFace(ty, P, x) = \A k \in 1..n : LeftOf(EdgeOf(ty, P, k), x)
BoxLaws == (hist # <<>> /\ hist[1].k \in {"bempty", "bset"}) =>
    /\ Join(s.b, s.b) = s.b
    /\ s.b # <<>> => ScaleBox(s.b, 4) = s.b /\ (\A i \in 1..2 : s.b[1][i] <= s.b[2][i])
    /\ \A p \in Grid(2) : InBox(s.b, p) = BoxesMeet(s.b, BoxOf(<<p>>)) /\ (InBox(s.b, p) <=> Join(s.b, BoxOf(<<p>>)) = s.b)
    /\ s.b # <<>> => \A o \in Grid(3), d \in {<<3, 4, 5>>, <<-4, 3, 5>>, <<1, 0, 1>>} :
         LET r == RayBox(s.b, o, <<d[1], d[2]>>, d[3]) IN
         /\ InBox(s.b, o) => (r # <<>> /\ r[1] = 0)
         /\ (r # <<>> /\ r[1] = 0) => InBox(s.b, o)
Emit == /\ (hist # <<>> /\ hist[1].k = "poly") =>
               PrintT("BEHAVIOUR " \o ToJson(hist \o Query(ty, P, IF ty = 3 THEN G ELSE GQ)))
        /\ (hist # <<>> /\ hist[1].k \in {"bempty", "bset"} /\ Len(hist) = BoxSteps) =>
               PrintT("BEHAVIOUR " \o ToJson(hist \o <<[k |-> "bq", lo |-> <<1, 0>>, hi |-> <<1, 1>>, pts |-> SetToSeq(Grid(2))]>>))
=============================================================================
