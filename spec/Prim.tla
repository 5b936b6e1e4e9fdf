------------------------------- MODULE Prim -------------------------------
(* Planar polygons, segments and axis aligned boxes as values: one polygon, one segment and one
   box are at hand, operations build, change or question them.  All coordinates are integers,
   so every answer that is not a length is exact. *)
EXTENDS Geom

(* ---- numbers *)
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n < 2 THEN n ELSE Newton(n, IF n > 2000000000 THEN 44722 ELSE n \div 2 + 1)
SqrtM(n) == IF n < 2000 THEN ISqrt(n * 1000000)                       \* 1000 sqrt(n)
            ELSE IF n < 200000 THEN 10 * ISqrt(n * 10000)
            ELSE IF n < 20000000 THEN 100 * ISqrt(n * 100) ELSE 1000 * ISqrt(n)
MDs(a, b, c) == IF c < 0 THEN MD(a, -b, -c) ELSE MD(a, b, c)       \* a * b / c, a >= 0
Norm2(v) == SumSeq([i \in 1..Len(v) |-> v[i] * v[i]])
VSub(p, q) == [i \in 1..Len(p) |-> p[i] - q[i]]

(* ---- segments <<a, b>> or <<a, b, m>> *)
Dev(e) == IF Len(e) = 3 THEN Sub(Scale(2, e[3]), AddP(e[1], e[2])) ELSE <<0, 0>>
At(e, n, k) == AddP(Scale(n * n, e[1]), AddP(Scale(n * k, Sub(e[2], e[1])), Scale(2 * k * (n - k), Dev(e))))   \* n^2 Q(k/n)
Deriv(e, n, k) == AddP(Scale(n, Sub(e[2], e[1])), Scale(2 * (n - 2 * k), Dev(e)))                             \* n Q'(k/n)
LenM(e) ==                                               \* length in thousandths
    IF Dev(e) = <<0, 0>> THEN SqrtM(Norm2(Sub(e[2], e[1])))
    ELSE LET S(k) == SqrtM(Norm2(Deriv(e, 16, k))) \div 16
         IN (SumSeq([k \in 1..17 |-> S(k - 1) * (IF k \in {1, 17} THEN 1 ELSE IF k % 2 = 0 THEN 4 ELSE 2)])) \div 48
(* extreme values of coordinate c in thousandths *)
Extreme(e, c) ==
    LET v == e[2][c] - e[1][c] d == Dev(e)[c] q == v + 2 * d
        ends == {1000 * e[1][c], 1000 * e[2][c]}
    IN IF d # 0 /\ q * Sgn(d) > 0 /\ q * Sgn(d) < 4 * Abs(d)
       THEN ends \cup {1000 * e[1][c] + Sgn(d) * ((1000 * q * q) \div (8 * Abs(d)))} ELSE ends
SegBox(e) == <<<<Min(Extreme(e, 1)), Min(Extreme(e, 2))>>, <<Max(Extreme(e, 1)), Max(Extreme(e, 2))>>>>
LeftOf(e, p) ==
    LET c == Orient(e[1], e[2], p) >= 0 IN
    IF Len(e) = 2 \/ Cross(Sub(e[2], e[1]), Dev(e)) = 0 THEN c ELSE c # InLens(e, p)
Clear(e, p) == Len(e) = 2 \/ Cross(Sub(e[2], e[1]), Dev(e)) = 0 \/ AwayFromArc(p, e[1], e[2], e[3])
(* the middle vertex lies over the middle half of the chord, at most half a chord away *)
WellFormed(e) == Len(e) = 2 \/
    LET v == Sub(e[2], e[1]) t == 4 * Dot(Sub(e[3], e[1]), v) n == Norm2(v) IN
    n > 0 /\ t >= n /\ t <= 3 * n /\ 2 * Abs(Cross(v, Sub(e[3], e[1]))) <= n
(* distance from p to the segment, thousandths: exact for a line, from a grid for an arc *)
LineParam(e, p) == LET v == VSub(e[2], e[1]) IN <<SumSeq([i \in 1..Len(v) |-> (p[i] - e[1][i]) * v[i]]), Norm2(v)>>
GridDist(e, p, k) == LET q == ArcPos(p, e[1], e[2], e[3], k) IN (SqrtM(Norm2(<<q[1] \div 256, q[2] \div 256>>))) \div 64

(* ---- polygons *)
Len1000(ty, P) == SumSeq([k \in 1..Corners(ty) |-> LenM(EdgeOf(ty, P, k))])
PolyBox(ty, P) ==
    LET b == TLCEval([k \in 1..Corners(ty) |-> SegBox(EdgeOf(ty, P, k))]) n == 1..Corners(ty) IN
    <<<<Min({b[k][1][1] : k \in n}), Min({b[k][1][2] : k \in n})>>, <<Max({b[k][2][1] : k \in n}), Max({b[k][2][2] : k \in n})>>>>
(* 32 times the weight of each vertex at (i/4, j/4) *)
Weights(ty, i, j) ==
    CASE ty = 3 -> <<8 * (4 - i - j), 8 * i, 8 * j>>
      [] ty = 4 -> <<2 * (4 - i) * (4 - j), 2 * i * (4 - j), 2 * i * j, 2 * (4 - i) * j>>
      [] ty = 6 -> LET t == 4 - i - j IN <<4 * t * (t - 2), 4 * i * (i - 2), 4 * j * (j - 2), 8 * i * t, 8 * i * j, 8 * j * t>>
      [] ty = 8 -> LET X == i - 2 E == j - 2 IN
            <<(2 - X) * (2 - E) * (-X - E - 2), (2 + X) * (2 - E) * (X - E - 2), (2 + X) * (2 + E) * (X + E - 2),
              (2 - X) * (2 + E) * (-X + E - 2), 2 * (4 - X * X) * (2 - E), 2 * (2 + X) * (4 - E * E),
              2 * (4 - X * X) * (2 + E), 2 * (2 - X) * (4 - E * E)>>
Map32(ty, P, i, j) == LET w == Weights(ty, i, j) IN [c \in 1..2 |-> SumSeq([k \in 1..Len(P) |-> w[k] * P[k][c]])]
Jac32(ty, P, i, j) == <<Scale(2, Sub(Map32(ty, P, i + 1, j), Map32(ty, P, i - 1, j))),
                        Scale(2, Sub(Map32(ty, P, i, j + 1), Map32(ty, P, i, j - 1)))>>
Flipped(ty, P) == FlipFace(ty, P)
StrictQuad(pts) == \A i \in 1..4 : Orient(pts[i], pts[(i % 4) + 1], pts[((i + 1) % 4) + 1]) > 0
(* shapes whose measures are defined: counter-clockwise, corners convex, edges well formed *)
Measurable(ty, P) ==
    /\ IF Corners(ty) = 3 THEN IsCCW(ty, P) ELSE StrictQuad(CornerPts(ty, P))
    /\ \A k \in 1..Corners(ty) : WellFormed(EdgeOf(ty, P, k))
    /\ Area6(ty, P) > 0
(* the triangle around every arc lies to the left of all other chords: no reflex corners *)
Tame(ty, P) == Quadratic(ty) => \A k, j \in 1..Corners(ty) :
    LET e == EdgeOf(ty, P, k) f == EdgeOf(ty, P, j)
        c == AddP(AddP(e[1], e[2]), Scale(2, Dev(e)))       \* twice the control point
    IN j # k => Orient(Scale(2, f[1]), Scale(2, f[2]), c) > 0
(* no crossing of edges other than the shared corners; polylines of NP pieces *)
NP == 16
Poly(e) == TLCEval([k \in 0..NP |-> At(e, NP, k)])
Crosses(a, b, c, d) == Sgn(Orient(a, b, c)) * Sgn(Orient(a, b, d)) < 0 /\ Sgn(Orient(c, d, a)) * Sgn(Orient(c, d, b)) < 0
CrossPairs(A, B) == {p \in (0..(NP - 1)) \X (0..(NP - 1)) : Crosses(A[p[1]], A[p[1] + 1], B[p[2]], B[p[2] + 1])}
(* every approach of the two curves belongs to a crossing (or the shared corner) *)
ClearPair(A, B, X, shared) ==
    LET step(C) == Max({MaxI(Abs(C[i + 1][1] - C[i][1]), Abs(C[i + 1][2] - C[i][2])) : i \in 0..(NP - 1)})
        h == NP * NP + MaxI(step(A), step(B)) IN
    /\ \A x \in X : {x[1], x[2]} \cap {0, NP - 1} = {}                \* not at an end
    /\ \A i \in 0..NP, j \in 0..NP :
        MaxI(Abs(A[i][1] - B[j][1]), Abs(A[i][2] - B[j][2])) >= h
        \/ (i \notin {0, NP} /\ j \notin {0, NP} /\ \E x \in X : Abs(x[1] - i) <= 5 /\ Abs(x[2] - j) <= 5)
        \/ (\E x \in shared : Abs(x[1] - i) <= 5 /\ Abs(x[2] - j) <= 5)
(* crossings of different pieces are far apart, so they are different points *)
Apart(X) == \A x, y \in X : x = y \/ Abs(x[1] - y[1]) + Abs(x[2] - y[2]) >= 4
Steep(A, B, x) ==
    LET u == Sub(A[x[1] + 1], A[x[1]]) v == Sub(B[x[2] + 1], B[x[2]])
        c == Abs(Cross(u, v)) \div 16 n == MaxI(Abs(u[1]), Abs(u[2])) * MaxI(Abs(v[1]), Abs(v[2])) IN 64 * c >= n
CrossPoint(A, B, x) ==                                    \* hundredths
    LET a == A[x[1]] b == A[x[1] + 1] f == Abs(Orient(B[x[2]], B[x[2] + 1], a)) g == Abs(Orient(B[x[2]], B[x[2] + 1], b))
        t == IF f + g < 2000000 THEN (f * 1000) \div (f + g) ELSE MinI(1000, f \div ((f + g) \div 1000))
    IN [c \in 1..2 |-> ((a[c] + ((b[c] - a[c]) * t) \div 1000) * 100) \div (NP * NP)]

(* ---- boxes: <<>> is empty, else <<lo, hi>> in 1/64 units *)
BoxOf(pts) == LET n == 1..Len(pts) d == Len(pts[1]) IN
    <<[c \in 1..d |-> 64 * Min({pts[i][c] : i \in n})], [c \in 1..d |-> 64 * Max({pts[i][c] : i \in n})]>>
Join(b, c) == IF b = <<>> THEN c ELSE IF c = <<>> THEN b
              ELSE LET d == Len(b[1]) IN <<[i \in 1..d |-> MinI(b[1][i], c[1][i])], [i \in 1..d |-> MaxI(b[2][i], c[2][i])]>>
CanScale(b, k) == b # <<>> /\ \A i \in 1..Len(b[1]) : ((b[2][i] - b[1][i]) * (k - 4)) % 8 = 0
ScaleBox(b, k) == LET d(i) == ((b[2][i] - b[1][i]) * (k - 4)) \div 8 IN
    <<[i \in 1..Len(b[1]) |-> b[1][i] - d(i)], [i \in 1..Len(b[1]) |-> b[2][i] + d(i)]>>
InBox(b, p) == b # <<>> /\ \A i \in 1..Len(p) : b[1][i] <= 64 * p[i] /\ 64 * p[i] <= b[2][i]
BoxesMeet(b, c) == b # <<>> /\ c # <<>> /\ \A i \in 1..Len(b[1]) : b[1][i] <= c[2][i] /\ c[1][i] <= b[2][i]
(* the interval of ray parameters inside the box: numerators over 64 * the product of |d| *)
RayDen(d) == FoldLeft(LAMBDA x, y : IF y = 0 THEN x ELSE x * Abs(y), 1, d)
RayBox(b, o, d, l) ==
    LET D == RayDen(d)
        T(i, s) == ((b[s][i] - 64 * o[i]) * l * (D \div Abs(d[i]))) * Sgn(d[i])
        ax == {i \in 1..Len(o) : d[i] # 0}
        lo == Max({0} \cup {MinI(T(i, 1), T(i, 2)) : i \in ax})
        hi == Min({MaxI(T(i, 1), T(i, 2)) : i \in ax})
        out == \E i \in 1..Len(o) : d[i] = 0 /\ (64 * o[i] < b[1][i] \/ 64 * o[i] > b[2][i])
    IN IF out \/ lo > hi THEN <<>> ELSE <<lo, hi>>
RayBoxClear(b, o, d, l) ==
    /\ b # <<>> /\ \A i \in 1..Len(o) : d[i] = 0 => 64 * o[i] # b[1][i] /\ 64 * o[i] # b[2][i]
    /\ LET r == RayBox(b, o, d, l) IN r = <<>> \/ r[1] < r[2]

(* ---- transitions: s = [p |-> [ty, v], g |-> segment, b |-> box] *)
Start == [p |-> [ty |-> 3, v |-> <<>>], g |-> <<>>, b |-> <<>>]
BoxArg(o) == BoxOf(<<o.lo, o.hi>>)
Step(s, o) ==
    CASE o.k = "poly" -> [s EXCEPT !.p = [ty |-> o.ty, v |-> o.v]]
      [] o.k = "flip" -> [s EXCEPT !.p.v = Flipped(s.p.ty, @)]
      [] o.k = "move" -> [s EXCEPT !.p.v[o.i + 1] = o.x]
      [] o.k = "seg" -> [s EXCEPT !.g = o.v]
      [] o.k = "bempty" -> [s EXCEPT !.b = <<>>]
      [] o.k = "bset" -> [s EXCEPT !.b = BoxArg(o)]
      [] o.k = "bpts" -> [s EXCEPT !.b = BoxOf(o.v)]
      [] o.k = "baddp" -> [s EXCEPT !.b = Join(@, BoxOf(<<o.x>>))]
      [] o.k = "baddb" -> [s EXCEPT !.b = Join(@, BoxArg(o))]
      [] o.k = "bscale" -> [s EXCEPT !.b = ScaleBox(@, o.n)]
      [] OTHER -> s
=============================================================================
