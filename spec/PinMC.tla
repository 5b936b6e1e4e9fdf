------------------------------- MODULE PinMC -------------------------------
(* A reference construction of pin meshes from first principles (integer trigonometry) is
   checked against the acceptance predicate for every small parameter choice; the same
   choices, including impossible ones, are emitted as behaviours. *)
EXTENDS Pin
CONSTANTS Radii, RingCounts, Azi
VARIABLES o, done
Cos(k) ==                                               \* 16384 cos(k * 11.25 degrees)
    LET j == k % 32
        T == <<16384, 16069, 15137, 13623, 11585, 9102, 6270, 3196, 0>>
    IN IF j <= 8 THEN T[j + 1] ELSE IF j <= 16 THEN -T[17 - j] ELSE IF j <= 24 THEN -T[j - 15] ELSE T[33 - j]
Sin(k) == Cos(k + 24)
RECURSIVE Bisect(_, _, _)
Bisect(x, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Bisect(x, m, hi) ELSE Bisect(x, lo, m)
Isqrt(x) == Bisect(x, 0, 20000)
(* squared circle radius of ring boundary b (from 0) in (p / 16384)^2 *)
Sq(r) == MulDiv(268435456, r * r, o.p * o.p)
RingR2(b, even) ==
    LET i == RegionOfRing(o, b)
        j == b + 1 - SumSeq(SubSeq(o.nr, 1, i - 1))
        lo == IF i = 1 THEN 0 ELSE Sq(o.r[i - 1])
    IN IF even THEN lo + ((Sq(o.r[i]) - lo) \div o.nr[i]) * j
       ELSE LET a == Isqrt(lo) c == Isqrt(Sq(o.r[i])) d == a + ((c - a) * j) \div o.nr[i] IN d * d
Rc(b, even) == LET q == RingR2(b, even) IN
    IF o.ord = 1 THEN Isqrt(q + (q \div 10000) * (EqFactor(1, o.na) - 10000)) ELSE Isqrt(q)
Rm(b, even) == LET q == Isqrt(RingR2(b, even)) IN IF o.na = 8 THEN q + (q * 6) \div 10000 ELSE q
(* the point at radius rho (p / 16384) on half-sector ray k *)
Dir(k) == k * (16 \div o.na)
Div(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
PPt(rho, k) == LET kk == k % (2 * o.na) IN
    IF rho = 0 THEN <<4096, 4096, 0, 0>>
    ELSE <<4096 + Div(rho * Cos(Dir(kk)), 32768), 4096 + Div(rho * Sin(Dir(kk)), 32768),
           (rho * 15625) \div 256, (kk * 1000000) \div (2 * o.na)>>
Edge(k) == LET kk == k % (2 * o.na) c == Cos(Dir(kk)) s == Sin(Dir(kk)) M == MaxI(Abs(c), Abs(s)) IN
    <<4096 + Div(4096 * c, M), 4096 + Div(4096 * s, M), (500000 \div M) * 16384, (kk * 1000000) \div (2 * o.na)>>
MidP(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2, (a[3] + b[3]) \div 2, a[4]>>
Crn(b, k, even) == IF b = PinRings(o) THEN Edge(k) ELSE PPt(Rc(b, even), k)
MidA(b, k, even) == IF b = PinRings(o) THEN Edge(k) ELSE PPt(Rm(b, even), k)
RefFace(r, s, even) ==
    LET k == 2 * s
        quad == IF r > 0 THEN <<Crn(r - 1, k, even), Crn(r, k, even), Crn(r, k + 2, even), Crn(r - 1, k + 2, even)>>
                ELSE LET R == Rc(0, even) C == PPt(0, 0) IN
                     IF s % 2 = 0 THEN <<C, PPt(R, k), PPt(R, k + 2), PPt(R \div 2, k + 2)>>
                     ELSE <<C, PPt(R \div 2, k), PPt(R, k), PPt(R, k + 2)>>
        arc == MidA(r, k + 1, even)
        P(i) == quad[((i - 1) % 4) + 1]
        isArc(i) == IF r > 0 THEN i = 2 ELSE (IF s % 2 = 0 THEN i = 2 ELSE i = 3)
        mids == [i \in 1..4 |-> IF isArc(i) THEN arc
                                ELSE IF r > 0 /\ i = 4 THEN MidA(r - 1, k + 1, even)
                                ELSE LET a == P(i) b == P(i + 1) IN IF a[3] < b[3] /\ a[3] = 0 THEN MidP(b, a) ELSE MidP(a, b)]
    IN IF o.ord = 1 THEN quad ELSE quad \o mids
Ref(even) ==
    LET nf == o.na * (PinRings(o) + 1)
        F == TLCEval([i \in 1..nf |-> RefFace((i - 1) \div o.na, (i - 1) % o.na, even)])
        Pts == TLCEval(SetToSeq(UNION {{F[i][j] : j \in 1..Len(F[i])} : i \in 1..nf}))
        Num == TLCEval([p \in {Pts[i] : i \in 1..Len(Pts)} |-> CHOOSE i \in 1..Len(Pts) : Pts[i] = p])
        P2(f) == [j \in 1..Len(f) |-> <<f[j][1], f[j][2]>>]
    IN [v |-> Pts, f |-> TLCEval([i \in 1..nf |-> [j \in 1..Len(F[i]) |-> Num[F[i][j]] - 1]]),
        ar |-> TLCEval([i \in 1..nf |-> MulDiv(Area6(PinKind(o), P2(F[i])), 4967, 20000)])]
Params ==
    {[k |-> "pincell", p |-> p, r |-> r, nr |-> n, na |-> a, ord |-> d, ms |-> [i \in 1..(Len(n) + 1) |-> IF i % 2 = 1 THEN "A" ELSE "B"]] :
        p \in {64}, r \in Radii, n \in RingCounts, a \in Azi, d \in 0..3}
Init == o \in Params /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED o
Spec == Init /\ [][Next]_<<o, done>>
Good == PinOk(o)
InRef == Good /\ o.na <= 16 /\ PinRings(o) <= 3
(* rounding to p / 8192 costs about the perimeter of a face in area *)
Accepted == (InRef /\ done => PinMesh(o, Ref(TRUE), 40000)) = TRUE
(* rings of equal width instead of equal area are not accepted *)
Rejected == (InRef /\ ~done /\ Len(o.nr) = 1 /\ o.nr[1] > 1 /\ o.r[1] > 8 => ~PinMesh(o, Ref(FALSE), 40000)) = TRUE
Partition == Good => Near(SumSeq([k \in 1..(PinRings(o) + 1) |-> RingArea(o, k - 1)]), 100000000, 8 * PinRings(o))
Emit == done => PrintT("BEHAVIOUR " \o ToJson([h |-> <<o>>]))
R1 == {<<8>>, <<20>>, <<29>>, <<30>>, <<31>>, <<32>>, <<33>>, <<0>>, <<-5>>, <<>>, <<10, 25>>, <<25, 10>>, <<20, 20>>, <<10, 16, 28>>, <<10, 16, 33>>, <<33, 10>>}
N1 == {<<1>>, <<2>>, <<3>>, <<0>>, <<>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<0, 1>>, <<1, 0>>, <<1, 1, 1>>, <<2, 1, 3>>}
A1 == {0, 4, 8, 12, 16, 32, -8}
=============================================================================
