-------------------------------- MODULE Pin --------------------------------
(* Pin meshes.  A cylindrical pin of pitch p with region radii r[i], nr[i] rings per region
   and na sectors is a mesh of na (SumSeq(nr) + 1) faces, ring by ring from the centre
   outward.  An observed mesh is a record
     v: <<x, y, rho, phi>> per vertex; x, y in p / 8192 from the lower left corner, distance
        from the centre in p / 10^6 and angle in 10^-6 turns
     f: faces as 0-based vertex lists          ar: face areas in p^2 / 10^8. *)
EXTENDS Model, Geom

MulDiv(a, b, c) == (a \div c) * b + ((a % c) * b) \div c       \* a b / c without overflow
PinRings(o) == SumSeq(o.nr)
RegionOfRing(o, k) == Min({i \in 1..Len(o.nr) : k < SumSeq(SubSeq(o.nr, 1, i))})     \* ring k from 0
(* area of a disc of radius r, and of the region between two radii, in p^2 / 10^8 *)
Disc(o, r) == MulDiv(314159265, r * r, o.p * o.p)
RegionArea(o, i) == Disc(o, o.r[i]) - (IF i = 1 THEN 0 ELSE Disc(o, o.r[i - 1]))
RingArea(o, k) ==
    IF k = PinRings(o) THEN 100000000 - Disc(o, Last(o.r))
    ELSE LET i == RegionOfRing(o, k) IN RegionArea(o, i) \div o.nr[i]
PinKind(o) == IF o.ord = 1 THEN 4 ELSE 8

FacePts(m, f) == [j \in 1..Len(f) |-> <<m.v[f[j] + 1][1], m.v[f[j] + 1][2]>>]
OnSide(a, b) == \/ (Abs(a[1]) <= 1 /\ Abs(b[1]) <= 1) \/ (Abs(a[1] - 8192) <= 1 /\ Abs(b[1] - 8192) <= 1)
                \/ (Abs(a[2]) <= 1 /\ Abs(b[2]) <= 1) \/ (Abs(a[2] - 8192) <= 1 /\ Abs(b[2] - 8192) <= 1)
L1(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2])
(* corners turn left, up to the resolution of the coordinates *)
LeftTurns(pts) ==
    \A i \in 1..Len(pts) :
        LET a == pts[i] b == pts[(i % Len(pts)) + 1] c == pts[((i + 1) % Len(pts)) + 1]
        IN Orient(a, b, c) >= -(L1(a, b) + L1(b, c))
(* sector boundary number of an angle, or -1 if it is on none *)
SectorLine(na, phi) ==
    LET j == (phi * na + 500000) \div 1000000 IN
    IF Abs(phi * na - j * 1000000) <= na * 8 THEN j % na ELSE -1
SectorOf(na, m, f) ==                                   \* the sector of a face, or -1
    LET C == {m.v[f[j] + 1] : j \in 1..4}
        S == {SectorLine(na, c[4]) : c \in {q \in C : q[3] > 2}}
    IN IF -1 \in S \/ Cardinality(S) # 2 THEN -1
       ELSE LET a == Min(S) b == Max(S) IN
            IF b = a + 1 THEN a ELSE IF a = 0 /\ b = na - 1 THEN b ELSE -1
OuterRho(m, f) == Max({m.v[f[j] + 1][3] : j \in 1..4})

(* the mesh is the pin described by o; areas are known to tolA *)
PinMesh(o, m, tolA) ==
    LET na == o.na
        nr == PinRings(o)
        nf == na * (nr + 1)
        ty == PinKind(o)
        nv == Len(m.v)
        Faces(k) == ((k * na) + 1)..((k + 1) * na)
        E == TLCEval(UNION {{<<i, k>> : k \in 1..4} : i \in 1..nf})
        Ed == TLCEval([e \in E |-> EdgeOf(ty, m.f[e[1]], e[2])])
        DE == TLCEval({Ed[e] : e \in E})
        V(i) == m.v[i + 1]
    IN
    /\ Agree("number of faces", nf, Len(m.f)) /\ Len(m.f) = nf
    /\ Holds("faces refer to vertices", \A i \in 1..nf : Len(m.f[i]) = ty /\
                Cardinality({m.f[i][j] : j \in 1..ty}) = ty /\ \A j \in 1..ty : m.f[i][j] \in 0..(nv - 1), m.f)
    /\ Holds("vertices are used", UNION {{m.f[i][j] : j \in 1..ty} : i \in 1..nf} = 0..(nv - 1), nv)
    /\ Holds("vertices differ", Cardinality({<<m.v[i][1], m.v[i][2]>> : i \in 1..nv}) = nv, nv)
    /\ Holds("inside the cell", \A i \in 1..nv : m.v[i][1] \in -1..8193 /\ m.v[i][2] \in -1..8193, m.v)
    /\ Holds("counter-clockwise", \A i \in 1..nf : m.ar[i] > 0 /\ LeftTurns(CornerPts(ty, FacePts(m, m.f[i]))), m.ar)
    \* the stated area is that of the points
    /\ Holds("area of the points", \A i \in 1..nf :
                LET P == FacePts(m, m.f[i])
                    per == SumSeq([j \in 1..4 |-> L1(P[j], P[(j % 4) + 1])])
                    a6 == Area6(ty, P)
                IN Abs(4 * m.ar[i] + ((m.ar[i] \div 1000) * 2653) \div 100 - a6) <= 8 * per + 100 + 4 * (tolA \div 20), m.ar)
    \* neighbours share edges (and curves), the rest is the side of the square
    /\ Holds("edges used once", Cardinality(DE) = 4 * nf, Cardinality(DE))
    /\ Holds("edges shared", \A e \in DE : Reversed(e) \in DE \/ (OnSide(V(e[1]), V(e[2])) /\ (ty = 8 => OnSide(V(e[1]), V(e[3])))), nf)
    \* rings and sectors
    /\ Holds("sectors", \A k \in 0..nr : {SectorOf(na, m, m.f[i]) : i \in Faces(k)} = 0..(na - 1), m.f)
    /\ Holds("rings", \A k \in 0..(nr - 1) : \A i \in Faces(k) :
                Near(OuterRho(m, m.f[i]), OuterRho(m, m.f[k * na + 1]), 3), nr)
    \* areas
    /\ Holds("ring areas", \A k \in 0..nr :
                Near(RingArea(o, k), SumSeq([i \in 1..na |-> m.ar[k * na + i]]), tolA + na),
                [k \in 0..nr |-> <<RingArea(o, k), SumSeq([i \in 1..na |-> m.ar[k * na + i]])>>])
    /\ Holds("faces of a ring have equal areas", \A k \in 0..(nr - 1) : \A i \in Faces(k) :
                Near(RingArea(o, k) \div na, m.ar[i], tolA), m.ar)

(* materials by region: PinMats (module Model) lists them in face order *)
PinCellOk(st, o, ms) == Agree("materials of the faces", PinMats(st, o), ms)

(* regular grid: x in w / 8192, y in h / 8192, areas in w h / 10^8 *)
RectOk(o, m) ==
    LET nv == (o.nx + 1) * (o.ny + 1) nf == o.nx * o.ny
        \* faces as point lists: which vertex number a grid point has is left open
        want(k) == LET i == (k - 1) % o.nx j == (k - 1) \div o.nx
                       X(a) == (8192 * a) \div o.nx Y(b) == (8192 * b) \div o.ny
                   IN <<<<X(i), Y(j)>>, <<X(i + 1), Y(j)>>, <<X(i + 1), Y(j + 1)>>, <<X(i), Y(j + 1)>>>>
    IN /\ Agree("vertices", nv, Len(m.v)) /\ Agree("faces", nf, Len(m.f))
       /\ Len(m.v) = nv /\ Len(m.f) = nf
       /\ Holds("grid", \A k \in 1..nf : LET P == FacePts(m, m.f[k]) w == want(k) IN
                    Len(P) = 4 /\ \E s \in 0..3 : \A j \in 1..4 : L1(P[((j + s - 1) % 4) + 1], w[j]) <= 3, m.f)
       /\ Holds("equal areas", \A k \in 1..nf : Near(100000000 \div nf, m.ar[k], 2), m.ar)
=============================================================================
