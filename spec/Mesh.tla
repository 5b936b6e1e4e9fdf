------------------------------- MODULE Mesh -------------------------------
(* Face-vertex meshes: ty, vertices v (integer points), faces f (0-based vertex ids). *)
EXTENDS Geom
Empty(ty) == [ty |-> ty, v |-> <<>>, f |-> <<>>]
PtsOf(m, i) == TLCEval(MapSeq(LAMBDA x : m.v[x + 1], m.f[i]))
Faces(m) == 1..Len(m.f)
(* ---- validation ---- *)
Oriented(m) == [m EXCEPT !.f = [i \in Faces(m) |-> IF IsCCW(m.ty, PtsOf(m, i)) THEN m.f[i] ELSE FlipFace(m.ty, m.f[i])]]
DirEdges(m) == TLCEval([x \in Faces(m) \X (1..Corners(m.ty)) |-> EdgeOf(m.ty, m.f[x[1]], x[2])])
Manifold(m) ==          \* an edge is run through at most once in each direction, and along the same curve
    LET d == DirEdges(m) IN
    \A x, y \in DOMAIN d : x # y => <<d[x][1], d[x][2]>> # <<d[y][1], d[y][2]>>
SameCurve(m) ==
    LET d == DirEdges(m) IN
    \A x, y \in DOMAIN d : <<d[x][1], d[x][2]>> = <<d[y][2], d[y][1]>> => d[x] = Reversed(d[y])
Boundary(m) == LET d == DirEdges(m) S == TLCEval({d[x] : x \in DOMAIN d}) IN {e \in S : Reversed(e) \notin S}
Pinched(B) == \E e, g \in B : e # g /\ (e[1] = g[1] \/ e[2] = g[2])
RECURSIVE LoopFrom(_, _, _)
LoopFrom(B, e, seen) ==
    LET nx == {g \in B : g[1] = e[2]} IN
    IF nx = {} THEN seen ELSE LET g == CHOOSE g \in nx : TRUE IN IF g \in seen THEN seen ELSE LoopFrom(B, g, seen \cup {g})
OneLoop(B) == B # {} /\ LET e == CHOOSE e \in B : TRUE IN LoopFrom(B, e, {e}) = B
Sound(m) == LET B == Boundary(m) IN Manifold(m) /\ SameCurve(m) /\ ~Pinched(B) /\ OneLoop(B)
(* a face keeps its boundary but runs through it the other way *)
IsReversal(ty, f, g) ==
    LET E == {EdgeOf(ty, f, k) : k \in 1..Corners(ty)} G == {EdgeOf(ty, g, k) : k \in 1..Corners(ty)} IN
    /\ Len(g) = Len(f)
    /\ G = {Reversed(e) : e \in E}
(* ---- incidence ---- *)
Incident(m, x) == SetToSortSeq({i - 1 : i \in {i \in Faces(m) : x \in Range(m.f[i])}}, LAMBDA a, b : a < b)
(* ---- Z-order of the vertices of a mesh whose bounding box has extents that are powers of two ---- *)
MinC(m, c) == Min({p[c] : p \in Range(m.v)})
MaxC(m, c) == Max({p[c] : p \in Range(m.v)})
Ext(m, c) == MaxC(m, c) - MinC(m, c)
PowerOfTwo(x) == x \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
CodeCoord(m, p, c) == ((p[c] - MinC(m, c)) * 65535) \div Ext(m, c)
Bit(x, k) == (x \div 2^k) % 2
ZLess(a, b, hi, lo) ==     \* a, b pairs; hi: index of the coordinate whose bits weigh more
    LET D == {k \in 0..15 : Bit(a[1], k) # Bit(b[1], k) \/ Bit(a[2], k) # Bit(b[2], k)} IN
    IF D = {} THEN FALSE
    ELSE LET k == Max(D) IN
         IF Bit(a[hi], k) # Bit(b[hi], k) THEN Bit(a[hi], k) < Bit(b[hi], k) ELSE Bit(a[lo], k) < Bit(b[lo], k)
ZSorted(m) ==
    LET c == [i \in 1..Len(m.v) |-> <<CodeCoord(m, m.v[i], 1), CodeCoord(m, m.v[i], 2)>>] IN
    \/ \A i \in 1..(Len(m.v) - 1) : ~ZLess(c[i + 1], c[i], 2, 1)
    \/ \A i \in 1..(Len(m.v) - 1) : ~ZLess(c[i + 1], c[i], 1, 2)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) \cup Range(t) : Count(s, x) = Count(t, x)
AllPts(m) == [i \in Faces(m) |-> PtsOf(m, i)]
ValidIds(m) == \A i \in Faces(m) : \A x \in Range(m.f[i]) : x >= 0 /\ x < Len(m.v)
(* ---- point location and rays ---- *)
Containing(m, p) == {i \in Faces(m) : InFace(m.ty, PtsOf(m, i), p)}
EdgePts(m, i) == LET P == PtsOf(m, i) IN TLCEval(EdgesOf(m.ty, P))
CrossEdge(o, e) == IF Len(e) = 3 THEN RayArc(o.p, o.d, o.h, e[1], e[2], e[3]) ELSE RayLine(o.p, o.d, o.h, e[1], e[2])
CrossFace(m, o, i) ==   \* distances (thousandths) where the ray meets the boundary of face i
    LET E == EdgePts(m, i) IN SortSeq(FlattenSeq(TLCEval(MapSeq(LAMBDA e : CrossEdge(o, e), E))), LAMBDA a, b : a < b)
Pad(x) == IF Len(x) % 2 = 1 THEN <<0>> \o x ELSE x     \* the ray starts inside
Inside(x) == LET s == TLCEval(Pad(x)) IN SumSeq([k \in 1..(Len(s) \div 2) |-> s[2 * k] - s[2 * k - 1]])
BoundaryPts(m) == LET B == SetToSeq(Boundary(m)) IN TLCEval(MapSeq(LAMBDA e : MapSeq(LAMBDA x : m.v[x + 1], e), B))
RegionLength(m, o) ==
    LET E == BoundaryPts(m) IN Inside(SortSeq(FlattenSeq(TLCEval(MapSeq(LAMBDA e : CrossEdge(o, e), E))), LAMBDA a, b : a < b))
GeneralRay(m, o) ==
    \A i \in Faces(m) : \A e \in Range(EdgePts(m, i)) :
        IF Len(e) = 3 THEN GeneralArc(o.p, o.d, e[1], e[2], e[3]) ELSE GeneralLine(o.p, o.d, e[1], e[2])
GeneralPoint(m, p) ==
    Quadratic(m.ty) => \A i \in Faces(m) : \A e \in Range(EdgePts(m, i)) : AwayFromArc(p, e[1], e[2], e[3])
(* ---- transitions ---- *)
MInit == Empty(3)
Pre(m, o) ==
    CASE o.k = "addf" -> \A x \in Range(o.c) : x >= 0 /\ x < Len(m.v)
      [] o.k = "flip" -> o.i + 1 \in Faces(m)
      [] o.k = "val" -> Len(m.f) > 0
      [] o.k \in {"sort", "sortv", "sortf"} -> Len(m.f) > 0 /\ Oriented(m) = m
      [] o.k = "get" -> o.i + 1 \in Faces(m)
      [] o.k = "loc" -> GeneralPoint(m, o.p)
      [] o.k = "ray" -> GeneralRay(m, o)
      [] OTHER -> TRUE
Apply(m, o) ==          \* deterministic part
    CASE o.k = "new" -> Empty(o.ty)
      [] o.k = "addv" -> [m EXCEPT !.v = Append(@, o.p)]
      [] o.k = "addf" -> [m EXCEPT !.f = Append(@, o.c)]
      [] o.k = "build" -> [ty |-> o.ty, v |-> o.v, f |-> o.f]
      [] o.k = "flip" -> [m EXCEPT !.f[o.i + 1] = FlipFace(m.ty, @)]
      [] OTHER -> m
Validates(o) == o.k = "val" \/ (o.k = "build" /\ o.via # "soup")
(* ---- relations a result has to satisfy ---- *)
ValidatedTo(m, n) ==
    /\ n.ty = m.ty /\ Agree("vertices", m.v, n.v) /\ Agree("number of faces", Len(m.f), Len(n.f))
    /\ \A i \in Faces(m) : IF IsCCW(m.ty, PtsOf(m, i)) THEN Agree("face kept", m.f[i], n.f[i])
                           ELSE Holds("face reversed", IsReversal(m.ty, m.f[i], n.f[i]), <<m.f[i], n.f[i]>>)
SortedTo(m, n, o) ==
    /\ n.ty = m.ty /\ Agree("number of faces", Len(m.f), Len(n.f)) /\ Holds("vertex ids", ValidIds(n), n)
    /\ IF o.k = "sortf" THEN Agree("vertices", m.v, n.v) ELSE Holds("same vertices", SameBag(m.v, n.v), n.v)
    /\ CASE o.k = "sortf" -> Holds("same faces", SameBag(m.f, n.f), n.f)
         [] o.k = "sortv" -> Agree("faces as points", AllPts(m), AllPts(n))
         [] o.k = "sort" -> Holds("same faces as points", SameBag(AllPts(m), AllPts(n)), n.f)
    /\ o.k # "sortf" /\ ~Quadratic(m.ty) /\ PowerOfTwo(Ext(m, 1)) /\ PowerOfTwo(Ext(m, 2))
          => Holds("Z-order", ZSorted(n), n.v)
=============================================================================
