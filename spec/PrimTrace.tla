----------------------------- MODULE PrimTrace -----------------------------
EXTENDS Prim
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
B01(x) == IF x THEN 1 ELSE 0
Sorted(s) == SortSeq(s, LAMBDA x, y : x < y)
Tol(x) == 3 + Abs(x) \div 300
NearP(name, e, a, t) == AgreeSeqNear(name, e, a, t)
NearBox(e, b) == NearP("box minima", e[1], b[1], 2) /\ NearP("box maxima", e[2], b[2], 2)
Shape(p, out) ==
    LET n == Corners(p.ty) c == CornerPts(p.ty, p.v) IN
    /\ Agree("vertices", p.v, out.v)
    /\ (n = 3 /\ Twice(c) # 0) \/ (n = 4 /\ (StrictQuad(c) \/ StrictQuad(Reverse(c))))
        => Agree("counter-clockwise", B01(Twice(c) > 0), out.ccw)
    /\ p.ty = 4 => Agree("convex", B01(Convex(c)), out.cvx) /\ Agree("nearly convex", B01(Convex(c)), out.acvx)
RayHits(ty, P, o) == Sorted(FlattenSeq([k \in 1..Corners(ty) |->
    LET e == EdgeOf(ty, P, k) IN
    IF Dev(e) = <<0, 0>> THEN RayLine(o.x, o.d, o.l, e[1], e[2]) ELSE RayArc(o.x, o.d, o.l, e[1], e[2], e[3])]))
General(e, o) == IF Dev(e) = <<0, 0>> THEN GeneralLine(o.x, o.d, e[1], e[2]) ELSE GeneralArc(o.x, o.d, e[1], e[2], e[3])
HitsNear(name, e, a) == Holds(name, Len(e) = Len(a) /\ \A i \in 1..Len(e) : Near(e[i], a[i], 3 + e[i] \div 500), <<e, a>>)
SegQ(e, o, out) ==
    LET len == LenM(e) v == Sub(e[2], e[1]) w == Sub(At(e, 4, 1), Scale(16, e[1])) IN
    /\ Agree("point", At(e, 4, o.i), out.f)
    /\ Agree("tangent", Scale(4, Deriv(e, 4, o.i)), out.j)
    /\ AgreeNear("length", len, out.len, Tol(len))
    /\ NearBox(SegBox(e), out.bb)
    /\ LET c == SqrtM(Norm2(v)) IN
       /\ NearP("rotated end", <<c, 0>>, out.rot, Tol(c))
       /\ AgreeNear("rotated x", MDs(1000000, Dot(v, w), 16 * c), out.rot2[1], 60)
       /\ AgreeNear("rotated y", MDs(1000000, Cross(v, w), 16 * c), out.rot2[2], 60)
    /\ Len(e) = 3 =>
       LET d == Dev(e) IN
       /\ Agree("coefficients", <<e[1], AddP(v, Scale(2, d)), Scale(-2, d)>>, out.co)
       /\ Agree("enclosed area", 2 * Cross(Sub(e[3], e[1]), v), out.ea)
       /\ Agree("enclosed centroid", AddP(Scale(3, AddP(e[1], e[2])), Scale(4, e[3])), out.ec)
       /\ Cross(v, d) # 0 => Agree("curves left", B01(Cross(v, d) < 0), out.left)
       /\ WellFormed(e) => Agree("straight", B01(Cross(v, d) = 0), out.straight)
SegP(e, p, out) ==
    /\ Clear(e, p) => Agree("left", B01(LeftOf(e, p)), out.left)
    /\ AgreeNear("distance and its square", MDs(1, MD(out.d, out.d, 1000), 1), out.d2, 3 + out.d \div 300)
    /\ IF Dev(e) = <<0, 0>>
       THEN LET t == LineParam(e, p) r == MaxI(0, MinI(t[2], t[1])) IN
            /\ AgreeNear("parameter", MD(4096, r, t[2]), out.r, 1)
            /\ LET q == <<t[2] * (p[1] - e[1][1]) - r * (e[2][1] - e[1][1]), t[2] * (p[2] - e[1][2]) - r * (e[2][2] - e[1][2])>>
                   m == MaxI(Abs(q[1]), Abs(q[2]))
                   z == 1 + m \div 1000                  \* keeps the squares small
                   d == MD(SqrtM(Norm2(<<q[1] \div z, q[2] \div z>>)), z, t[2])
               IN AgreeNear("distance", d, out.d, 20 + d \div 100)
       ELSE LET G == TLCEval([k \in 0..NPiece |-> GridDist(e, p, k)])
                g == Min({G[k] : k \in 0..NPiece})
                h == LenM(e) \div 100                     \* more than half a grid step
                k == (out.r * NPiece + 2048) \div 4096
            IN /\ Holds("range of the parameter", out.r >= 0 /\ out.r <= 4096, out.r)
               /\ Holds("nearest distance", out.d <= g + 30 /\ out.d >= g - h - 30, <<g, out.d>>)
               /\ Holds("distance at the parameter", Near(G[k], out.d, h + 30), <<G[k], out.d>>)
SegX(e, f, out) ==
    LET A == Poly(e) B == Poly(f) X == TLCEval(CrossPairs(A, B)) IN
    ClearPair(A, B, X, {}) /\ Apart(X) /\ (\A x \in X : Steep(A, B, x)) =>
        /\ Agree("number of crossings", Cardinality(X), out.n)
        /\ Agree("crossing", B01(X # {}), out.any)
        /\ \A x \in X : LET c == CrossPoint(A, B, x) IN
              Holds("crossing point", \E i \in 1..Len(out.x) : SeqNear(c, out.x[i], 25), <<c, out.x>>)
SelfX(ty, P, out) ==
    LET n == Corners(ty)
        E == TLCEval([k \in 1..n |-> Poly(EdgeOf(ty, P, k))])
        prs == {p \in (1..n) \X (1..n) : p[1] < p[2]}
        sh(p) == {<<NP, 0>> : z \in {1} \cap (IF p[2] = p[1] + 1 THEN {1} ELSE {})} \cup {<<0, NP>> : z \in {1} \cap (IF p[1] = 1 /\ p[2] = n THEN {1} ELSE {})}
        X == TLCEval([p \in prs |-> CrossPairs(E[p[1]], E[p[2]])])
        clear == \A p \in prs : ClearPair(E[p[1]], E[p[2]], X[p], sh(p)) /\ Apart(X[p] \cup sh(p)) /\ \A x \in X[p] : Steep(E[p[1]], E[p[2]], x)
    IN clear => /\ (\A p \in prs : X[p] = {}) => Agree("simple", 0, out.self)
                /\ (\E p \in prs : Cardinality(X[p]) + Cardinality(sh(p)) = 2) => Agree("crosses itself", 1, out.self)
BoxQ(b, o, out) ==
    LET c == BoxArg(o) IN
    /\ Agree("inside", [i \in 1..Len(o.pts) |-> B01(InBox(b, o.pts[i]))], out.in)
    /\ Agree("meets", B01(BoxesMeet(b, c)), out.meets)
    /\ Agree("same", B01(b = c), out.same)
    /\ b # <<>> =>
       /\ Agree("extents", VSub(b[2], b[1]), out.ext) /\ Agree("extent", VSub(b[2], b[1]), out.ei)
       /\ NearP("centre", [i \in 1..Len(b[1]) |-> (b[1][i] + b[2][i]) \div 2], out.cen, 1)
       /\ Agree("minima", b[1], out.mi) /\ Agree("maxima", b[2], out.ma)
BoxR(b, o, out) ==
    LET r == RayBox(b, o.x, o.d, o.l) D == 64 * RayDen(o.d) IN
    /\ RayBoxClear(b, o.x, o.d, o.l) =>
       /\ IF r = <<>> THEN Agree("miss", <<-1, -1>>, out.t)
          ELSE NearP("interval", <<MD(1000, r[1], D), MD(1000, r[2], D)>>, out.t, 2)
       /\ Agree("both forms", 1, out.same2)
    /\ NearP("point on the ray", [i \in 1..Len(o.x) |-> 1000 * o.x[i] + (2500 * o.d[i]) \div o.l], out.at, 2)
Conform(s, t, o, out) ==       \* s before, t after
    LET p == t.p IN
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ CASE o.k \in {"poly", "flip", "move"} -> Shape(p, out)
         [] o.k = "pq" ->
               /\ Shape(p, out)
               /\ Agree("edges", EdgesOf(p.ty, p.v), out.e)
               /\ Agree("mapped point", Map32(p.ty, p.v, o.i, o.j), out.f)
               /\ Agree("derivatives", Jac32(p.ty, p.v, o.i, o.j), out.j)
               /\ NearBox(PolyBox(p.ty, p.v), out.bb)
         [] o.k = "pm" ->
               /\ Shape(p, out)
               /\ Measurable(p.ty, p.v) =>
                  LET a == Area6(p.ty, p.v) n == Len1000(p.ty, p.v) m == MD(523599, a, n) IN
                  /\ Agree("area", a, out.a)
                  /\ NearP("centroid", [c \in 1..2 |-> MD(1000, Moment30(p.ty, p.v, c), 5 * a)], out.c, 3)
                  /\ AgreeNear("perimeter", n, out.p, Tol(n))
                  /\ AgreeNear("mean chord length", m, out.mcl, Tol(m))
         [] o.k = "pc" ->
               /\ Shape(p, out)
               /\ (Measurable(p.ty, p.v) /\ Tame(p.ty, p.v)) =>
                  \A i \in 1..Len(o.pts) :
                     (\A k \in 1..Corners(p.ty) : Clear(EdgeOf(p.ty, p.v, k), o.pts[i])) =>
                        Holds("contains", out.in[i] = B01(InFace(p.ty, p.v, o.pts[i])), <<o.pts[i], out.in[i]>>)
         [] o.k = "pr" ->
               /\ Shape(p, out)
               /\ ((\A k \in 1..Corners(p.ty) : General(EdgeOf(p.ty, p.v, k), o)) =>
                     HitsNear("ray crossings", RayHits(p.ty, p.v, o), Sorted(out.r)))
         [] o.k = "ps" -> Shape(p, out) /\ (Quadratic(p.ty) => SelfX(p.ty, p.v, out))
         [] o.k = "sq" -> SegQ(t.g, o, out)
         [] o.k = "sp" -> WellFormed(t.g) => SegP(t.g, o.x, out)
         [] o.k = "sr" ->
               General(t.g, o) =>
                  HitsNear("ray crossings, nearest first",
                     IF Dev(t.g) = <<0, 0>> THEN RayLine(o.x, o.d, o.l, t.g[1], t.g[2])
                     ELSE Sorted(RayArc(o.x, o.d, o.l, t.g[1], t.g[2], t.g[3])), out.r)
         [] o.k = "sx" -> SegX(t.g, o.v, out)
         [] o.k = "tri3" ->
               LET a == o.v[1] b == o.v[2] c == o.v[3] u == VSub(b, a) w == VSub(c, a)
                   n == <<u[2] * w[3] - u[3] * w[2], u[3] * w[1] - u[1] * w[3], u[1] * w[2] - u[2] * w[1]>>
                   ar == SqrtM(Norm2(n)) \div 2
                   pe == SqrtM(Norm2(u)) + SqrtM(Norm2(w)) + SqrtM(Norm2(VSub(c, b)))
                   r == LineParam(<<a, b>>, c) h == MaxI(0, MinI(r[1], r[2]))
               IN /\ AgreeNear("area", ar, out.a, Tol(ar))
                  /\ Agree("centroid", [i \in 1..3 |-> a[i] + b[i] + c[i]], out.c)
                  /\ AgreeNear("perimeter", pe, out.p, Tol(pe))
                  /\ Agree("box", [z \in 1..2 |-> [i \in 1..3 |-> BoxOf(o.v)[z][i] \div 64]], out.bb)
                  /\ Agree("mapped point", [i \in 1..3 |-> a[i] + b[i] + 2 * c[i]], out.f)
                  /\ AgreeNear("length", SqrtM(Norm2(u)), out.len, 20)
                  /\ AgreeNear("parameter", MD(4096, h, r[2]), out.r, 1)
                  /\ LET q == [i \in 1..3 |-> MD(1, w[i] * r[2] - h * u[i], r[2])] IN     \* whole units
                     Holds("distance", Near(ISqrt(Norm2(q)), ISqrt(out.d2 \div 1000), 3), out.d2)
         [] o.k = "turn" ->
               LET c == Orient(o.v[1], o.v[2], o.v[3]) IN
               /\ Agree("ccw", B01(c >= 0), out.ccw) /\ Agree("nearly ccw", B01(c >= 0), out.accw)
               /\ Agree("midpoint", AddP(o.v[1], o.v[2]), out.mid)
         [] o.k = "bq" -> BoxQ(t.b, o, out) /\ Agree("box", t.b, out.b)
         [] o.k = "br" -> BoxR(t.b, o, out)
         [] o.k \in {"bempty", "bset", "bpts", "baddp", "baddb", "bscale"} -> Agree("box", t.b, out.b)
         [] OTHER -> TRUE
TInit == l = 1 /\ st = Start
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = Start
            ELSE st' = Step(st, e.op) /\ Conform(st, st', e.op, e.out) = TRUE
TSpec == TInit /\ [][TNext]_<<l, st>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
