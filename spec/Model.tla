------------------------------- MODULE Model -------------------------------
(* The model of a reactor core: materials, fine meshes, coarse cells, ray-tracing modules
   (RTMs), lattices, assemblies and one core, and the calls that build it.  Lengths are
   integers in sixteenths of the length unit, axial planes in halves of the axial unit. *)
EXTENDS Common

MInit == [mats |-> <<>>, m3 |-> <<>>, m4 |-> <<>>, m6 |-> <<>>, m8 |-> <<>>,
          cells |-> <<>>, rtms |-> <<>>, lats |-> <<>>, asys |-> <<>>,
          core |-> [xd |-> <<>>, yd |-> <<>>, ch |-> <<>>]]

Cum(w) == [i \in 1..(Len(w) + 1) |-> SumSeq(SubSeq(w, 1, i - 1))]
(* Rows are written top to bottom; parts are stored bottom to top. *)
FlatRows(rows) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, Reverse(rows))
Rectangular(rows) == \A i \in 1..Len(rows) : Len(rows[i]) = Len(rows[1])
IdsIn(rows, n) == \A i \in 1..Len(rows) : \A j \in 1..Len(rows[i]) : rows[i][j] >= 0 /\ rows[i][j] < n
(* Ext(id) is the pair of extents of part id; all columns/rows agree (a caller obligation). *)
Conforming(rows, Ext(_)) ==
    /\ \A i \in 1..Len(rows), j \in 1..Len(rows[1]) :
          /\ Ext(rows[i][j])[1] = Ext(rows[1][j])[1]
          /\ Ext(rows[i][j])[2] = Ext(rows[i][1])[2]
GridOf(rows, Ext(_)) ==
    [xd |-> Cum([j \in 1..Len(rows[1]) |-> Ext(rows[1][j])[1]]),
     yd |-> LET r == Reverse(rows) IN Cum([i \in 1..Len(r) |-> Ext(r[i][1])[2]]),
     ch |-> FlatRows(rows)]
GridExt(g) == <<Last(g.xd), Last(g.yd)>>

MeshField(t) == CASE t = 3 -> "m3" [] t = 4 -> "m4" [] t = 6 -> "m6" [] t = 8 -> "m8"
Meshes(st, t) == CASE t = 3 -> st.m3 [] t = 4 -> st.m4 [] t = 6 -> st.m6 [] t = 8 -> st.m8 [] OTHER -> <<>>

RectMesh(w, h, nx, ny) ==
    [nf |-> nx * ny, nv |-> (nx + 1) * (ny + 1), tracked |-> TRUE, src |-> [k |-> "rect", nx |-> nx, ny |-> ny],
     v |-> [k \in 1..((nx + 1) * (ny + 1)) |->
               LET i == (k - 1) % (nx + 1) j == (k - 1) \div (nx + 1)
               IN <<(i * w) \div nx, (j * h) \div ny>>],
     f |-> [k \in 1..(nx * ny) |->
               LET i == (k - 1) % nx j == (k - 1) \div nx v0 == j * (nx + 1) + i
               IN <<v0, v0 + 1, v0 + nx + 2, v0 + nx + 1>>]]
GivenMesh(o) == [nf |-> Len(o.f), nv |-> Len(o.v), tracked |-> TRUE, v |-> o.v, f |-> o.f, src |-> [k |-> "mesh"]]
CylMesh(o) == [nf |-> o.na * (SumSeq(o.nr) + 1), nv |-> 0, tracked |-> FALSE, v |-> <<>>, f |-> <<>>, src |-> o]

(* 10000 * (radius of the area-equivalent shape / radius)^2: polygon corners for the linear
   form, middles of the curved edges for the quadratic form *)
EqFactor(ord, na) ==
    IF ord = 1 THEN CASE na = 8 -> 11107 [] na = 16 -> 10262 [] na = 32 -> 10065 [] na = 64 -> 10016 [] OTHER -> 10004
    ELSE CASE na = 8 -> 10012 [] OTHER -> 10001
PinOk(o) ==
    /\ o.ord \in {1, 2}
    /\ o.na \in {8, 16, 32, 64, 128}
    /\ Len(o.r) = Len(o.nr) /\ Len(o.r) > 0
    /\ \A i \in 1..Len(o.r) : o.nr[i] > 0 /\ o.r[i] > (IF i = 1 THEN 0 ELSE o.r[i - 1])
    /\ \A i \in 1..Len(o.r) : 4 * o.r[i] * o.r[i] + (4 * o.r[i] * o.r[i] * (EqFactor(o.ord, o.na) - 10000) + 9999) \div 10000 <= o.p * o.p

MatIndex(st, n) == IndexWhere(st.mats, LAMBDA m : m = n) - 1        \* first of that name
PinMats(st, o) ==
    FoldLeft(LAMBDA acc, i : acc \o Const(o.nr[i] * o.na, MatIndex(st, o.ms[i])), <<>>, [i \in 1..Len(o.nr) |-> i])
    \o Const(o.na, MatIndex(st, Last(o.ms)))
CellExt(st, id) == st.cells[id + 1].e
RtmExt(st, id) == GridExt(st.rtms[id + 1])
LatExt(st, id) == LET l == st.lats[id + 1] IN <<l.n[1] * l.sp[1], l.n[2] * l.sp[2]>>
AsyExt(st, id) == LatExt(st, st.asys[id + 1].ch[1])

(* Is the call acceptable? *)
Ok(st, o) ==
    CASE o.k \in {"unit", "mat", "mesh", "clear", "copy", "export", "pinq"} -> TRUE
      [] o.k = "cyl" -> PinOk(o)
      [] o.k = "pincell" -> /\ PinOk(o)
                            /\ Len(o.ms) = Len(o.nr) + 1
                            /\ \A i \in 1..Len(o.ms) : MatIndex(st, o.ms[i]) >= 0
      [] o.k = "rect" -> o.w > 0 /\ o.h > 0 /\ o.nx > 0 /\ o.ny > 0
      [] o.k = "cell" -> /\ o.w > 0 /\ o.h > 0
                         /\ o.m # -1 =>
                              /\ o.t \in {3, 4, 6, 8}
                              /\ o.m >= 0 /\ o.m < Len(Meshes(st, o.t))
                              /\ Len(o.ms) = Meshes(st, o.t)[o.m + 1].nf
                              /\ \A i \in 1..Len(o.ms) : o.ms[i] >= 0 /\ o.ms[i] < Len(st.mats)
      [] o.k = "rtm" -> /\ IdsIn(o.rows, Len(st.cells))
                        /\ Rectangular(o.rows)
                        /\ st.rtms # <<>> =>
                             GridExt(GridOf(o.rows, LAMBDA i : CellExt(st, i))) = RtmExt(st, 0)
      [] o.k = "lat" -> IdsIn(o.rows, Len(st.rtms)) /\ Rectangular(o.rows)
      [] o.k = "asy" ->
            /\ \A i \in 1..Len(o.l) : o.l[i] >= 0 /\ o.l[i] < Len(st.lats)
            /\ Len(o.l) + 1 = Len(o.z)
            /\ IsSortedSeq(o.z)
            /\ (o.flat /\ Last(o.z) = o.half /\ o.z[1] = -o.half) \/ o.z[1] = 0
            /\ st.asys # <<>> => /\ Last(o.z) = Last(st.asys[1].z)
                                 /\ o.z[1] = st.asys[1].z[1]
            /\ \A i \in 1..Len(o.l) : st.lats[o.l[i] + 1].n = st.lats[o.l[1] + 1].n
      [] o.k = "core" -> st.core.ch = <<>> /\ IdsIn(o.rows, Len(st.asys)) /\ Rectangular(o.rows)
      [] o.k = "grid" -> o.w > 0 /\ o.h > 0 /\ o.nx > 0 /\ o.ny > 0

(* Obligations of the caller (asserted by the library, not rejected). *)
Pre(st, o) ==
    CASE o.k = "rtm" -> IdsIn(o.rows, Len(st.cells)) /\ Rectangular(o.rows) =>
                          Conforming(o.rows, LAMBDA i : CellExt(st, i))
      [] o.k = "core" -> st.core.ch = <<>> /\ IdsIn(o.rows, Len(st.asys)) /\ Rectangular(o.rows) =>
                          Conforming(o.rows, LAMBDA i : AsyExt(st, i))
      [] o.k = "grid" -> st.cells = <<>> /\ st.rtms = <<>> /\ st.lats = <<>> /\ st.asys = <<>>
      [] o.k = "export" -> st.core.ch # <<>> => \A i \in 1..Len(st.cells) : st.cells[i].m >= 0
      [] OTHER -> TRUE

BareCell(w, h) == [e |-> <<w, h>>, t |-> 0, m |-> -1, ms |-> <<>>]
Apply(st, o) ==
    IF ~Ok(st, o) THEN st
    ELSE
    CASE o.k = "mat" -> [st EXCEPT !.mats = Append(@, o.n)]
      [] o.k = "cyl" -> IF o.ord = 1 THEN [st EXCEPT !.m4 = Append(@, CylMesh(o))]
                        ELSE [st EXCEPT !.m8 = Append(@, CylMesh(o))]
      [] o.k = "pincell" ->
            LET t == IF o.ord = 1 THEN 4 ELSE 8
                c == [e |-> <<o.p, o.p>>, t |-> t, m |-> Len(Meshes(st, t)), ms |-> PinMats(st, o)]
                s1 == [st EXCEPT !.cells = Append(@, c)]
            IN IF o.ord = 1 THEN [s1 EXCEPT !.m4 = Append(@, CylMesh(o))]
               ELSE [s1 EXCEPT !.m8 = Append(@, CylMesh(o))]
      [] o.k = "rect" -> [st EXCEPT !.m4 = Append(@, RectMesh(o.w, o.h, o.nx, o.ny))]
      [] o.k = "mesh" -> (CASE o.t = 3 -> [st EXCEPT !.m3 = Append(@, GivenMesh(o))]
                           [] o.t = 4 -> [st EXCEPT !.m4 = Append(@, GivenMesh(o))]
                           [] o.t = 6 -> [st EXCEPT !.m6 = Append(@, GivenMesh(o))]
                           [] o.t = 8 -> [st EXCEPT !.m8 = Append(@, GivenMesh(o))])
      [] o.k = "cell" -> [st EXCEPT !.cells = Append(@, [e |-> <<o.w, o.h>>, t |-> o.t, m |-> o.m, ms |-> o.ms])]
      [] o.k = "rtm" -> [st EXCEPT !.rtms = Append(@, GridOf(o.rows, LAMBDA i : CellExt(st, i)))]
      [] o.k = "lat" -> [st EXCEPT !.lats = Append(@, [n |-> <<Len(o.rows[1]), Len(o.rows)>>,
                              sp |-> RtmExt(st, 0), mn |-> <<0, 0>>, ch |-> FlatRows(o.rows)])]
      [] o.k = "asy" -> [st EXCEPT !.asys = Append(@, [z |-> o.z, ch |-> o.l])]
      [] o.k = "core" -> [st EXCEPT !.core = GridOf(o.rows, LAMBDA i : AsyExt(st, i))]
      [] o.k = "grid" ->
            LET n == o.nx * o.ny dx == o.w \div o.nx dy == o.h \div o.ny IN
            [st EXCEPT !.cells = Const(n, BareCell(dx, dy)),
                       !.rtms = [i \in 1..n |-> [xd |-> <<0, dx>>, yd |-> <<0, dy>>, ch |-> <<i - 1>>]],
                       !.lats = <<[n |-> <<o.nx, o.ny>>, sp |-> <<dx, dy>>, mn |-> <<0, 0>>, ch |-> Range0(n)]>>,
                       !.asys = <<[z |-> <<-o.half, o.half>>, ch |-> <<0>>]>>,
                       !.core = [xd |-> <<0, o.nx * dx>>, yd |-> <<0, o.ny * dy>>, ch |-> <<0>>]]
      [] o.k = "clear" -> MInit
      [] OTHER -> st

(* The value returned by the call. *)
Ret(st, o) ==
    IF ~Ok(st, o) /\ o.k # "grid" THEN -1
    ELSE CASE o.k = "mat" -> Len(st.mats)
           [] o.k = "cyl" -> IF o.ord = 1 THEN Len(st.m4) ELSE Len(st.m8)
           [] o.k = "pincell" -> Len(st.cells)
           [] o.k = "rect" -> Len(st.m4)
           [] o.k = "mesh" -> Len(Meshes(st, o.t))
           [] o.k = "cell" -> Len(st.cells)
           [] o.k = "rtm" -> Len(st.rtms)
           [] o.k = "lat" -> Len(st.lats)
           [] o.k = "asy" -> Len(st.asys)
           [] OTHER -> 0

(* ---- instances ---------------------------------------------------------------------- *)
ConcatMap(F(_), s) == FoldLeft(LAMBDA acc, x : acc \o F(x), <<>>, s)
(* Every coarse-cell instance in export order with its absolute lower left corner, the sum
   of its slice's two axial planes and the positions (core cell, slice, lattice cell, RTM
   cell) it is nested in. *)
RtmInst(st, r, x, y, zz, path) ==
    LET g == st.rtms[r + 1] nx == Len(g.xd) - 1 IN
    [k \in 1..Len(g.ch) |->
        LET i == (k - 1) % nx j == (k - 1) \div nx IN
        [c |-> g.ch[k], x |-> x + g.xd[i + 1], y |-> y + g.yd[j + 1], zz |-> zz,
         path |-> Append(path, k)]]
LatInst(st, l, x, y, zz, path) ==
    LET g == st.lats[l + 1] IN
    ConcatMap(LAMBDA k : LET i == (k - 1) % g.n[1] j == (k - 1) \div g.n[1] IN
                 RtmInst(st, g.ch[k], x + i * g.sp[1], y + j * g.sp[2], zz, Append(path, k)),
              [k \in 1..Len(g.ch) |-> k])
AsyInst(st, a, x, y, path) ==
    LET g == st.asys[a + 1] IN
    ConcatMap(LAMBDA k : LatInst(st, g.ch[k], x, y, g.z[k] + g.z[k + 1], Append(path, k)),
              [k \in 1..Len(g.ch) |-> k])
Instances(st) ==
    LET g == st.core nx == Len(g.xd) - 1 IN
    ConcatMap(LAMBDA k : LET i == (k - 1) % nx j == (k - 1) \div nx IN
                 AsyInst(st, g.ch[k], g.xd[i + 1], g.yd[j + 1], <<k>>),
              [k \in 1..Len(g.ch) |-> k])
(* part ids along the path of an instance *)
AsyId(st, p) == st.core.ch[p[1]]
LatId(st, p) == st.asys[AsyId(st, p) + 1].ch[p[2]]
RtmId(st, p) == st.lats[LatId(st, p) + 1].ch[p[3]]

Totals(st) ==
    LET AsyLat(a) == Len(st.asys[a + 1].ch)
        LatRtm(l) == Len(st.lats[l + 1].ch)
        RtmCell(r) == Len(st.rtms[r + 1].ch)
        CellFine(c) == Len(st.cells[c + 1].ms)
        Sum(F(_), s) == FoldLeft(LAMBDA acc, x : acc + F(x), 0, s)
        A == st.core.ch
        FineR(r) == Sum(CellFine, st.rtms[r + 1].ch)
        CellL(l) == Sum(RtmCell, st.lats[l + 1].ch)
        FineL(l) == Sum(FineR, st.lats[l + 1].ch)
        RtmA(a) == Sum(LatRtm, st.asys[a + 1].ch)
        CellA(a) == Sum(CellL, st.asys[a + 1].ch)
        FineA(a) == Sum(FineL, st.asys[a + 1].ch)
    IN <<Len(A), Sum(AsyLat, A), Sum(RtmA, A), Sum(CellA, A), Sum(FineA, A)>>

(* ---- design properties of the specification itself ----------------------------------- *)
RefsOk(st) ==
    /\ \A i \in 1..Len(st.cells) : LET c == st.cells[i] IN
          c.m # -1 => c.m < Len(Meshes(st, c.t)) /\ \A j \in 1..Len(c.ms) : c.ms[j] \in 0..(Len(st.mats) - 1)
    /\ \A i \in 1..Len(st.rtms) : \A j \in 1..Len(st.rtms[i].ch) : st.rtms[i].ch[j] \in 0..(Len(st.cells) - 1)
    /\ \A i \in 1..Len(st.lats) : \A j \in 1..Len(st.lats[i].ch) : st.lats[i].ch[j] \in 0..(Len(st.rtms) - 1)
    /\ \A i \in 1..Len(st.asys) : \A j \in 1..Len(st.asys[i].ch) : st.asys[i].ch[j] \in 0..(Len(st.lats) - 1)
    /\ \A j \in 1..Len(st.core.ch) : st.core.ch[j] \in 0..(Len(st.asys) - 1)
UniformOk(st) ==
    /\ \A i \in 1..Len(st.rtms) : GridExt(st.rtms[i]) = GridExt(st.rtms[1])
    /\ \A i \in 1..Len(st.asys) : Last(st.asys[i].z) = Last(st.asys[1].z) /\ st.asys[i].z[1] = st.asys[1].z[1]
(* the instances of the core tile it: no two lower left corners coincide, counts agree, and
   areas per slice add up to the area of the core *)
TilesOk(st) ==
    LET I == Instances(st) IN
    /\ Len(I) = Totals(st)[4]
    /\ Cardinality({<<I[i].x, I[i].y, I[i].zz>> : i \in 1..Len(I)}) =
          (IF \E a \in 1..Len(st.asys) : \E k \in 1..(Len(st.asys[a].z) - 1) : st.asys[a].z[k] = st.asys[a].z[k + 1]
           THEN Cardinality({<<I[i].x, I[i].y, I[i].zz>> : i \in 1..Len(I)}) ELSE Len(I))
    /\ st.core.ch # <<>> =>
         LET vol(i) == CellExt(st, I[i].c)[1] * CellExt(st, I[i].c)[2]
                       * (LET a == AsyId(st, I[i].path) s == I[i].path[2] IN st.asys[a + 1].z[s + 1] - st.asys[a + 1].z[s])
             e == GridExt(st.core)
         IN FoldLeft(LAMBDA acc, i : acc + vol(i), 0, [i \in 1..Len(I) |-> i])
            = e[1] * e[2] * (Last(st.asys[1].z) - st.asys[1].z[1])
=============================================================================
