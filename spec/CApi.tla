-------------------------------- MODULE CApi --------------------------------
(* A C program holding models behind handles 0..3.  A model is built and written by the C++
   side; reading it through the C interface gives an equivalent model behind the handle. *)
EXTENDS ModelFile, Geom
Handles == 0..3
CInit == [cur |-> MInit, h |-> [i \in Handles |-> [on |-> FALSE]]]
CApply(s, o) ==
    CASE o.k = "make" -> [s EXCEPT !.cur = FoldLeft(LAMBDA m, x : Apply(m, x), MInit, o.ops)]
      [] o.k = "cread" -> [s EXCEPT !.h[o.h] = [on |-> TRUE, m |-> s.cur]]
      [] o.k = "cnew" -> [s EXCEPT !.h[o.h] = [on |-> TRUE, m |-> MInit]]
      [] o.k = "cdel" -> [s EXCEPT !.h[o.h] = [on |-> FALSE]]
      [] OTHER -> s
CPre(s, o) ==
    CASE o.k = "make" -> TRUE
      [] o.k = "cread" -> ~s.h[o.h].on /\ s.cur.core.ch # <<>> /\ Used(s.cur)
      [] o.k = "cnew" -> ~s.h[o.h].on
      [] o.k = "cdel" -> s.h[o.h].on
      [] OTHER -> s.h[o.h].on /\ s.h[o.h].m.core.ch # <<>>

MeshOf(m, c) == LET x == m.cells[c + 1] IN Meshes(m, x.t)[x.m + 1]
FacePts(m, c, i) == LET q == MeshOf(m, c) IN TLCEval(MapSeq(LAMBDA v : q.v[v + 1], q.f[i]))
(* heights of the axial slices in which a part occurs *)
Slices(m) == (1..Len(m.asys)) \X (1..Max({Len(m.asys[b].ch) : b \in 1..Len(m.asys)}))
Live(m) == {x \in Slices(m) : x[2] <= Len(m.asys[x[1]].ch)}
Dz(m, x) == m.asys[x[1]].z[x[2] + 1] - m.asys[x[1]].z[x[2]]
LatOf(m, x) == m.asys[x[1]].ch[x[2]]
ByHeight(S) == SetToSortSeq(S, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))
LatHeights(m) == ByHeight({<<LatOf(m, x), Dz(m, x)>> : x \in Live(m)})
RtmHeights(m) == ByHeight(UNION {{<<r, Dz(m, x)>> : r \in Range(m.lats[LatOf(m, x) + 1].ch)} : x \in Live(m)})
CellHeights(m) == ByHeight(UNION {UNION {{<<c, Dz(m, x)>> : c \in Range(m.rtms[r + 1].ch)} : r \in Range(m.lats[LatOf(m, x) + 1].ch)} : x \in Live(m)})

(* all meshes here have straight edges *)
CornersOf(m, c, i) == SubSeq(FacePts(m, c, i), 1, Corners(m.cells[c + 1].t))
Within(m, c, p) == {i \in 1..MeshOf(m, c).nf : InConvex(CornersOf(m, c, i), p)}
Between(m, c, p) == \E i \in 1..MeshOf(m, c).nf : OnBoundary(CornersOf(m, c, i), p)
FaceCross(P, o) == FlattenSeq([k \in 1..Len(P) |-> RayLine(o.p, o.d, o.l, P[k], P[(k % Len(P)) + 1])])
Crossings(m, o) == SortSeq(FlattenSeq([i \in 1..MeshOf(m, o.c).nf |-> FaceCross(CornersOf(m, o.c, i), o)]), LAMBDA a, b : a < b)
Generic(m, o) == \A i \in 1..MeshOf(m, o.c).nf : LET P == CornersOf(m, o.c, i) IN
    \A k \in 1..Len(P) : GeneralLine(o.p, o.d, P[k], P[(k % Len(P)) + 1])
=============================================================================
