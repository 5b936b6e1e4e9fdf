-------------------------------- MODULE Post --------------------------------
(* Post-processing of a solution on a planar mesh: regions of powered cells and sources.
   A mesh is [ty, v, f] with points in sixteenths; p gives a power per cell. *)
EXTENDS Geom
Pts(m, i) == TLCEval(MapSeq(LAMBDA x : m.v[x + 1], m.f[i]))
Cells(m) == 1..Len(m.f)
Powered(m) == {i \in Cells(m) : m.p[i] > 0}
Touch(m, i, j) == Range(Pts(m, i)) \cap Range(Pts(m, j)) # {}
(* one more powered cell is looked at: it joins all regions it touches *)
Visit(m, R, i) == LET T == {r \in R : \E j \in r : Touch(m, i, j)} IN (R \ T) \cup {{i} \cup UNION T}
RECURSIVE VisitAll(_, _, _)
VisitAll(m, R, S) == IF S = {} THEN R ELSE LET i == Min(S) IN VisitAll(m, TLCEval(Visit(m, R, i)), S \ {i})
Regions(m) == VisitAll(m, {}, Powered(m))
(* six times the power, six times the area, centroid in 1/1024 of a unit *)
RegionArea6(m, r) == FoldSet(LAMBDA i, acc : acc + Area6(m.ty, Pts(m, i)), 0, r)
RegionPower6(m, r) == FoldSet(LAMBDA i, acc : acc + m.p[i] * Area6(m.ty, Pts(m, i)), 0, r)
RegionMoment30(m, r, c) == FoldSet(LAMBDA i, acc : acc + Moment30(m.ty, Pts(m, i), c), 0, r)
Report(m, r) == LET a == RegionArea6(m, r) IN
    <<RegionPower6(m, r), MD(1024, RegionMoment30(m, r, 1), 5 * a), MD(1024, RegionMoment30(m, r, 2), 5 * a)>>
(* sources per cell: scattering and fission *)
Source(o) == [i \in 1..Len(o.m.f) |->
    LET x == o.mat[o.id[i]] IN
    <<SumSeq([g \in 1..Len(x.s) |-> o.flux[g][i] * x.s[g]]), SumSeq([g \in 1..Len(x.s) |-> o.flux[g][i] * x.nuf[g]])>>]
=============================================================================
