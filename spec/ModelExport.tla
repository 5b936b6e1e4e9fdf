---------------------------- MODULE ModelExport ----------------------------
(* What exporting a model as a polytope soup must produce. *)
EXTENDS Model
Pad5(n) == LET s == ToString(n) IN SubSeq("00000", 1, 5 - Len(s)) \o s
PartName(kind, id, ctr) == kind \o "_" \o Pad5(id) \o "_" \o Pad5(ctr)
InstMesh(st, i) == LET c == st.cells[i.c + 1] IN Meshes(st, c.t)[c.m + 1]
(* element = number of points followed by their coordinates *)
ElementOf(i, m, f) ==
    <<Len(f)>> \o ConcatMap(LAMBDA v : <<i.x + m.v[v + 1][1], i.y + m.v[v + 1][2], i.zz>>, f)
ExpElements(st, I) ==
    ConcatMap(LAMBDA i : LET m == InstMesh(st, i) IN [k \in 1..m.nf |-> ElementOf(i, m, m.f[k])], I)
ExpVertexCount(st, I) == FoldLeft(LAMBDA acc, i : acc + InstMesh(st, i).nv, 0, I)
ExpMaterials(st, I) == ConcatMap(LAMBDA i : st.cells[i.c + 1].ms, I)
(* first element of every instance *)
Offsets(st, I) == Cum([k \in 1..Len(I) |-> InstMesh(st, I[k]).nf])
(* Named sets of one nesting level d (1 assembly, 2 lattice, 3 RTM, 4 cell): instances with
   the same path prefix of length d belong together; occurrences of one part are counted in
   export order. *)
IdAt(st, i, d) == CASE d = 1 -> AsyId(st, i.path) [] d = 2 -> LatId(st, i.path)
                    [] d = 3 -> RtmId(st, i.path) [] d = 4 -> i.c
KindAt(d) == CASE d = 1 -> "Assembly" [] d = 2 -> "Lattice" [] d = 3 -> "RTM" [] d = 4 -> "Coarse_Cell"
LevelSets(st, I, off, d) ==
    LET pre(k) == SubSeq(I[k].path, 1, d)
        starts == {k \in 1..Len(I) : k = 1 \/ pre(k) # pre(k - 1)}
        endOf(k) == LET S == {j \in starts : j > k} IN IF S = {} THEN Len(I) + 1 ELSE Min(S)
        ctr(k) == Cardinality({j \in starts : j < k /\ IdAt(st, I[j], d) = IdAt(st, I[k], d)})
    IN {[n |-> PartName(KindAt(d), IdAt(st, I[k], d), ctr(k)),
         lo |-> off[k], hi |-> off[endOf(k)] - 1] : k \in starts}
ExpSets(st, I) == LET off == Offsets(st, I) IN UNION {LevelSets(st, I, off, d) : d \in 1..4}
IsLevelName(n) == \E p \in {"Assembly_", "Lattice_", "RTM_", "Coarse_Cell_"} :
                     Len(n) >= Len(p) /\ SubSeq(n, 1, Len(p)) = p
Consecutive(ids) == \A k \in 1..Len(ids) : ids[k] = ids[1] + k - 1
AsRange(x) == [n |-> x.n, lo |-> x.i[1], hi |-> x.i[Len(x.i)]]
SoupAgree(st, soup) ==
    LET I == Instances(st)
        lev == SelectSeq(soup.sets, LAMBDA x : IsLevelName(x.n))
        dat == SelectSeq(soup.sets, LAMBDA x : ~IsLevelName(x.n))
        E == ExpElements(st, I)
    IN IF I = <<>> THEN Agree("empty export", <<0, 0, 0>>, <<soup.nv, Len(soup.el), Len(soup.sets)>>)
       ELSE
       /\ Agree("vertices", ExpVertexCount(st, I), soup.nv)
       /\ Agree("number of elements", Len(E), Len(soup.el))
       /\ \A k \in 1..Len(E) : Agree("element", <<k, E[k]>>, <<k, soup.el[k]>>)
       /\ \A k \in 1..Len(lev) : Holds("members consecutive", Consecutive(lev[k].i), lev[k])
       /\ Agree("instance sets", ExpSets(st, I), {AsRange(lev[k]) : k \in 1..Len(lev)})
       /\ Agree("no set twice", Cardinality(ExpSets(st, I)), Len(lev))
       /\ Agree("data sets", {"Material_ID", "One_Group_XS", "Mean_Chord_Length", "Knudsen_Number"},
                {dat[k].n : k \in 1..Len(dat)})
       /\ \A k \in 1..Len(dat) :
             /\ Agree("data set covers all", Range0(Len(E)), dat[k].i)
             /\ dat[k].n = "Material_ID" => Agree("materials", ExpMaterials(st, I), dat[k].d)
             /\ Agree("data size", Len(E), Len(dat[k].d))
(* design property: sets of one level partition the elements and refine the level above *)
ExportOk(st) ==
    LET I == Instances(st) off == Offsets(st, I) n == off[Len(off)] IN
    \A d \in 1..4 : LET S == LevelSets(st, I, off, d) IN
        /\ UNION {s.lo..s.hi : s \in S} = 0..(n - 1)
        /\ FoldSet(LAMBDA s, acc : acc + s.hi - s.lo + 1, 0, S) = n
        /\ Cardinality({s.n : s \in S}) = Cardinality(S)
        /\ d > 1 => \A s \in S : \E t \in LevelSets(st, I, off, d - 1) : t.lo <= s.lo /\ s.hi <= t.hi
=============================================================================
