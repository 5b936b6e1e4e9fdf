---------------------------- MODULE ModelDerived ----------------------------
(* Quantities and files derived from a model.  Material data are integers in eighths:
   [n, g, a, f, nuf, tr, ss, den, tmp, z, nd] with ss[to][from]. *)
EXTENDS Pin, ModelExport

Reactions == {"a", "f", "nuf", "tr", "s"}
ScatterOut(x) == [g \in 1..x.g |-> SumSeq([i \in 1..x.g |-> x.ss[i][g]])]
Val(x, r) == CASE r = "a" -> x.a [] r = "f" -> x.f [] r = "nuf" -> x.nuf [] r = "tr" -> x.tr
               [] r = "s" -> ScatterOut(x) [] r = "t" -> [g \in 1..x.g |-> x.a[g] + ScatterOut(x)[g]]
Fissile(x) == \E g \in 1..x.g : x.f[g] > 0
GroupMean(x, r) == (SumSeq(Val(x, r)) * 1024) \div x.g              \* in 1 / 8192

(* areas of a cell by material; the unit cancels *)
CellMesh(st, c) == LET x == st.cells[c + 1] IN Meshes(st, x.t)[x.m + 1]
FaceArea6(ty, m, k) == Area6(ty, [j \in 1..Len(m.f[k]) |-> m.v[m.f[k][j] + 1]])
MatAreas(st, c) ==
    LET x == st.cells[c + 1] m == CellMesh(st, c)
        per == IF m.tracked THEN [k \in 1..m.nf |-> FaceArea6(x.t, m, k)]
               ELSE [k \in 1..m.nf |-> 0]
    IN TLCEval([i \in 1..Len(st.mats) |->
          IF m.tracked THEN SumSeq([k \in 1..m.nf |-> IF x.ms[k] = i - 1 THEN per[k] ELSE 0])
          ELSE LET o == m.src IN
               SumSeq([r \in 1..(PinRings(o) + 1) |->
                   IF x.ms[(r - 1) * o.na + 1] = i - 1 THEN RingArea(o, r - 1) \div 100 ELSE 0])])
(* area-weighted mean, in 1 / 8192 *)
Mean(ar, v) ==
    LET tot == SumSeq(ar) s == SumSeq([i \in 1..Len(ar) |-> ar[i] * v[i]])
    IN (s \div tot) * 1024 + ((s % tot) * 1024) \div tot
Homogenised(st, mx, c) ==
    LET ar == MatAreas(st, c) G == mx[1].g IN
    [r \in Reactions |-> [g \in 1..G |-> Mean(ar, [i \in 1..Len(mx) |-> Val(mx[i], r)[g]])]]
HomScatter(st, mx, c) ==
    LET ar == MatAreas(st, c) G == mx[1].g IN
    [i \in 1..G |-> [j \in 1..G |-> Mean(ar, [m \in 1..Len(mx) |-> mx[m].ss[i][j]])]]
HomFissile(st, mx, c) == LET ar == MatAreas(st, c) IN \E i \in 1..Len(mx) : ar[i] > 0 /\ Fissile(mx[i])

(* mean chord length of a straight-edged face in 1 / 1024 *)
RECURSIVE BisectD(_, _, _)
BisectD(x, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN BisectD(x, m, hi) ELSE BisectD(x, lo, m)
Dist64(p, q) == LET d == Sub(p, q) IN BisectD(4096 * (d[1] * d[1] + d[2] * d[2]), 0, 46340)
FaceChord(ty, m, k) ==
    LET P == CornerPts(ty, [j \in 1..Len(m.f[k]) |-> m.v[m.f[k][j] + 1]])
        per == SumSeq([i \in 1..Len(P) |-> Dist64(P[i], P[(i % Len(P)) + 1])])
    IN MulDiv(3 * Twice(P), 21447, 10 * per)
(* <<-1, ...>> where the specification does not know the shape *)
CellChords(st, c) ==
    LET x == st.cells[c + 1] m == CellMesh(st, c) IN
    TLCEval([k \in 1..m.nf |-> IF m.tracked THEN FaceChord(x.t, m, k) ELSE -1])
AllChords(st) == ConcatMap(LAMBDA i : CellChords(st, i.c), Instances(st))
ChordNear(e, a) == e < 0 \/ Near(e, a, 2 + e \div 500)
ChordsAgree(name, E, A) == Agree(name \o " size", Len(E), Len(A)) /\ Len(E) = Len(A)
                           /\ Holds(name, \A i \in 1..Len(E) : ChordNear(E[i], A[i]), <<E, A>>)
(* 65536 / (total cross section * chord), from the chord actually reported *)
KnudsenOf(t8192, chord) == IF t8192 = 0 \/ chord = 0 THEN 0 ELSE MulDiv(536870912 \div chord, 1024, t8192)
KnudsenNear(t, chord, a) == chord < 64 \/ t < 1024 \/ LET e == KnudsenOf(t, chord) IN Near(e, a, 2 + e \div 60)

DataSet(soup, n) == LET S == {k \in 1..Len(soup.sets) : soup.sets[k].n = n} IN soup.sets[Min(S)].d
ExportData(st, mx, soup) ==
    LET ms == ExpMaterials(st, Instances(st))
        tot == TLCEval([i \in 1..Len(mx) |-> GroupMean(mx[i], "a") + GroupMean(mx[i], "s")])
        xs == DataSet(soup, "One_Group_XS")
        mc == DataSet(soup, "Mean_Chord_Length")
        kn == DataSet(soup, "Knudsen_Number")
    IN /\ AgreeSeqNear("one-group cross sections", [k \in 1..Len(ms) |-> tot[ms[k] + 1]], xs, 2)
       /\ ChordsAgree("chord lengths", AllChords(st), mc)
       /\ Holds("Knudsen numbers", \A k \in 1..Len(ms) : KnudsenNear(tot[ms[k] + 1], mc[k], kn[k]), kn)

(* volumes in 6 * 512 * (length unit)^2 * axial unit *)
Cell6(st, c) == LET ar == MatAreas(st, c) m == CellMesh(st, c) IN
    IF m.tracked THEN ar ELSE [i \in 1..Len(ar) |-> MulDiv(6 * m.src.p * m.src.p, ar[i] \div 10, SumSeq(ar) \div 10)]
Height(st, i) == LET z == st.asys[AsyId(st, i.path) + 1].z IN z[i.path[2] + 1] - z[i.path[2]]
Volumes(st) ==
    LET I == Instances(st)
        per == TLCEval([c \in 1..Len(st.cells) |-> IF st.cells[c].m >= 0 THEN Cell6(st, c - 1) ELSE <<>>])
    IN [m \in 1..Len(st.mats) |-> FoldLeft(LAMBDA acc, i : acc + per[i.c + 1][m] * Height(st, i), 0, I)]
(* a pin's areas are known to one unit *)
Slack(st) == FoldLeft(LAMBDA acc, i : IF CellMesh(st, i.c).tracked THEN acc ELSE acc + Height(st, i), 2, Instances(st))
VolumesAgree(st, vol) ==
    LET V == Volumes(st) sl == Slack(st) IN
    /\ Agree("volume names", st.mats, [k \in 1..Len(vol) |-> vol[k].n])
    /\ Holds("volumes", Len(vol) = Len(V) /\ \A k \in 1..Len(V) : Near(V[k], vol[k].v, sl + V[k] \div 20000), <<V, vol>>)
XsFileAgree(mx, xf) ==
    /\ Agree("xs file header", <<Len(mx), mx[1].g>>, xf.head)
    /\ Agree("xs file", [k \in 1..Len(mx) |-> [n |-> mx[k].n, v |-> [g \in 1..mx[k].g |->
                <<mx[k].a[g], mx[k].f[g], mx[k].nuf[g], mx[k].tr[g], ScatterOut(mx[k])[g]>>]]], xf.mats)
InputAgree(st, mx, inp, chords) ==
    LET s == SortSeq(chords, LAMBDA a, b : a < b)
        n == Len(s)
    IN /\ Agree("case", "MPACT_" \o inp.base, inp.caseid)
       /\ Agree("input materials", [k \in 1..Len(mx) |->
                [i |-> k, n |-> mx[k].n, den |-> mx[k].den, tmp |-> mx[k].tmp,
                 z |-> mx[k].z, nd |-> mx[k].nd]], inp.mats)
       /\ Agree("geometry file", inp.base \o ".xdmf", inp.geom)
       \* a quarter of the length exceeded by nine tenths of the faces
       /\ Holds("ray spacing", \E i \in {n \div 10, MaxI(0, (n - 1) \div 10)} : Near(s[i + 1], (4 * inp.ray) \div 1000, 2 + s[i + 1] \div 400), <<inp.ray, s[1], n>>)
(* data stored with every cell instance in the model file *)
CellDataOk(st, mx, d, kn, xs) ==
    LET ms == st.cells[d.c + 1].ms
        ch == CellChords(st, d.c)
        want(r) == [k \in 1..Len(ms) |-> GroupMean(mx[ms[k] + 1], r)]
        G == mx[1].g
    IN /\ Agree("file materials", ms, d.mat)
       /\ (kn \/ xs) => (/\ AgreeSeqNear("file a", want("a"), d.a, 2) /\ AgreeSeqNear("file f", want("f"), d.f, 2)
                         /\ AgreeSeqNear("file s", want("s"), d.s, 2) /\ AgreeSeqNear("file t", want("t"), d.t, 3))
       /\ xs => \A g \in 1..G : Agree("file group total", [k \in 1..Len(ms) |-> Val(mx[ms[k] + 1], "t")[g] * 1024], d.g[g])
       /\ kn => (/\ ChordsAgree("file chords", ch, d.mcl)
                 /\ Holds("file Knudsen", Len(d.kn) = Len(ms) /\ \A k \in 1..Len(ms) : KnudsenNear(want("t")[k], d.mcl[k], d.kn[k]), d.kn))
FileData(st, mx, out, o) ==
    LET I == Instances(st)
        count(c) == Cardinality({k \in 1..Len(I) : I[k].c = c})
    IN /\ Agree("cell instances", Len(I), Len(out.cells5))
       /\ \A c \in 0..(Len(st.cells) - 1) : Agree("instances of a cell", count(c), Cardinality({k \in 1..Len(out.cells5) : out.cells5[k].c = c}))
       /\ \A k \in 1..Len(out.cells5) : CellDataOk(st, mx, out.cells5[k], o.kn = 1, o.xs = 1)
=============================================================================
