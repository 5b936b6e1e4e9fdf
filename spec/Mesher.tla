------------------------------- MODULE Mesher -------------------------------
(* From geometry to mesh: element sizes that were asked for, and what a mesh must look like.
   Lengths in 1/100000 of a cell where not stated otherwise. *)
EXTENDS Kernel
InitM == [g |-> InitK, sz |-> [m |-> "none"]]
IsMat(n) == Len(n) >= 8 /\ SubSeq(n, 1, 8) = "Material"
Mats(g) == SelectSeq(g.ord, IsMat)
(* ---- target size from a Knudsen number: 12 / (pi sqrt(3) Kn Sigma) ---- *)
SumI(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
Base(m, kn) == (14114022 * Len(m.t)) \div (kn * SumI(m.t))
(* strongly absorbing: scattering below a fifth of a total above 0.9 *)
Absorber(m) == 5 * SumI(m.s) < SumI(m.t) /\ 10 * SumI(m.t) > 72 * Len(m.t)
KnRefused(g, o) ==
    \/ Len(Mats(g)) # Len(o.ms)
    \/ \E i \in 1..Len(o.ms) : \A j \in 1..Len(g.ord) : g.ord[j] # Materials \o o.ms[i].n
    \/ o.kn <= 0
    \/ \E i \in 1..Len(o.ms) : o.ms[i].t = <<>>
    \/ o.ft >= 0 /\ \A i \in 1..Len(o.ms) : ~o.ms[i].f
    \/ o.at >= 0 /\ \A i \in 1..Len(o.ms) : ~Absorber(o.ms[i])
KnSize(o) == [m |-> "kn", o |-> o]
MApply(s, o) ==
    CASE o.k = "new" -> InitM
      [] o.k = "size" -> [s EXCEPT !.sz = [m |-> "size", h |-> 100 * o.h]]
      [] o.k = "kn" -> IF KnRefused(s.g, o) THEN s ELSE [s EXCEPT !.sz = KnSize(o)]
      [] o.k \in {"mesh", "imp"} -> s
      [] OTHER -> [s EXCEPT !.g = Apply(@, o)]
(* ---- target size at a point (in 1/8 of a cell) of an entity ---- *)
MatOf(o, gr) == CHOOSE m \in Range(o.ms) : (Materials \o m.n) \in gr
CellsOf(at) == {<<a[1], a[2]>> : a \in at}
Gap(c, p) == LET dx == IF p[1] < 8 * c[1] THEN 8 * c[1] - p[1] ELSE IF p[1] > 8 * c[1] + 8 THEN p[1] - 8 * c[1] - 8 ELSE 0
                 dy == IF p[2] < 8 * c[2] THEN 8 * c[2] - p[2] ELSE IF p[2] > 8 * c[2] + 8 THEN p[2] - 8 * c[2] - 8 ELSE 0
             IN dx * dx + dy * dy
RECURSIVE Root(_, _)
Root(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Root(n, y)
Dist(n) == IF n = 0 THEN 0 ELSE (Root(n * 10000, 10000) * 10) \div 8      \* thousandths of a cell
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
FuelCells(g, o) == UNION {CellsOf(g.e[i].at) : i \in {i \in 1..Len(g.e) : \E m \in Range(o.ms) : m.f /\ (Materials \o m.n) \in g.e[i].gr}}
(* cells next to the border of the entity holding c: a border lies between cells of different entities *)
EntAt(g, c) == IndexWhere(g.e, LAMBDA e : c \in CellsOf(e.at))
SideDist(g, c, p) ==                                    \* to the border of the entity, in eighths, squared
    LET i == EntAt(g, c) mine == TLCEval(CellsOf(g.e[i].at))
        outs == {<<x, y>> \in (-1..6) \X (-1..6) : <<x, y>> \notin mine}
    IN Least({Gap(d, p) : d \in outs})
Factor(m, sc, th, d) == (SumI(m.t) * sc * d) \div (64 * Len(m.t)) + 1000 - (1000 * th * sc) \div 64
Grown(m, lc, sc, th, d) == LET f == Factor(m, sc, th, d) IN IF f <= 1000 THEN lc ELSE MD(lc, f, 1000)
(* F: the cells with fuel *)
SizeAt(s, F, gr, c, p) ==
    IF s.sz.m = "size" THEN s.sz.h
    ELSE LET o == s.sz.o m == MatOf(o, gr) lc == Base(m, o.kn) IN
         IF Absorber(m) THEN (IF o.at < 0 THEN lc ELSE Grown(m, lc, o.as, o.at, Dist(SideDist(s.g, c, p))))
         ELSE IF o.ft < 0 \/ m.f THEN lc
         ELSE Grown(m, lc, o.fs, o.ft, Dist(Least({Gap(q, p) : q \in F})))
Varies(s) == s.sz.m = "kn" /\ (s.sz.o.ft >= 0 \/ s.sz.o.at >= 0)
Fuel(s) == IF Varies(s) THEN FuelCells(s.g, s.sz.o) ELSE {}
(* number of pieces of a straight curve, in thousandths: sum of length over size *)
Along(s, F, c) ==
    LET n == Max({c.p[3] - c.p[1], c.p[4] - c.p[2]})
        SizeOn(p) == Least({LET gr == Range(c.by[i]) IN
            IF s.sz.m = "kn" /\ Absorber(MatOf(s.sz.o, gr)) THEN Base(MatOf(s.sz.o, gr), s.sz.o.kn) ELSE SizeAt(s, F, gr, <<0, 0>>, p) : i \in 1..Len(c.by)})
    IN IF Varies(s) THEN SumI([j \in 1..(8 * n) |-> 12500000 \div SizeOn(<<8 * c.p[1] + IF c.p[3] > c.p[1] THEN j ELSE 0, 8 * c.p[2] + IF c.p[4] > c.p[2] THEN j ELSE 0>>)])
       ELSE (n * 100000000) \div SizeOn(<<8 * c.p[1], 8 * c.p[2]>>)
(* number of equilateral triangles of the target size in the entities of a signature, in thousandths *)
Points == {<<1, 1>>, <<3, 1>>, <<5, 1>>, <<7, 1>>, <<1, 3>>, <<3, 3>>, <<5, 3>>, <<7, 3>>, <<1, 5>>, <<3, 5>>, <<5, 5>>, <<7, 5>>, <<1, 7>>, <<3, 7>>, <<5, 7>>, <<7, 7>>}
Fill(l) == LET q == Max({l \div 100, 1}) IN 144341801 \div (q * q)
Wanted(s, F, gr, cells) == FoldSet(LAMBDA c, b : b + FoldSet(LAMBDA d, a : a + Fill(SizeAt(s, F, gr, c, <<8 * c[1] + d[1], 8 * c[2] + d[2]>>)), 0, Points), 0, cells)
(* ---- area of atoms in 1/10000 of a cell ---- *)
AtomArea(k) == <<1257, 1571, 2199, 4973>>[k]
AreaOf(at) == LET full == {c \in CellsOf(at) : \A k \in 1..4 : <<c[1], c[2], k>> \in at}
                  rest == {a \in at : <<a[1], a[2]>> \notin full} IN
              [a |-> 10000 * Cardinality(full) + FoldSet(LAMBDA x, b : b + AtomArea(x[3]), 0, rest), round |-> Cardinality(CellsOf(rest))]
(* entities taken together by their groups *)
Signatures(g) == {e.gr : e \in Range(g.e)}
Ground(g, gr) == UNION {g.e[i].at : i \in {i \in 1..Len(g.e) : g.e[i].gr = gr}}
Disjoint(g) == \A i, j \in 1..Len(g.e) : i # j => g.e[i].at \cap g.e[j].at = {}
OneEach(g) == \A i \in 1..Len(g.e) : Cardinality({n \in g.e[i].gr : IsMat(n)}) = 1
Meshable(s) == s.g.e # <<>> /\ Disjoint(s.g) /\ OneEach(s.g) /\ s.sz.m # "none"
CellGround(g, i, m) == UNION {g.e[k].at : k \in {k \in 1..Len(g.e) : CoarseName(i) \in g.e[k].gr /\ (Materials \o m) \in g.e[k].gr}}
=============================================================================
