------------------------------ MODULE Material ------------------------------
(* Materials, nuclides and multi-group cross sections.  Cross sections are integers in
   eighths, temperatures are given by four times their square root, densities in eighths of
   g/cm3, number densities in 10^-7 (and 10^-9) per barn cm. *)
EXTENDS Common, NuclideData

HasMass(z) == \E i \in 1..Len(MassTable) : MassTable[i][1] = z
Mass(z) == LET i == IndexWhere(MassTable, LAMBDA p : p[1] = z) IN MassTable[i][2]
Avo == 602214076                                             \* 10^-9 per barn cm per mol
Digit(c) == IndexWhere(<<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>, LAMBDA x : x = c) - 1
(* identifier of an element symbol with its mass number *)
Zaid(e, a) == 1000 * IndexWhere(Elements, LAMBDA x : x = e) + a

(* number density of a component of weight fraction w / 1000 and mass m *)
FromWeight(den, w, m) == MD(Avo, den * w, 8 * m)
(* of components with atom fractions p / 1000 *)
MixMass(zs, ps, k) == SumSeq([i \in 1..Len(zs) |-> MD(Mass(zs[i]), k * ps[i], 1000)])
FromAtoms(den, zs, ps) ==
    LET m1 == MixMass(zs, ps, 1)
        k == IF m1 < 60000 THEN 1000 ELSE IF m1 < 600000 THEN 100 ELSE IF m1 < 6000000 THEN 10 ELSE 1               \* keeps the digits of a small sum
    IN [i \in 1..Len(zs) |-> MD(Avo, k * den * ps[i], 8 * MixMass(zs, ps, k))]

(* UO2 of enrichment e / 10^4 with a weight fraction g / 1000 of Gd2O3: <<identifier, 10^-9>> *)
UM == [m234 |-> 23404095, m235 |-> 23504392, m236 |-> 23604556, m238 |-> 23805078, o |-> 1599491]
GdIso == <<<<64152, 20, 15191979>>, <<64154, 218, 15392086>>, <<64155, 1480, 15492262>>, <<64156, 2047, 15592212>>,
           <<64157, 1565, 15692396>>, <<64158, 2484, 15792402>>, <<64160, 2186, 15992705>>>>
Uo2(den, e, g) ==
    LET w == <<89 * e, 10000 * e, 46 * e, 100000000 - 10135 * e>>              \* weight fractions in 10^-8
        q == <<MD(w[1], 10000000, UM.m234), MD(w[2], 10000000, UM.m235), MD(w[3], 10000000, UM.m236), MD(w[4], 10000000, UM.m238)>>
        S == SumSeq(q)                                                        \* atoms per mass, 10^-10
        mu == MD(1000000000, 1000000, S)                                      \* mean uranium mass
        nu == MD(Avo, 100 * den * (1000 - g), 8 * (mu + 2 * UM.o))
        mgd == SumSeq([i \in 1..7 |-> MD(GdIso[i][3], GdIso[i][2], 10000)])
        ng == MD(Avo, 100 * den * g, 8 * (2 * mgd + 3 * UM.o))
        u == <<<<92234, MD(nu, q[1], S)>>, <<92235, MD(nu, q[2], S)>>, <<92236, MD(nu, q[3], S)>>, <<92238, MD(nu, q[4], S)>>>>
        gd == [i \in 1..7 |-> <<GdIso[i][1], MD(2 * ng, GdIso[i][2], 10000)>>]
    IN (IF g = 1000 THEN <<>> ELSE IF e = 0 THEN <<u[4]>> ELSE u)
       \o (IF g = 0 THEN <<>> ELSE gd) \o <<<<8016, 2 * nu + 3 * ng>>>>

(* ---- cross sections: [a, f, nuf, tr, ss] with ss[to][from] ---- *)
G(x) == Len(x.a)
Scat(x) == [g \in 1..G(x) |-> SumSeq([i \in 1..G(x) |-> x.ss[i][g]])]
FissileX(x) == \E g \in 1..G(x) : x.f[g] > 0
(* the pair of tables used at temperature q and the position between them *)
Bracket(ts, q) ==
    IF Len(ts) = 1 \/ q <= ts[1] THEN <<1, 1, 0, 1>>
    ELSE IF q >= Last(ts) THEN <<Len(ts), Len(ts), 0, 1>>
    ELSE LET i == Max({k \in 1..Len(ts) : ts[k] <= q}) IN <<i, i + 1, q - ts[i], ts[i + 1] - ts[i]>>
(* linear in the square root of temperature, in 1 / 8192 *)
Lin(x, y, b) == IF b[3] = 0 THEN 1024 * x ELSE ((x * b[4] + b[3] * (y - x)) * 1024) \div b[4]
InterpV(nuc, b, F(_)) == LET x == F(nuc.xs[b[1]]) y == F(nuc.xs[b[2]]) IN TLCEval([g \in 1..Len(x) |-> Lin(x[g], y[g], b)])
Interp(nuc, q) ==
    LET b == Bracket(nuc.ts, q) IN
    [a |-> InterpV(nuc, b, LAMBDA x : x.a), f |-> InterpV(nuc, b, LAMBDA x : x.f), nuf |-> InterpV(nuc, b, LAMBDA x : x.nuf),
     tr |-> InterpV(nuc, b, LAMBDA x : x.tr), s |-> InterpV(nuc, b, LAMBDA x : Scat(x)),
     ss |-> [i \in 1..G(nuc.xs[1]) |-> InterpV(nuc, b, LAMBDA x : x.ss[i])],
     fis |-> FissileX(nuc.xs[b[1]]) \/ FissileX(nuc.xs[b[2]]),
     may |-> \E i \in 1..Len(nuc.xs) : FissileX(nuc.xs[i])]
NucOf(lib, z) == lib[IndexWhere(lib, LAMBDA n : n.z = z)]
(* macroscopic: sum of number density times cross section *)
Mix(nds, vs) == [g \in 1..Len(vs[1]) |-> SumSeq([i \in 1..Len(nds) |-> MD(nds[i], vs[i][g], 10000000)])]
Macro(lib, m) ==
    LET I == TLCEval([i \in 1..Len(m.z) |-> Interp(NucOf(lib, m.z[i]), m.q)])
        part(F(_)) == Mix(m.nd, [i \in 1..Len(I) |-> F(I[i])])
    IN [a |-> part(LAMBDA x : x.a), f |-> part(LAMBDA x : x.f), nuf |-> part(LAMBDA x : x.nuf), tr |-> part(LAMBDA x : x.tr),
        s |-> part(LAMBDA x : x.s), ss |-> [g \in 1..Len(I[1].a) |-> part(LAMBDA x : x.ss[g])],
        fis |-> \E i \in 1..Len(I) : I[i].fis, may |-> \E i \in 1..Len(I) : I[i].may,
        tol |-> 2 + SumSeq([i \in 1..Len(m.nd) |-> 2 + m.nd[i] \div 5000000])]
MeanOf(v) == SumSeq(v) \div Len(v)
Collapse(x) == [a |-> <<MeanOf(x.a)>>, f |-> <<MeanOf(x.f)>>, nuf |-> <<MeanOf(x.nuf)>>, tr |-> <<MeanOf(x.tr)>>,
                s |-> <<MeanOf(x.s)>>, ss |-> <<<<MeanOf(x.s)>>>>, fis |-> x.fis, may |-> x.may, tol |-> x.tol + 1]
(* validation: number of inconsistent entries *)
Neg(v) == Cardinality({i \in 1..Len(v) : v[i] < 0})
Pos(v) == Cardinality({i \in 1..Len(v) : v[i] > 0})
Flagged(o) ==
    IF o.macro = 1
    THEN [w |-> Neg(o.x.a) + Neg(o.x.f) + Neg(o.x.nuf) + Neg(o.x.tr) + Neg(o.x.s) + SumSeq([i \in 1..Len(o.x.ss) |-> Neg(o.x.ss[i])])
                + (IF o.fis = 1 THEN 0 ELSE Pos(o.x.f) + Pos(o.x.nuf)), e |-> 0]
    ELSE [w |-> 0, e |-> IF o.fis = 1 THEN 0 ELSE Pos(o.x.f) + Pos(o.x.nuf)]

(* ---- state: the library and the material being composed ---- *)
Init0 == [lib |-> <<>>, g |-> 0, m |-> [den |-> 0, q |-> 0, z |-> <<>>, nd |-> <<>>, nd9 |-> <<>>], x |-> <<>>]
AddN(s, zs, nds) == [s EXCEPT !.m.z = @ \o zs, !.m.nd = @ \o nds, !.m.nd9 = @ \o [i \in 1..Len(nds) |-> IF nds[i] < 10000000 THEN 100 * nds[i] ELSE -1]]
Syms(o) == [i \in 1..Len(o.sy) |-> Zaid(o.sy[i][1], o.sy[i][2])]
Apply(s, o) ==
    CASE o.k = "lib" -> [s EXCEPT !.lib = <<>>, !.g = o.g]
      [] o.k = "nuc" -> [s EXCEPT !.lib = Append(@, [z |-> o.z, ts |-> o.ts, xs |-> o.xs])]
      [] o.k = "mat" -> [s EXCEPT !.m = [den |-> o.den, q |-> o.q, z |-> <<>>, nd |-> <<>>, nd9 |-> <<>>], !.x = <<>>]
      [] o.k = "temp" -> [s EXCEPT !.m.q = o.q]
      [] o.k = "add" -> AddN(s, <<o.z>>, <<1250000 * o.nd>>)
      [] o.k = "addsym" -> AddN(s, Syms(o), <<1250000 * o.nd>>)
      [] o.k = "wt" -> AddN(s, <<o.z>>, <<FromWeight(s.m.den, o.w, Mass(o.z))>>)
      [] o.k = "wtsym" -> LET z == Syms(o)[1] IN AddN(s, <<z>>, <<FromWeight(s.m.den, o.w, Mass(z))>>)
      [] o.k = "at" -> LET zs == Syms(o) IN AddN(s, zs, FromAtoms(s.m.den, zs, o.w))
      [] o.k = "uo2" -> LET r == Uo2(s.m.den, o.e, o.gd) IN
            [s EXCEPT !.m.z = @ \o [i \in 1..Len(r) |-> r[i][1]], !.m.nd = @ \o [i \in 1..Len(r) |-> r[i][2] \div 100], !.m.nd9 = @ \o [i \in 1..Len(r) |-> r[i][2]]]
      [] o.k = "pop" -> [s EXCEPT !.x = <<Macro(s.lib, s.m)>>]
      [] OTHER -> s
=============================================================================
