----------------------------- MODULE MaterialMC -----------------------------
(* Laws of the conversions, and histories of composing a material over a small library. *)
EXTENDS Material
CONSTANTS Depth
VARIABLES st, hist
X2(a, f, s) == [a |-> a, f |-> f, nuf |-> [g \in 1..2 |-> 2 * f[g]], tr |-> a, ss |-> s]
Lib == <<[k |-> "lib", g |-> 2],
         [k |-> "nuc", z |-> 8016, ts |-> <<68, 100>>, xs |-> <<X2(<<1, 2>>, <<0, 0>>, <<<<8, 1>>, <<2, 9>>>>), X2(<<5, 1>>, <<0, 0>>, <<<<4, 0>>, <<2, 1>>>>)>>],
         [k |-> "nuc", z |-> 92235, ts |-> <<70>>, xs |-> <<X2(<<40, 7>>, <<9, 3>>, <<<<1, 0>>, <<3, 2>>>>)>>],
         [k |-> "nuc", z |-> 1001, ts |-> <<64, 80, 120>>, xs |-> <<X2(<<1, 1>>, <<0, 0>>, <<<<30, 0>>, <<9, 44>>>>), X2(<<2, 9>>, <<0, 1>>, <<<<3, 5>>, <<9, 4>>>>), X2(<<8, 0>>, <<0, 0>>, <<<<0, 0>>, <<1, 0>>>>)>>]>>
Run(s, ops) == FoldLeft(LAMBDA a, o : Apply(a, o), s, ops)
Init == \E d \in {4, 80} : LET b == Lib \o <<[k |-> "mat", den |-> d, q |-> 72]>> IN hist = b /\ st = Run(Init0, b)
Has0(z) == \E i \in 1..Len(st.m.z) : st.m.z[i] = z
Ops == {o \in {[k |-> "add", z |-> 8016, nd |-> 3], [k |-> "wt", z |-> 92235, w |-> 250],
               [k |-> "addsym", sy |-> <<<<"H", 1>>>>, nd |-> 1], [k |-> "wtsym", sy |-> <<<<"O", 16>>>>, w |-> 120],
               [k |-> "at", sy |-> <<<<"H", 1>>, <<"O", 16>>>>, w |-> <<667, 333>>],
               [k |-> "temp", q |-> 100], [k |-> "temp", q |-> 40], [k |-> "temp", q |-> 110], [k |-> "pop"]} :
          /\ o.k \in {"add", "wt"} => ~Has0(o.z)
          /\ o.k \in {"addsym", "wtsym", "at"} => \A i \in 1..Len(Syms(o)) : ~Has0(Syms(o)[i])
          /\ o.k = "pop" => st.m.z # <<>>
          /\ o.k = "temp" => hist[Len(hist)].k # "temp"}
Next == Len(hist) < Len(Lib) + 1 + Depth /\ \E o \in Ops : st' = Apply(st, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<st, hist>>
(* the mass of what was composed is the density *)
Weight(zs, nds) == SumSeq([i \in 1..Len(zs) |-> MD(nds[i], Mass(zs[i]), 100000)])      \* 10^-7 g/mol per barn cm
ConversionLaws ==
    /\ \A w \in {1, 250, 1000}, z \in {1001, 8016, 92235, 40000} :
          LET d == st.m.den IN Near(MD(FromWeight(d, w, Mass(z)), Mass(z), 100000), MD(Avo, d * w, 800000), 3 + Mass(z) \div 100000)
    /\ \A p \in {100, 333, 800} :
          LET zs == <<1001, 8016>> ps == <<1000 - p, p>> n == FromAtoms(st.m.den, zs, ps) IN
          /\ Near(MD(n[1], p, 1000), MD(n[2], 1000 - p, 1000), 3)
          /\ Near(Weight(zs, n), MD(Avo, st.m.den, 800), 20 + MD(Avo, st.m.den, 800) \div 100000)
    /\ \A e \in {0, 72, 500}, g \in {0, 40, 1000} :
          LET r == Uo2(st.m.den, e, g) IN
          Near(SumSeq([i \in 1..Len(r) |-> MD(r[i][2], Mass(r[i][1]), 10000000)]), MD(Avo, st.m.den, 800), 100 + MD(Avo, st.m.den, 800) \div 50000)
    /\ Zaid("U", 235) = 92235 /\ Zaid("Og", 1) = 118001
(* every component once; mixture between bounds; scattering stays the column sum *)
Distinct == \A i, j \in 1..Len(st.m.z) : i # j => st.m.z[i] # st.m.z[j]
MixOk == st.x # <<>> => LET x == st.x[1] IN
    /\ \A g \in 1..2 : Near(x.s[g], x.ss[1][g] + x.ss[2][g], 2 * x.tol)
    /\ (x.fis <=> \E g \in 1..2 : x.f[g] > 0) \/ x.f = <<0, 0>>
    /\ Collapse(x).s[1] * 2 <= x.s[1] + x.s[2]
LawsOnce == Len(hist) = Len(Lib) + 1 => ConversionLaws
Emit == (Len(hist) = Len(Lib) + 1 + Depth) => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
