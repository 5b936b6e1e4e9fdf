-------------------------- MODULE ModelDerivedMC --------------------------
(* Volumes and homogenised data over all small nestings. *)
EXTENDS LayoutMC, ModelDerived
X(n, a, f, s) == [n |-> n, g |-> 2, a |-> a, f |-> f, nuf |-> f, tr |-> a, ss |-> s, den |-> 8, tmp |-> 300, z |-> <<>>, nd |-> <<>>]
MX == <<X("A", <<4, 9>>, <<0, 0>>, <<<<3, 0>>, <<5, 7>>>>), X("B", <<1, 2>>, <<1, 0>>, <<<<2, 1>>, <<0, 2>>>>)>>
VolumeTotal ==
    LET e == GridExt(st.core) z == st.asys[1].z
    IN SumSeq(Volumes(st)) = 6 * e[1] * e[2] * (Last(z) - z[1])
Convexity ==
    \A c \in 0..1, r \in Reactions, g \in 1..2 :
        LET h == Homogenised(st, MX, c)[r][g] lo == MinI(Val(MX[1], r)[g], Val(MX[2], r)[g]) hi == MaxI(Val(MX[1], r)[g], Val(MX[2], r)[g])
        IN h >= lo * 1024 /\ h <= hi * 1024
(* total scattering stays the column sum of the homogenised matrix *)
ScatterSum == \A c \in 0..1, g \in 1..2 :
    LET S == HomScatter(st, MX, c) IN Near(Homogenised(st, MX, c)["s"][g], S[1][g] + S[2][g], 2)
DInv == VolumeTotal /\ Convexity /\ ScatterSum /\ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
