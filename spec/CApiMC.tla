------------------------------- MODULE CApiMC -------------------------------
(* All programs of up to MaxOps calls over two handles and two models. *)
EXTENDS CApi
CONSTANTS MaxOps
VARIABLES s, hist
Box(w, h, t) == IF t = 4 THEN [k |-> "mesh", t |-> 4, v |-> <<<<0, 0>>, <<w, 0>>, <<w, h>>, <<0, h>>>>, f |-> <<<<0, 1, 2, 3>>>>]
                ELSE [k |-> "mesh", t |-> 3, v |-> <<<<0, 0>>, <<w, 0>>, <<w, h>>, <<0, h>>>>, f |-> <<<<0, 1, 2>>, <<0, 2, 3>>>>]
M1 == <<[k |-> "unit", u |-> 1000, z |-> 500], [k |-> "mat", n |-> "A", xs |-> <<8>>], Box(16, 32, 4),
        [k |-> "cell", w |-> 16, h |-> 32, t |-> 4, m |-> 0, ms |-> <<0>>], [k |-> "rtm", rows |-> <<<<0, 0>>>>],
        [k |-> "lat", rows |-> <<<<0>>>>], [k |-> "asy", l |-> <<0, 0>>, z |-> <<0, 2, 3>>, flat |-> TRUE, half |-> 2],
        [k |-> "core", rows |-> <<<<0>>>>]>>
M2 == <<[k |-> "unit", u |-> 1000, z |-> 500], [k |-> "mat", n |-> "A", xs |-> <<8>>], [k |-> "mat", n |-> "B", xs |-> <<4>>],
        Box(32, 16, 3), Box(32, 16, 4),
        [k |-> "cell", w |-> 32, h |-> 16, t |-> 3, m |-> 0, ms |-> <<1, 0>>],
        [k |-> "cell", w |-> 32, h |-> 16, t |-> 4, m |-> 0, ms |-> <<1>>],
        [k |-> "rtm", rows |-> <<<<1>>, <<0>>>>], [k |-> "lat", rows |-> <<<<0, 0>>>>],
        [k |-> "asy", l |-> <<0>>, z |-> <<0, 4>>, flat |-> TRUE, half |-> 2], [k |-> "core", rows |-> <<<<0>>, <<0>>>>]>>
Ops == {[k |-> "make", ops |-> M1], [k |-> "make", ops |-> M2]}
       \cup {[k |-> k, h |-> h, f |-> f] : k \in {"cread"}, h \in 0..1, f \in {"a.xdmf", "b.xdmf"}}
       \cup {[k |-> k, h |-> h] : k \in {"cnew", "cdel", "cq"}, h \in 0..1}
Init == s = CInit /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E o \in Ops : CPre(s, o) /\ (hist = <<>> => o.k = "make")
        /\ s' = CApply(s, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<s, hist>>
(* a query changes nothing, a call on one handle leaves the others *)
Apart == \A i \in 0..1 : s.h[i].on =>
    LET last == Max({0} \cup {j \in 1..Len(hist) : hist[j].k \in {"cread", "cnew"} /\ hist[j].h = i}) IN
    /\ last > 0
    /\ hist[last].k = "cnew" => s.h[i].m = MInit
    /\ hist[last].k = "cread" => LET mk == Max({j \in 1..last : hist[j].k = "make"}) IN s.h[i].m = FoldLeft(LAMBDA m, x : Apply(m, x), MInit, hist[mk].ops)
Sane == \A i \in 0..1 : s.h[i].on /\ s.h[i].m.core.ch # <<>> => RefsOk(s.h[i].m)
        /\ Len(CellHeights(s.h[i].m)) >= Len(LatHeights(s.h[i].m))
Emit == Len(hist) = MaxOps /\ hist[MaxOps].k = "cq" => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
