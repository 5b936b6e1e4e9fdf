------------------------------ MODULE LayoutMC ------------------------------
(* All nestings of two cells in RTM rows, lattice rows, axial slices and core rows up to the
   given shapes. *)
EXTENDS ModelExport
CONSTANTS RtmShapes, LatShapes, AsyLens, CoreShapes
VARIABLES st, hist
Arr(shape, n) == [1..shape[1] -> [1..shape[2] -> 0..(n - 1)]]
Box(w, h, t) == IF t = 4 THEN [k |-> "mesh", t |-> 4, v |-> <<<<0, 0>>, <<w, 0>>, <<w, h>>, <<0, h>>>>, f |-> <<<<0, 1, 2, 3>>>>]
                ELSE [k |-> "mesh", t |-> 3, v |-> <<<<0, 0>>, <<w, 0>>, <<w, h>>, <<0, h>>>>, f |-> <<<<0, 1, 2>>, <<0, 2, 3>>>>]
Base == <<[k |-> "unit", u |-> 1000, z |-> 500],
          [k |-> "mat", n |-> "A", xs |-> <<8>>], [k |-> "mat", n |-> "B", xs |-> <<4>>],
          Box(32, 16, 4), Box(32, 16, 3),
          [k |-> "cell", w |-> 32, h |-> 16, t |-> 4, m |-> 0, ms |-> <<0>>],
          [k |-> "cell", w |-> 32, h |-> 16, t |-> 3, m |-> 0, ms |-> <<1, 0>>]>>
ZPlanes(n) == IF n = 1 THEN <<0, 8>> ELSE IF n = 2 THEN <<0, 2, 8>> ELSE <<0, 2, 5, 8>>
Run(ops) == FoldLeft(LAMBDA s, o : Apply(s, o), MInit, ops)
Rest == {<<[k |-> "rtm", rows |-> r1], [k |-> "rtm", rows |-> [i \in 1..Len(r1) |-> [j \in 1..Len(r1[1]) |-> 1 - r1[i][j]]]],
           [k |-> "lat", rows |-> l1], [k |-> "lat", rows |-> [i \in 1..Len(l1) |-> [j \in 1..Len(l1[1]) |-> 0]]],
           [k |-> "asy", l |-> a1, z |-> ZPlanes(Len(a1)), flat |-> TRUE, half |-> 2],
           [k |-> "asy", l |-> <<1>>, z |-> ZPlanes(1), flat |-> TRUE, half |-> 2],
           [k |-> "core", rows |-> c1], [k |-> "export"]>> :
          r1 \in UNION {Arr(s, 2) : s \in RtmShapes}, l1 \in UNION {Arr(s, 2) : s \in LatShapes},
          a1 \in UNION {[1..n -> 0..1] : n \in AsyLens}, c1 \in UNION {Arr(s, 2) : s \in CoreShapes}}
Init == \E r \in Rest : hist = Base \o r /\ st = Run(hist)
Next == FALSE /\ UNCHANGED <<st, hist>>
Spec == Init /\ [][Next]_<<st, hist>>
Inv == /\ RefsOk(st) /\ UniformOk(st) /\ TilesOk(st) /\ ExportOk(st)
       /\ PrintT("BEHAVIOUR " \o ToJson(hist))
MCRtm == {<<2, 1>>, <<1, 2>>}
MCLat == {<<1, 2>>, <<2, 1>>}
MCCore == {<<2, 1>>, <<1, 2>>}
MCRtm2 == {<<2, 2>>, <<1, 2>>}
MCLat2 == {<<2, 2>>, <<2, 1>>}
MCCore2 == {<<2, 2>>, <<1, 3>>}
=============================================================================
