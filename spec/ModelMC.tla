------------------------------ MODULE ModelMC ------------------------------
(* Small closed instance of the building calls, used to check the specification itself and
   to enumerate call histories (every transition of the reachable graph). *)
EXTENDS Model
CONSTANTS MaxPart, MaxHist
VARIABLES st, hist
vars == <<st, hist>>
Pin(k, p, r, nr, na, ord) == [k |-> k, p |-> p, r |-> r, nr |-> nr, na |-> na, ord |-> ord]
Ids(n) == -1..n
AllOps(s) ==
    {[k |-> "mat", n |-> "A", xs |-> <<8>>],
     [k |-> "rect", w |-> 16, h |-> 16, nx |-> 1, ny |-> 1],
     [k |-> "rect", w |-> 0, h |-> 16, nx |-> 1, ny |-> 1],
     [k |-> "rect", w |-> 16, h |-> 16, nx |-> 1, ny |-> 0],
     [k |-> "clear"],
     Pin("cyl", 64, <<33>>, <<1>>, 8, 1)}
    \cup {[k |-> "cell", w |-> w, h |-> 16, t |-> 4, m |-> m, ms |-> ms] :
             w \in {16, -16}, m \in {0, 1}, ms \in {<<0>>, <<0, 0>>, <<1>>}}
    \cup {[k |-> "cell", w |-> 32, h |-> 16, t |-> 0, m |-> -1, ms |-> <<>>]}
    \cup {[k |-> "rtm", rows |-> <<<<a, b>>>>] : a \in {0, 1}, b \in {0, 1}}
    \cup {[k |-> "rtm", rows |-> <<<<a>>>>] : a \in {0, -1}}
    \cup {[k |-> "rtm", rows |-> <<<<0, 0>>, <<0>>>>]}
    \cup {[k |-> "lat", rows |-> <<<<a, b>>>>] : a \in {0}, b \in {0, 1}}
    \cup {[k |-> "lat", rows |-> <<<<0>>, <<0>>>>]}
    \cup {[k |-> "lat", rows |-> <<<<0>>, <<0, 0>>>>]}
    \cup {[k |-> "asy", l |-> l, z |-> z, flat |-> TRUE, half |-> 2] :
             l \in {<<0>>, <<0, 1>>, <<0, 0>>}, z \in {<<-2, 2>>, <<0, 3, 4>>, <<0, 4>>, <<0, 5, 4>>, <<-2, 4>>}}
    \cup {[k |-> "core", rows |-> r] : r \in {<<<<0>>>>, <<<<0, 0>>>>, <<<<0>>, <<0>>>>, <<<<1>>>>, <<<<0>>, <<0, 0>>>>}}
Small(s) == /\ Len(s.mats) <= 1 /\ Len(s.m4) <= 1 /\ Len(s.cells) <= MaxPart /\ Len(s.rtms) <= 1
            /\ Len(s.lats) <= 2 /\ Len(s.asys) <= 1
Init == st = MInit /\ hist = <<>>
Next == Len(hist) < MaxHist /\ \E o \in AllOps(st) :
          /\ Pre(st, o) /\ Small(Apply(st, o))
          /\ st' = Apply(st, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
View == st
Inv == RefsOk(st) /\ UniformOk(st) /\ TilesOk(st)
(* every transition, reached along one shortest history *)
EmitT == PrintT("BEHAVIOUR " \o ToJson([h |-> hist', loop |-> st' = st]))
=============================================================================
