------------------------------- MODULE GridMC -------------------------------
(* All grids with up to MaxDivs divisions per axis at coordinates 0..MaxX, and histories of
   partition updates and copies over two slots. *)
EXTENDS Grid
CONSTANTS MaxX, MaxD, MaxDivs, Depth
VARIABLES S, hist
DivSets == {Sorted(T) : T \in {T \in SUBSET (0..MaxX) : Cardinality(T) >= 2 /\ Cardinality(T) <= MaxDivs}}
Grids == UNION {[1..d -> DivSets] : d \in 1..MaxD}
BoxesOf(g) == [k \in 1..Total(g) |-> LET i == CellIdx(g, k - 1) IN <<BoxLo(g, i), BoxHi(g, i)>>]
Rec(dv) == New("rect", Len(dv), dv)
IsReg(dv) == \A a \in 1..Len(dv) : \A i \in 1..(Len(dv[a]) - 1) : dv[a][i + 1] - dv[a][i] = dv[a][2] - dv[a][1]
Make(dv, a) ==
    {[k |-> "boxes", a |-> a, d |-> Len(dv), bs |-> Reverse(BoxesOf(Rec(dv)))]}
    \cup (IF IsReg(dv) THEN {[k |-> "reg", a |-> a, d |-> Len(dv), lo |-> [i \in 1..Len(dv) |-> dv[i][1]],
                              sp |-> [i \in 1..Len(dv) |-> dv[i][2] - dv[i][1]], n |-> [i \in 1..Len(dv) |-> Len(dv[i]) - 1]]} ELSE {})
Init == \E dv \in Grids : \E o \in Make(dv, 0) :
           S = Apply(<<Empty, Empty>>, o) /\ hist = <<o>>
Full(a) == S[a + 1].k # "none" /\ S[a + 1].divs[1] # <<>>
Ops == {[k |-> "part", a |-> a, ch |-> [k \in 1..Total(S[a + 1]) |-> k]] : a \in {a \in 0..1 : Full(a) /\ S[a + 1].ch = <<>>}}
       \cup {[k |-> "set", a |-> a, i |-> CellIdx(S[a + 1], Total(S[a + 1]) - 1), v |-> 9] : a \in {a \in 0..1 : Full(a) /\ S[a + 1].ch # <<>>}}
       \cup {[k |-> "copy", a |-> 1 - a, b |-> a] : a \in {a \in 0..1 : Full(a)}}
       \cup {[k |-> "clear", a |-> a] : a \in {a \in 0..1 : Full(a) /\ S[a + 1].k = "rect"}}
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : S' = Apply(S, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<S, hist>>
Queries(g) == [1..g.d -> {-1, 0, 1, 2, MaxX, MaxX + 1}]
GridOk == \A s \in {S[1], S[2]} : (s.k # "none" /\ s.divs[1] # <<>>) =>
    /\ (Len(hist) = 1 => TileOk(s) /\ (s.d <= 2 => \A lo, hi \in Queries(s) : (\A a \in 1..s.d : lo[a] <= hi[a]) => TouchOk(s, lo, hi)))
    /\ (s.ch # <<>> => Len(s.ch) = Total(s))
Emit == (Len(hist) = Depth \/ Ops = {}) => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
