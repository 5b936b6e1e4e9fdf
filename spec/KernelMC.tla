------------------------------ MODULE KernelMC ------------------------------
(* All arrangements of up to three rectangles on 2 x 2 cells. *)
EXTENDS Kernel
CONSTANTS MaxR
VARIABLES s, hist
Rects == {[k |-> "rect", x |-> x, y |-> y, z |-> 0, w |-> w, h |-> h, t |-> 1, g |-> g] :
             x \in 0..1, y \in 0..1, w \in 1..2, h \in 1..2, g \in {"Material_A", "Material_B", "L 1"}}
Inside(o) == o.x + o.w <= 2 /\ o.y + o.h <= 2
Init == s = InitK /\ hist = <<>>
Covered(t, i, a) == a \in t.e[i].at
AtomsOf(t, i) == CHOOSE q \in {<<a>> : a \in t.e[i].at} : TRUE
Corner(i) == LET A == s.e[i].at IN <<CHOOSE a \in A : a[3] = 4 /\ \A b \in A : a[1] + a[2] <= b[1] + b[2]>>
Bools == {[k |-> k, a |-> Corner(1), b |-> IF Len(s.e) = 2 THEN Corner(2) ELSE Corner(2) \o Corner(3), hier |-> h] :
             k \in {"frag", "isect", "cut"}, h \in {<<>>, <<"A", "B">>, <<"B", "A">>}}
Plain == \A i \in 1..Len(hist) : hist[i].k = "rect"
Next == \/ Plain /\ Len(hist) < MaxR /\ \E o \in Rects : Inside(o) /\ s' = Apply(s, o) /\ hist' = Append(hist, o)
        \/ (Plain /\ Len(hist) >= 2) = TRUE /\ \E o \in Bools : (o.k = "cut" => o.hier = <<>>) /\ s' = Apply(s, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<s, hist>>
Now == hist[Len(hist)]
Before == FoldLeft(LAMBDA t, o : Apply(t, o), InitK, SubSeq(hist, 1, Len(hist) - 1))
AllAtoms == {<<x, y, k>> : x \in 0..1, y \in 0..1, k \in 1..4}
In(t, g, a) == \E i \in Members(t.e, g) : a \in t.e[i].at
IsBool == hist # <<>> /\ Now.k \in {"frag", "isect", "cut"}
(* splitting neither loses nor adds ground to a group *)
KeepsGround == IsBool => LET b == Before IN
    Now.k = "frag" /\ Now.hier = <<>> => \A g \in {"Material_A", "Material_B", "L 1"}, a \in AllAtoms : In(b, g, a) <=> In(s, g, a)
OneMaterial == IsBool /\ Now.k # "cut" /\ Now.hier # <<>> => \A i \in 1..Len(s.e) : ~({"Material_A", "Material_B"} \subseteq s.e[i].gr)
Priority == IsBool /\ Now.k = "frag" /\ Now.hier # <<>> => LET b == Before top == Materials \o Now.hier[1] IN
    \A a \in AllAtoms : In(b, top, a) <=> In(s, top, a)
Whole == \A i \in 1..Len(s.e) : s.e[i].at # {}
NoEmptyGroups == \A i \in 1..Len(s.ord) : Members(s.e, s.ord[i]) # {}
Emit == IsBool => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
