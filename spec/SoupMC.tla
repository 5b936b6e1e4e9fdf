------------------------------- MODULE SoupMC -------------------------------
EXTENDS Soup
CONSTANTS MaxHist, MaxV, MaxE
VARIABLES st, hist
S2 == {0, 1}
AllOps(s) ==
    {[k |-> "vert", s |-> 0, p |-> <<Len(s[1].v), 1, 0>>]}
    \cup {[k |-> "elem", s |-> 0, ty |-> 2, c |-> c] : c \in {<<0, 1>>, <<1, 0>>}}
    \cup {[k |-> "elset", s |-> q, n |-> n, i |-> i, d |-> d] :
             q \in {0}, n \in {"ab", "a"}, i \in {<<0>>, <<1>>, <<0, 1>>, <<>>}, d \in {<<>>, <<5>>, <<7, 6>>}}
    \cup {[k |-> "sort", s |-> 0]}
    \cup {[k |-> "app", s |-> a, t |-> b] : a \in S2, b \in S2}
    \cup {[k |-> "sub", s |-> a, n |-> n, t |-> 1] : a \in S2, n \in {"a", "ab"}}
    \cup {[k |-> "copy", s |-> 0, t |-> 1], [k |-> "clear", s |-> 0], [k |-> "cmp", s |-> 0, t |-> 1],
          [k |-> "trans", s |-> 1, p |-> <<1, 0, 2>>]}
Small(s) == \A i \in 1..2 : Len(s[i].v) <= MaxV /\ Len(s[i].e) <= MaxE
                            /\ \A j \in 1..Len(s[i].v) : s[i].v[j][1] <= 3
Init == st = SInit /\ hist = <<>>
Next == Len(hist) < MaxHist /\ \E o \in AllOps(st) :
          Pre(st, o) /\ Small(Apply(st, o)) /\ st' = Apply(st, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<st, hist>>
View == st
Inv == /\ \A i \in 1..NSoup : WellFormed(st[i])
       /\ \A i \in 1..NSoup : \A n \in NameSet(st[i]) : WellFormed(Subset(st[i], n))
       /\ \A i \in 1..NSoup : Join(st[i], Empty) = st[i] /\ (SortedNames(st[i]) => Join(Empty, st[i]) = st[i])
EmitT == PrintT("BEHAVIOUR " \o ToJson([h |-> hist', loop |-> st' = st]))
=============================================================================
