------------------------------ MODULE ImportMC ------------------------------
(* Two cells of two faces each: all orders of the elements in the file, all materials, all directions. *)
EXTENDS Import
CONSTANTS Kinds
VARIABLES d, s
V == <<<<0, 0>>, <<8, 0>>, <<16, 0>>, <<24, 0>>, <<32, 0>>, <<0, 16>>, <<8, 16>>, <<16, 16>>, <<24, 16>>, <<32, 16>>>>
Quads == <<<<0, 1, 6, 5>>, <<1, 2, 7, 6>>, <<2, 3, 8, 7>>, <<3, 4, 9, 8>>>>
Tris == <<<<0, 2, 7>>, <<0, 7, 5>>, <<2, 4, 7>>, <<4, 9, 7>>>>
Perms == {p \in [1..4 -> 1..4] : \A i, j \in 1..4 : p[i] = p[j] => i = j}
Turn(c, f) == IF f THEN <<c[1]>> \o Reverse(Tail(c)) ELSE c
At(p, S) == SelectSeq(<<0, 1, 2, 3>>, LAMBDA i : p[i + 1] \in S)
Doc(t, p, m, f) ==
    LET F == IF t = 4 THEN Quads ELSE Tris IN
    [v |-> V, e |-> [i \in 1..4 |-> [t |-> t, c |-> Turn(F[p[i]], f[p[i]])]],
     cs |-> <<At(p, {1, 2}), At(p, {3, 4})>>,
     ms |-> SelectSeq(<<[n |-> "A", i |-> At(p, {x \in 1..4 : m[x] = 0})], [n |-> "AB", i |-> At(p, {x \in 1..4 : m[x] = 1})]>>, LAMBDA x : x.i # <<>>)]
Flips == {[x \in 1..4 |-> x \in F] : F \in {{}, {1}, {2, 3}, {1, 2, 3, 4}}}
Init == /\ d \in {Doc(t, p, m, f) : t \in Kinds, p \in Perms, m \in [1..4 -> {0, 1}], f \in Flips}
        /\ s \in {[MInit EXCEPT !.mats = n, !.cells = <<BareCell(16, 16), BareCell(16, 16)>>] : n \in {<<"A", "AB">>, <<"AB", "A">>, <<"B", "AB", "A">>}}
Next == UNCHANGED <<d, s>>
Spec == Init /\ [][Next]_<<d, s>>
Laws == LET M == MatMap(s, d) IN
        /\ ImportPre(s, d) /\ Complete(M, d)
        /\ \A m \in 0..(Len(s.mats) - 1) : AreaOfMat(M, d, m) = ImportedArea(M, d, m)
        /\ \A q \in 1..2 : LET c == CellOf(M, d, q) IN
              /\ FoldLeft(LAMBDA a, k : a + TwiceArea(c.f[k]), 0, <<1, 2>>) = 2 * 16 * 16
              /\ MinOf({p[1] : p \in Range(c.f[1]) \cup Range(c.f[2])}) = 0
Emit == PrintT("BEHAVIOUR " \o ToJson([h |-> <<[mats |-> s.mats, doc |-> d]>>]))
=============================================================================
