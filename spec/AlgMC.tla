------------------------------- MODULE AlgMC -------------------------------
(* All products of small matrices, all quadratics with small coefficients, all short data sets. *)
EXTENDS Alg
CONSTANTS E, Q, S
VARIABLES kind, x
Mats == UNION {[r : {r}, c : {c}, v : [1..(r * c) -> ((0 - E)..E) \X {0}]] : r \in 1..2, c \in 1..2}
Gauss == {[r |-> 1, c |-> 2, v |-> <<a, b>>] : a \in (-1..1) \X (-1..1), b \in (-1..1) \X (-1..1)}
Init == \/ kind = "mat" /\ x \in {p \in Mats \X Mats : p[1].c = p[2].r}
        \/ kind = "mat" /\ x \in {<<p, Adj(q)>> : p \in Gauss, q \in Gauss}
        \/ kind = "quad" /\ x \in ((0 - Q)..Q) \X ((0 - Q)..Q) \X ((0 - Q)..Q)
        \/ kind = "stat" /\ x \in UNION {[1..n -> 0..S] : n \in 2..4}
Next == UNCHANGED <<kind, x>>
Spec == Init /\ [][Next]_<<kind, x>>
Laws ==
    CASE kind = "mat" ->
           LET A == x[1] B == x[2] IN
           /\ Adj(MMul(A, B)) = MMul(Adj(B), Adj(A))
           /\ Adj(Adj(A)) = A
           /\ MMul(A, Ident(A.c)) = A /\ MMul(Ident(A.r), A) = A
           /\ \A j \in 1..B.c : [i \in 1..A.r |-> Ent(MMul(A, B), i, j)] = MMul(A, ColVec([k \in 1..B.r |-> Ent(B, k, j)])).v
           /\ SameShape(A, B) => MSub(MAdd(A, B), B) = A
           /\ MMul(MAdd(A, A), B) = MScale(MMul(A, B), <<2, 0>>)
           \* calls on registers: into an old target, in place
           /\ LET R == <<A, B, MMul(A, B)>> IN MStep(MStep(R, [k |-> "scale", d |-> 3, x |-> <<3, 1>>]), [k |-> "into", d |-> 3, a |-> 1, b |-> 2]) = R
      [] kind = "quad" ->
           LET a == x[1] b == x[2] c == x[3] r == QRoots(a, b, c) IN
           /\ Len(r) = (IF a = 0 THEN IF b = 0 THEN 0 ELSE 1 ELSE IF Disc(a, b, c) < 0 THEN 0 ELSE 2)
           /\ IsSortedSeq(r)
           /\ Len(r) = 2 => Near(a * (r[1] + r[2]), -1000 * b, 2 * Abs(a)) /\ Near((a * r[1] * r[2]) \div 1000, 1000 * c, 30 * Abs(a) * Q + 30)
           /\ QRoots(-a, -b, -c) # <<>> => Len(QRoots(-a, -b, -c)) = Len(r) /\ SeqNear(QRoots(-a, -b, -c), r, 1)
      [] OTHER ->
           /\ Var1000([i \in 1..Len(x) |-> x[i] + 7]) = Var1000(x)
           /\ (Var1000(x) = 0) = (\A i \in 1..Len(x) : x[i] = x[1])
           /\ \A k \in {1} : LET s == SortSeq(x, LAMBDA p, q : p < q) IN
                Cardinality({i \in 1..Len(s) : 2 * s[i] <= Median2(s)}) * 2 >= Len(s) /\ Cardinality({i \in 1..Len(s) : 2 * s[i] >= Median2(s)}) * 2 >= Len(s)
=============================================================================
