-------------------------------- MODULE Alg --------------------------------
(* Exact small linear algebra, polynomial roots and statistics.  A matrix is [r, c, v] with v its entries column
   by column, every entry <<real, imaginary>>. *)
EXTENDS Common
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n < 2 THEN n ELSE Newton(n, IF n > 2000000000 THEN 44722 ELSE n \div 2 + 1)
SqrtM(n) == IF n < 2000 THEN ISqrt(n * 1000000)                       \* 1000 sqrt(n)
            ELSE IF n < 200000 THEN 10 * ISqrt(n * 10000) ELSE 100 * ISqrt(n * 100)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
DivN(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b              \* floor
DivT(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))                  \* towards zero

(* ---- matrices *)
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Conj(x) == <<x[1], -x[2]>>
CSum(s) == FoldLeft(LAMBDA acc, x : CAdd(acc, x), <<0, 0>>, s)
Build(r, c, F(_, _)) == [r |-> r, c |-> c, v |-> [k \in 1..(r * c) |-> F(((k - 1) % r) + 1, (k - 1) \div r + 1)]]
Ent(A, i, j) == A.v[(j - 1) * A.r + i]
MAdd(A, B) == Build(A.r, A.c, LAMBDA i, j : CAdd(Ent(A, i, j), Ent(B, i, j)))
MSub(A, B) == Build(A.r, A.c, LAMBDA i, j : CSub(Ent(A, i, j), Ent(B, i, j)))
MScale(A, x) == Build(A.r, A.c, LAMBDA i, j : CMul(x, Ent(A, i, j)))
MMul(A, B) == Build(A.r, B.c, LAMBDA i, j : CSum([k \in 1..A.c |-> CMul(Ent(A, i, k), Ent(B, k, j))]))
Adj(A) == Build(A.c, A.r, LAMBDA i, j : Conj(Ent(A, j, i)))            \* transposed, conjugated
Ident(n) == Build(n, n, LAMBDA i, j : IF i = j THEN <<1, 0>> ELSE <<0, 0>>)
Filled(r, c, x) == Build(r, c, LAMBDA i, j : x)
ColVec(s) == [r |-> Len(s), c |-> 1, v |-> s]
SameShape(A, B) == A.r = B.r /\ A.c = B.c

(* registers: one action per call *)
MStep(R, o) ==
    CASE o.k = "set" -> [R EXCEPT ![o.d] = [r |-> o.r, c |-> o.c, v |-> o.v]]
      [] o.k = "fill" -> [R EXCEPT ![o.d] = Filled(o.r, o.c, o.x)]
      [] o.k = "ident" -> [R EXCEPT ![o.d] = Ident(o.r)]
      [] o.k = "clear" -> [R EXCEPT ![o.d] = Filled(R[o.d].r, R[o.d].c, <<0, 0>>)]
      [] o.k = "scale" -> [R EXCEPT ![o.d] = MScale(R[o.d], o.x)]
      [] o.k = "acc" -> [R EXCEPT ![o.d] = MAdd(R[o.d], R[o.a])]
      [] o.k = "dec" -> [R EXCEPT ![o.d] = MSub(R[o.d], R[o.a])]
      [] o.k = "sum" -> [R EXCEPT ![o.d] = MAdd(R[o.a], R[o.b])]
      [] o.k = "diff" -> [R EXCEPT ![o.d] = MSub(R[o.a], R[o.b])]
      [] o.k \in {"mul", "into"} -> [R EXCEPT ![o.d] = MMul(R[o.a], R[o.b])]
      [] o.k = "adj" -> [R EXCEPT ![o.d] = Adj(R[o.d])]
      [] o.k = "put" -> [R EXCEPT ![o.d].v = [R[o.d].v EXCEPT ![(o.j - 1) * R[o.d].r + o.i] = o.x]]
      [] OTHER -> R

(* ---- quadratic equations: expected roots in thousandths, ascending *)
Disc(a, b, c) == b * b - 4 * a * c
QRoots(a, b, c) ==
    IF a = 0 THEN IF b = 0 THEN <<>> ELSE <<DivN(-1000 * c, b)>>
    ELSE IF Disc(a, b, c) < 0 THEN <<>>
    ELSE LET s == SqrtM(Disc(a, b, c)) p == DivN(-1000 * b - s, 2 * a) q == DivN(-1000 * b + s, 2 * a)
         IN <<MinI(p, q), MaxI(p, q)>>

(* ---- statistics *)
Data(o) == [i \in 1..o.n |-> ((i * o.p + o.b) % o.m) - o.o]
SumSq(s) == SumSeq([i \in 1..Len(s) |-> s[i] * s[i]])
Var1000(s) == LET n == Len(s) t == SumSeq(s) IN MD(n * SumSq(s) - t * t, 1000, n * (n - 1))
Ramp(o) == [i \in 1..o.n |-> (i * o.p) \div o.m - o.o]
Median2(s) == LET n == Len(s) IN IF n % 2 = 1 THEN 2 * s[n \div 2 + 1] ELSE s[n \div 2] + s[n \div 2 + 1]
=============================================================================
