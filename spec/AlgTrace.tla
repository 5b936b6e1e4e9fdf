------------------------------ MODULE AlgTrace ------------------------------
EXTENDS Alg
VARIABLES l, R
Trace == ndJsonDeserialize(IOEnv.TRACE)
MatOps == {"set", "fill", "ident", "clear", "scale", "acc", "dec", "sum", "diff", "mul", "into", "adj", "put", "mv", "copy", "solve", "solvein", "eig"}
SeenMat(name, A, x) ==
    /\ Agree(name \o " shape", <<A.r, A.c>>, x.s) /\ Agree(name \o " entries", A.v, x.v) /\ Agree(name \o " by position", A.v, x.f)
CMat(R1, o, out) ==
    /\ \A d \in 1..3 : SeenMat("matrix", R1[d], out.m[d])
    /\ o.k \in {"solve", "solvein"} =>
         /\ Assert(MMul(R1[1], o.sol) = R1[2], "solution given")
         /\ Agree("shape of the solution", <<o.sol.r, o.sol.c>>, out.s)
         /\ \A i \in 1..Len(o.sol.v) : AgreeSeqNear("solution", <<1000 * o.sol.v[i][1], 1000 * o.sol.v[i][2]>>, out.x[i], o.tol)
    \* the first matrix is P D P^-1 with D diagonal, or with blocks u, -v; v, u for a pair u +- iv
    /\ o.k = "eig" =>
         /\ Assert(MMul(R1[1], R1[2]) = MMul(R1[2], R1[3]), "eigenvectors given")
         /\ Holds("number of eigenvalues", Len(out.w) = R1[1].r, out.w)
         /\ \A i \in 1..Len(o.w) : Holds("eigenvalue",
              Cardinality({j \in 1..Len(out.w) : SeqNear(<<1000 * o.w[i][1], 1000 * o.w[i][2]>>, out.w[j], o.tol)}) = Cardinality({j \in 1..Len(o.w) : o.w[j] = o.w[i]}), <<o.w, out.w>>)
    /\ o.k = "mv" => Agree("product", MMul(R1[o.a], ColVec(o.v)).v, out.y)

Ivec(s) == [i \in 1..Len(s) |-> s[i]]
E1(o, F(_, _)) == [i \in 1..Len(o.u) |-> F(o.u[i], o.v[i])]
S1(o, F(_)) == [i \in 1..Len(o.u) |-> F(o.u[i])]
Dot(u, v) == SumSeq([i \in 1..Len(u) |-> u[i] * v[i]])
Quot(o, a, b) == IF o.f = "I" THEN 1000 * DivT(a, b) ELSE DivN(1000 * a, b)
Cross2(u, v) == u[1] * v[2] - u[2] * v[1]
CVec(o, out) ==
    LET u == o.u v == o.v n == Len(o.u) d2 == Dot(E1(o, LAMBDA a, b : a - b), E1(o, LAMBDA a, b : a - b)) IN
    /\ Agree("negated", S1(o, LAMBDA a : -a), out.neg)
    /\ Agree("sum", E1(o, LAMBDA a, b : a + b), out.add) /\ Agree("difference", E1(o, LAMBDA a, b : a - b), out.sub)
    /\ Agree("product", E1(o, LAMBDA a, b : a * b), out.mul) /\ AgreeSeqNear("quotient", E1(o, LAMBDA a, b : Quot(o, a, b)), out.div, 1)
    /\ Agree("plus scalar", S1(o, LAMBDA a : a + o.s), out.sadd) /\ Agree("plus scalar", S1(o, LAMBDA a : a + o.s), out.sadd2)
    /\ Agree("minus scalar", S1(o, LAMBDA a : a - o.s), out.ssub) /\ Agree("scalar minus", S1(o, LAMBDA a : o.s - a), out.ssub2)
    /\ Agree("times scalar", S1(o, LAMBDA a : a * o.s), out.smul) /\ Agree("times scalar", S1(o, LAMBDA a : a * o.s), out.smul2)
    /\ AgreeSeqNear("by scalar", S1(o, LAMBDA a : Quot(o, a, o.s)), out.sdiv, 1)
    /\ AgreeSeqNear("scalar by", [i \in 1..n |-> Quot(o, o.s, v[i])], out.sdiv2, 1)
    /\ Agree("assigned", [i \in 1..n |-> o.s], out.fill)
    /\ Agree("min", E1(o, LAMBDA a, b : MinI(a, b)), out.min) /\ Agree("max", E1(o, LAMBDA a, b : MaxI(a, b)), out.max)
    /\ Agree("dot", <<Dot(u, v), Dot(u, v)>>, out.dot) /\ Agree("squared norm", <<Dot(u, u), Dot(u, u)>>, out.n2)
    /\ Agree("squared distance", d2, out.d2)
    /\ Agree("comparisons", <<u = v, u # v, LexLess(u, v), LexLess(v, u), ~LexLess(v, u), ~LexLess(u, v)>>, out.cmp)
    /\ (n = 2) => Agree("cross", <<Cross2(u, v), Cross2(u, v)>>, out.x)
    /\ (n = 3) => LET c == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>> IN Agree("cross", <<c, c>>, out.x)
    /\ (o.f # "I") => /\ AgreeSeqNear("norm", <<SqrtM(Dot(u, u)), SqrtM(Dot(u, u))>>, out.n, 11)
                      /\ AgreeNear("distance", SqrtM(d2), out.dist, 11)
                      /\ Agree("same place", d2 = 0, out.same)
                      /\ (Dot(u, u) > 0) => LET w == [i \in 1..n |-> DivN(1000000 * u[i], SqrtM(Dot(u, u)))] IN
                              AgreeSeqNear("unit", w, out.unit, 4) /\ AgreeSeqNear("unit", w, out.unit2, 4)
M3(r, c, s) == [r |-> r, c |-> c, v |-> [i \in 1..Len(s) |-> <<s[i], 0>>]]
Plain(A) == [i \in 1..Len(A.v) |-> A.v[i][1]]
CFix(o, out) ==
    LET A == M3(o.m, o.n, o.a) B == M3(o.n, o.p, o.b) C == M3(o.m, o.n, o.c) IN
    /\ Agree("fixed product", Plain(MMul(A, B)), out.mul) /\ Agree("fixed sum", Plain(MAdd(A, C)), out.add)
    /\ Agree("fixed difference", Plain(MSub(A, C)), out.sub) /\ Agree("fixed matrix times vector", Plain(MMul(A, M3(o.n, 1, o.x))), out.mv)
    /\ Agree("fixed flat", o.a, out.flat) /\ Agree("fixed zero", [i \in 1..(o.m * o.n) |-> 0], out.zero)
    /\ (o.m = o.n) => Agree("fixed identity", Plain(Ident(o.m)), out.id)
CInv(o, out) ==                                        \* a, c, b, d column by column
    LET a == o.a[1] c == o.a[2] b == o.a[3] d == o.a[4] t == a * d - b * c IN
    AgreeSeqNear("inverse", <<DivN(1000 * d, t), DivN(-1000 * c, t), DivN(-1000 * b, t), DivN(1000 * a, t)>>, out.v, 1)
CRot(o, out) ==
    LET h == SqrtM(o.p * o.p + o.q * o.q) c == DivN(1000000 * o.p, h) s == DivN(1000000 * o.q, h) IN
    AgreeSeqNear("rotation", <<c, s, -s, c>>, out.v, 3)
CQuad(o, out) ==
    LET e == QRoots(o.a, o.b, o.c) n == Len(e) IN
    /\ Agree("valid roots", [i \in 1..2 |-> i <= n], out.ok)
    /\ AgreeSeqNear("roots", e, SubSeq(out.r, 1, n), 12)
(* roots p 2^e and q / 2^e of very different size: each to its own scale *)
CQsc(o, out) ==
    LET lo == o.p * (2^(2 * o.e)) <= o.q IN
    /\ Agree("valid roots", <<TRUE, TRUE>>, out.ok)
    /\ Agree("order", TRUE, out.asc)
    /\ AgreeSeqNear("roots", <<1000 * o.p, 1000 * o.q>>, IF lo THEN <<out.big[1], out.small[2]>> ELSE <<out.big[2], out.small[1]>>, 1)
(* cubic with real roots o.r in quarters, and a complex pair unless there are three *)
CCub(o, out) ==
    LET real == {i \in 1..Len(o.r) : TRUE}
        mult(i) == Cardinality({j \in real : o.r[j] = o.r[i]})
        valid == {i \in 1..3 : out.ok[i]}
        near(i, j) == Near(out.r[i], 250 * o.r[j], o.tol)
    IN /\ Holds("only roots", \A i \in valid : \E j \in real : near(i, j), out)
       /\ Holds("all simple roots", \A j \in real : mult(j) = 1 => \E i \in valid : near(i, j), out)
       /\ Holds("each once", (\A j \in real : mult(j) = 1) => Cardinality(valid) = Len(o.r), out)
       /\ Holds("ascending", \A i \in 1..2 : out.ok[i + 1] => out.ok[i] /\ out.r[i] <= out.r[i + 1], out)
CLow(o, out) ==                                        \* leading coefficient zero
    LET e == QRoots(o.a, o.b, o.c) n == Len(e) IN
    /\ Agree("valid roots", [i \in 1..3 |-> i <= n], out.ok) /\ AgreeSeqNear("roots", e, SubSeq(out.r, 1, n), 12)
CStat(o, out) ==
    LET s == TLCEval(Data(o)) t == SumSeq(s) v == Var1000(s) IN
    /\ Agree("sum", t, out.sum) /\ AgreeNear("mean", DivN(1000 * t, o.n), out.mean, o.tol)
    /\ AgreeNear("variance", v, out.var, o.tol) /\ AgreeNear("standard deviation", ISqrt(v * 1000), out.sd, o.tol + 1)
CMed(o, out) == Agree("median", Median2(Ramp(o)), out.med)
CLong(o, out) == Holds("long sum", Abs(out.err) <= 20, out)
Check(R1, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out) /\ ~Has(out, "crash")
    /\ CASE o.k \in MatOps -> CMat(R1, o, out) [] o.k = "vec" -> CVec(o, out) [] o.k = "fix" -> CFix(o, out)
         [] o.k = "inv" -> CInv(o, out) [] o.k = "rot" -> CRot(o, out) [] o.k = "quad" -> CQuad(o, out)
         [] o.k = "qsc" -> CQsc(o, out) [] o.k = "cub" -> CCub(o, out) [] o.k = "low" -> CLow(o, out)
         [] o.k = "stat" -> CStat(o, out) [] o.k = "med" -> CMed(o, out) [] o.k = "long" -> CLong(o, out)
         [] o.k = "type" -> TRUE
Start == [d \in 1..3 |-> Filled(1, 1, <<0, 0>>)]
TInit == l = 1 /\ R = Start
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN IF e.op.k = "reset" THEN R' = Start
            ELSE /\ R' = TLCEval(IF e.op.k = "copy" THEN [R EXCEPT ![e.op.d] = R[e.op.a]] ELSE IF e.op.k \in MatOps THEN MStep(R, e.op) ELSE R)
                 /\ Check(R', e.op, e.out) = TRUE
TSpec == TInit /\ [][TNext]_<<l, R>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
