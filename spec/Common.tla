------------------------------ MODULE Common ------------------------------
(* Operators shared by all modules of the specification. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Const(n, x) == [i \in 1..n |-> x]
Range0(n) == [i \in 1..n |-> i - 1]          \* <<0, 1, ..., n-1>>
IndexWhere(s, P(_)) ==                         \* first 1-based index, 0 if none
    LET S == {i \in 1..Len(s) : P(s[i])} IN IF S = {} THEN 0 ELSE Min(S)
SeqNear(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)
IsSortedSeq(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
(* a * b / c without overflow: quotient and remainder (a, b >= 0, c < 7 * 10^8) *)
RECURSIVE MD2(_, _, _)
MD2(a, b, c) ==
    IF b = 0 THEN <<0, 0>>
    ELSE LET h == MD2(a, b \div 2, c)
             r == 2 * h[2] + (b % 2) * (a % c)
         IN <<2 * h[1] + (b % 2) * (a \div c) + r \div c, r % c>>
MD(a, b, c) == IF b < 0 THEN -(MD2(a, -b, c)[1]) ELSE MD2(a, b, c)[1]
Has(r, f) == f \in DOMAIN r
(* Lexicographic order on integer sequences. *)
RECURSIVE LexLess(_, _)
LexLess(s, t) ==
    IF t = <<>> THEN FALSE
    ELSE IF s = <<>> THEN TRUE
    ELSE IF Head(s) < Head(t) THEN TRUE
    ELSE IF Head(t) < Head(s) THEN FALSE
    ELSE LexLess(Tail(s), Tail(t))
(* Explanation of a rejected event, printed only in the debugging re-run. *)
Debug == "VDEBUG" \in DOMAIN IOEnv
Agree(name, expected, actual) ==
    IF expected = actual THEN TRUE
    ELSE IF Debug /\ PrintT(<<"EXPECT", name, expected, "ACTUAL", actual>>) THEN FALSE ELSE FALSE
AgreeNear(name, expected, actual, tol) ==
    IF Near(expected, actual, tol) THEN TRUE
    ELSE IF Debug /\ PrintT(<<"EXPECT", name, expected, "ACTUAL", actual, "TOL", tol>>) THEN FALSE ELSE FALSE
AgreeSeqNear(name, expected, actual, tol) ==
    IF SeqNear(expected, actual, tol) THEN TRUE
    ELSE IF Debug /\ PrintT(<<"EXPECT", name, expected, "ACTUAL", actual, "TOL", tol>>) THEN FALSE ELSE FALSE
Holds(name, cond, actual) ==
    IF cond THEN TRUE
    ELSE IF Debug /\ PrintT(<<"EXPECT", name, "ACTUAL", actual>>) THEN FALSE ELSE FALSE
=============================================================================
