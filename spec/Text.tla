------------------------------- MODULE Text -------------------------------
(* Numbers and layouts written as text.  A text is a sequence of character codes; a whole number is its decimal
   text without leading zeros, so that its size does not matter. *)
EXTENDS Common
SP == 32  NL == 10  MINUS == 45  PLUS == 43  DOT == 46
IsDigit(c) == c >= 48 /\ c <= 57
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Ch(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
RECURSIVE Skip(_, _)
Skip(t, i) == IF IsSpace(Ch(t, i)) THEN Skip(t, i + 1) ELSE i
RECURSIVE Digits(_, _)
Digits(t, i) == IF IsDigit(Ch(t, i)) THEN Digits(t, i + 1) ELSE i                 \* first position that is none
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
Sign(t, i) == IF Ch(t, i) \in {MINUS, PLUS} THEN i + 1 ELSE i
(* whole number at the start of t: [v, n] its canonical text and the characters used; none: 0 and nothing *)
Whole(t) ==
    LET a == Skip(t, 1) b == Sign(t, a) e == Digits(t, b) d == Strip(SubSeq(t, b, e - 1))
    IN IF e = b THEN [v |-> <<48>>, n |-> 0]
       ELSE [v |-> IF Ch(t, a) = MINUS /\ d # <<48>> THEN <<MINUS>> \o d ELSE d, n |-> e - 1]
(* decimal number: digits, their power of ten, characters used *)
Val(d) == FoldLeft(LAMBDA acc, c : 10 * acc + (c - 48), 0, d)
Decimal(t) ==
    LET a == Skip(t, 1) b == Sign(t, a) e == Digits(t, b)
        f == IF Ch(t, e) = DOT THEN Digits(t, e + 1) ELSE e                       \* behind the fraction
        some == e > b \/ f > e + 1
        x == IF Ch(t, f) \in {69, 101} THEN Sign(t, f + 1) ELSE 0
        y == IF x > 0 THEN Digits(t, x) ELSE 0
        ex == IF x > 0 /\ y > x THEN (IF t[x - 1] = MINUS THEN -1 ELSE 1) * Val(SubSeq(t, x, y - 1)) ELSE 0
    IN IF ~some THEN [neg |-> FALSE, d |-> <<>>, e |-> 0, n |-> 0]
       ELSE [neg |-> Ch(t, a) = MINUS, d |-> SubSeq(t, b, e - 1) \o (IF f > e THEN SubSeq(t, e + 1, f - 1) ELSE <<>>),
             e |-> ex - (IF f > e THEN f - e - 1 ELSE 0), n |-> IF x > 0 /\ y > x THEN y - 1 ELSE f - 1]
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
BIG == 2000000007                                                                 \* what is recorded above 2000000000
Thousandths(x) ==
    LET q == Strip(x.d) e == x.e + 3
        zero == \A i \in 1..Len(q) : q[i] = 48
        big == Len(q) + e > 10 \/ (Len(q) + e = 10 /\ (q[1] > 50 \/ (q[1] = 50 /\ \E i \in 2..Len(q) : q[i] # 48)))
        m == IF zero THEN 0 ELSE IF big THEN BIG
             ELSE LET v == Val(q) IN IF e >= 0 THEN v * Pow10(e) ELSE IF e < -9 THEN 0 ELSE (2 * v + Pow10(-e)) \div (2 * Pow10(-e))
    IN IF x.neg THEN -m ELSE m

(* ---- layouts: lines of numbers, separated by delim and spaces; blank lines do not count *)
RECURSIVE Split(_, _)
Split(t, c) == LET i == IndexWhere(t, LAMBDA x : x = c) IN IF i = 0 THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o Split(SubSeq(t, i + 1, Len(t)), c)
Blank(t) == \A i \in 1..Len(t) : t[i] = SP
NonBlank(s) == SelectSeq(s, LAMBDA t : ~Blank(t))
Tokens(line, delim) == NonBlank(Split(line, delim))
Rows(t, delim) ==
    LET lines == NonBlank(Split(t, NL)) IN [i \in 1..Len(lines) |-> Tokens(lines[i], delim)]
Numbers(t, delim) == [i \in 1..Len(Rows(t, delim)) |-> [j \in 1..Len(Rows(t, delim)[i]) |-> Whole(Rows(t, delim)[i][j]).v]]

(* ---- zero padded numbers *)
RECURSIVE Padded(_, _)
Padded(n, w) == IF w = 0 THEN <<>> ELSE Padded(n \div 10, w - 1) \o <<48 + (n % 10)>>
RECURSIVE Up(_)
Up(d) == IF d = <<>> THEN <<>> ELSE LET k == Len(d) f == SubSeq(d, 1, k - 1) IN IF d[k] = 57 THEN Up(f) \o <<48>> ELSE f \o <<d[k] + 1>>
=============================================================================
