------------------------------- MODULE Order -------------------------------
(* Arrays under sorting and permuting, and Morton codes.
   State: the permutation last produced.  Numbers wider than TLC's integers are sets of
   bit positions. *)
EXTENDS Common
OInit == <<>>
IsPerm(p, n) == Len(p) = n /\ Range(p) = 0..(n - 1)
Permute(a, p) == [i \in 1..Len(a) |-> a[p[i] + 1]]
InvPerm(p) == TLCEval([i \in 1..Len(p) |-> (CHOOSE j \in 1..Len(p) : p[j] = i - 1) - 1])
Count(x, a) == Cardinality({i \in 1..Len(a) : a[i] = x})
SameElements(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) : Count(x, a) = Count(x, b)
Sorted(a) == SortSeq(a, LAMBDA x, y : x < y)
Sorts(p, a) == IsPerm(p, Len(a)) /\ IsSortedSeq(Permute(a, p))
FirstMax(a) == IF a = <<>> THEN 0 ELSE (CHOOSE i \in 1..Len(a) : (\A j \in 1..Len(a) : a[j] <= a[i]) /\ (\A j \in 1..(i - 1) : a[j] < a[i])) - 1
RECURSIVE LexBefore(_, _)
LexBefore(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexBefore(Tail(a), Tail(b))

(* ---- Morton codes on sets of bit positions, D axes ---- *)
Weave(xs) == UNION {{Len(xs) * b + (i - 1) : b \in xs[i]} : i \in 1..Len(xs)}
Axis(c, D, i) == {b \div D : b \in {x \in c : x % D = i - 1}}
CodeLess(a, b) == LET d == (a \ b) \cup (b \ a) IN d # {} /\ Max(d) \in b
(* Z-order of coordinates: the axis with the highest differing bit decides (later axes first) *)
ZLess(xs, ys) ==
    LET D == Len(xs)
        Diff(i) == (xs[i] \ ys[i]) \cup (ys[i] \ xs[i])
        Top(i) == IF Diff(i) = {} THEN -1 ELSE Max(Diff(i))
        w == CHOOSE i \in 1..D : \A j \in 1..D : Top(j) < Top(i) \/ (Top(j) = Top(i) /\ j <= i)
    IN Top(w) >= 0 /\ Top(w) \in ys[w]
Width(u, D) == IF u = "u64" THEN (IF D = 2 THEN 32 ELSE 21) ELSE (IF D = 2 THEN 16 ELSE 10)
BitsOf(n) == {b \in 0..30 : (n \div (2 ^ b)) % 2 = 1}
(* a coordinate k/256 of the unit interval in w bits: rounded down or up *)
Down(k, w) == IF k = 0 THEN {} ELSE (0..(w - 9)) \cup {b + w - 8 : b \in BitsOf(k - 1)}
Quantised(k, w, s) == s = Down(k, w) \/ (k < 256 /\ s = {b + w - 8 : b \in BitsOf(k)}) \/ (k = 0 /\ s = {})
OApply(s, o) ==
    CASE o.k = "setp" -> o.p
      [] o.k = "invert" -> InvPerm(s)
      [] OTHER -> s
OPre(s, o) ==
    CASE o.k = "setp" -> IsPerm(o.p, Len(o.p))
      [] o.k = "apply" -> Len(o.a) = Len(s)
      [] o.k = "sort3" -> Len(o.a) = 3
      [] o.k = "sort4" -> Len(o.a) = 4
      [] o.k = "enc" -> \A i \in 1..Len(o.x) : Range(o.x[i]) \subseteq 0..(Width(o.u, Len(o.x)) - 1)
      [] o.k = "dec" -> Range(o.c) \subseteq 0..(o.d * Width(o.u, o.d) - 1)
      [] OTHER -> TRUE
=============================================================================
