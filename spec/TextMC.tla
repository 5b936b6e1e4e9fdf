------------------------------- MODULE TextMC -------------------------------
(* All texts over two digits, space and line end (layouts) or sign, digits, dot, exponent (numbers), written one
   character at a time; all zero padded numbers counted up. *)
EXTENDS Text
CONSTANTS L, N, W
VARIABLES kind, t, n
LayoutChars == {48, 51, SP, NL}
NumberChars == {48, 53, MINUS, DOT, 101, SP}
Init == kind \in {"lay", "num", "lab"} /\ n = 0 /\ t = IF kind = "lab" THEN Padded(0, W) ELSE <<>>
Next == \/ kind = "lay" /\ Len(t) < L /\ \E c \in LayoutChars : t' = Append(t, c) /\ UNCHANGED <<kind, n>>
        \/ kind = "num" /\ Len(t) < N /\ \E c \in NumberChars : t' = Append(t, c) /\ UNCHANGED <<kind, n>>
        \/ kind = "lab" /\ n < Pow10(W) - 1 /\ t' = Up(t) /\ n' = n + 1 /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, t, n>>
Insert(s, i, c) == SubSeq(s, 1, i) \o <<c>> \o SubSeq(s, i + 1, Len(s))
Layouts == kind = "lay" =>
    LET R == Numbers(t, SP) IN
    /\ \A i \in 1..Len(R) : Len(R[i]) > 0
    \* one more space or line end next to white space of its kind changes nothing
    /\ \A i \in 1..Len(t) : t[i] = SP => Numbers(Insert(t, i, SP), SP) = R
    /\ \A i \in 1..Len(t) : t[i] = NL => Numbers(Insert(t, i, NL), SP) = R /\ Numbers(Insert(t, i, SP), SP) = R
    /\ Numbers(Append(t, NL), SP) = R /\ Numbers(<<NL>> \o t, SP) = R
    \* written out again it reads the same
    /\ Numbers(FlattenSeq([i \in 1..Len(R) |-> FlattenSeq([j \in 1..Len(R[i]) |-> R[i][j] \o <<SP>>]) \o <<NL>>]), SP) = R
    /\ Numbers([i \in 1..Len(t) |-> IF t[i] = SP THEN 44 ELSE t[i]], 44) = R \/ \E i \in 1..Len(t) : t[i] = SP
Nums == kind = "num" =>
    LET w == Whole(t) d == Decimal(t) IN
    /\ w.n <= Len(t) /\ d.n <= Len(t) /\ d.n >= w.n
    /\ w.n > 0 => Whole(SubSeq(t, 1, w.n)) = w /\ Whole(w.v).v = w.v /\ Whole(w.v).n = Len(w.v)
    /\ d.n > 0 => Decimal(SubSeq(t, 1, d.n)) = d
    /\ (d.n = w.n /\ w.n > 0) => Thousandths(d) = Thousandths(Decimal(w.v))
Labels == kind = "lab" => t = Padded(n, W)
Emit == (kind = "lay" /\ Len(t) = L => PrintT("BEHAVIOUR " \o ToJson(<<[k |-> "lay", f |-> "i", d |-> SP, t |-> t]>>)))
        /\ (kind = "num" /\ Len(t) > 0 => PrintT("BEHAVIOUR " \o ToJson(<<[k |-> "num", f |-> "i", t |-> t], [k |-> "num", f |-> "d", t |-> t]>>)))
=============================================================================
