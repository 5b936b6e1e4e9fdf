----------------------------- MODULE TextTrace -----------------------------
EXTENDS Text
VARIABLES l, lab
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(s, o) == CASE o.k = "lab" -> o.t [] o.k = "idx" -> Padded(o.n, 5)
                [] o.k = "up" -> FoldLeft(LAMBDA acc, x : Up(acc), s, [i \in 1..o.m |-> i]) [] OTHER -> s
Real(f) == f \in {"d", "f"}
CLay(o, out) ==
    LET R == TLCEval(Rows(o.t, o.d)) IN
    /\ Agree("row lengths", [i \in 1..Len(R) |-> Len(R[i])], [i \in 1..Len(out.r) |-> Len(out.r[i])])
    /\ \A i \in 1..Len(R) : \A j \in 1..Len(R[i]) :
         IF Real(o.f) THEN AgreeNear("value", Thousandths(Decimal(R[i][j])), out.r[i][j], 1) ELSE Agree("value", Whole(R[i][j]).v, out.r[i][j])
CNum(o, out) ==
    IF Real(o.f) THEN LET d == Decimal(o.t) IN Agree("used", d.n, out.n) /\ AgreeNear("value", Thousandths(d), out.v, 1)
    ELSE LET w == Whole(o.t) IN Agree("used", w.n, out.n) /\ Agree("value", w.v, out.v)
(* fractions are thousandths of full intensity *)
CCol(o, out) ==
    IF o.f = "i" THEN Agree("colour", o.c, out.c) /\ Agree("same colour", o.c = o.e, out.same)
    ELSE /\ AgreeSeqNear("colour", [i \in 1..4 |-> (o.c[i] * 255) \div 1000], out.c, 1)
         /\ \A i \in 1..4 : o.c[i] \in {0, 1000} => Agree("end of the range", (o.c[i] * 255) \div 1000, out.c[i])
Check(s, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out) /\ ~Has(out, "crash")
    /\ CASE o.k = "lay" -> CLay(o, out) [] o.k = "num" -> CNum(o, out) [] o.k = "col" -> CCol(o, out)
         [] OTHER -> Agree("label", o.p \o s, out.t)
TInit == l = 1 /\ lab = <<48>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN IF e.op.k = "reset" THEN lab' = <<48>> ELSE lab' = Step(lab, e.op) /\ Check(lab', e.op, e.out) = TRUE
TSpec == TInit /\ [][TNext]_<<l, lab>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
