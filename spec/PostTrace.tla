------------------------------ MODULE PostTrace ------------------------------
EXTENDS Post
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Same(e, a) == Near(e[1], a[1], 1 + e[1] \div 100000000) /\ Near(e[2], a[2], 2) /\ Near(e[3], a[3], 2)
(* the reported list is the set of regions, in some order *)
Matches(E, A) ==
    /\ Len(E) = Len(A)
    /\ \A i \in 1..Len(E) : Cardinality({j \in 1..Len(A) : Same(E[i], A[j])}) = Cardinality({j \in 1..Len(E) : Same(E[i], E[j])})
Conform(o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ CASE o.k = "pow" ->
               LET rs == TLCEval(SetToSeq(Regions(o.m))) E == TLCEval([i \in 1..Len(rs) |-> Report(o.m, rs[i])]) IN
               /\ Holds("regions", Matches(E, out.r), <<E, out.r>>)
               /\ Agree("errors", 0, out.err)
         [] o.k = "src" -> Agree("sources", Source(o), out.r) /\ Agree("errors", 0, out.err)
         [] o.k = "bad" -> Holds("rejected", out.err > 0 /\ out.r = <<>>, out)
         [] OTHER -> FALSE
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN IF e.op.k = "reset" THEN TRUE ELSE Conform(e.op, e.out) = TRUE
TSpec == TInit /\ [][TNext]_l
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
