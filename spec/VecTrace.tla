----------------------------- MODULE VecTrace -----------------------------
(* Validates recorded executions of the real dynamic array against Vec. *)
EXTENDS Vec
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 1 /\ vec = VecInit /\ hist = <<>>
Conform(o, out) ==
    /\ ~Has(out, "crash")
    /\ Agree("content", [i \in 1..NV |-> vec'[i - 1]], out.v)
    /\ Agree("result", Result(vec, o), out.res)
    /\ Holds("capacity", \A i \in 1..NV : out.cap[i] >= Len(out.v[i]), out.cap)
    /\ (o.k = "reserve" => Holds("reserved", out.cap[o.a + 1] >= o.n, out.cap))
    /\ (o.k = "clear" => Holds("capacity kept", out.capkept, out.cap))
    /\ (out.live >= 0 => Agree("live elements", SumSeq([i \in 1..NV |-> Len(vec'[i - 1])]), out.live))
    /\ (o.k = "end" => Agree("outstanding allocations", 0, out.leak))
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN vec' = VecInit /\ UNCHANGED hist
            ELSE /\ Pre(vec, e.op)
                 /\ vec' = Apply(vec, e.op)
                 /\ UNCHANGED hist
                 /\ Conform(e.op, e.out)
TSpec == TInit /\ [][TNext]_<<vec, hist, l>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
