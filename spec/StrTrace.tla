----------------------------- MODULE StrTrace -----------------------------
EXTENDS Str
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 1 /\ st = StrInit /\ hist = <<>>
Conform(o, out) ==
    /\ ~Has(out, "crash")
    /\ Agree("texts", [i \in 1..NS |-> st'.s[i - 1]], out.s)
    /\ Agree("view", st'.w, out.w)
    /\ Agree("result", Result(st, o), out.res)
    /\ Holds("well formed", out.ok, out.why)
    /\ (o.k = "end" => Agree("outstanding allocations", 0, out.leak))
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ UNCHANGED hist
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = StrInit
            ELSE Pre(st, e.op) /\ st' = Apply(st, e.op) /\ Conform(e.op, e.out)
TSpec == TInit /\ [][TNext]_<<st, hist, l>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
