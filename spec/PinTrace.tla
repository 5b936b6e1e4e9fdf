------------------------------ MODULE PinTrace ------------------------------
EXTENDS Pin
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 1 /\ st = MInit
Queried(s, q, out) ==
    LET d == Meshes(s, q.t)[q.m + 1].src IN
    IF d.k = "rect" THEN RectOk(d, out.pin)
    ELSE PinMesh(d, out.pin, 20)
Conform(s, n, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ Agree("index", Ret(s, o), out.ret)
    /\ Agree("cells", n.cells, out.cells)
    /\ Agree("meshes", <<Len(n.m4), Len(n.m8)>>, <<Len(out.m4), Len(out.m8)>>)
    /\ (o.k = "pinq" => Queried(s, o, out))
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = MInit
            ELSE st' = Apply(st, e.op) /\ Conform(st, Apply(st, e.op), e.op, e.out) = TRUE
TSpec == TInit /\ [][TNext]_<<l, st>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
