------------------------- MODULE ModelDerivedTrace -------------------------
EXTENDS ModelDerived
VARIABLES l, st, mx
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 1 /\ st = MInit /\ mx = <<>>
AsMat(o) == IF o.k = "matx" THEN [k |-> "mat", n |-> o.n] ELSE o
Query(o) == o.k \in {"homog", "mcl", "wfiles"}
Homog(s, x, o, out) ==
    LET H == Homogenised(s, x, o.c) IN
    /\ \A r \in Reactions : AgreeSeqNear("homogenised " \o r, H[r], out.h[r], 3)
    /\ LET S == HomScatter(s, x, o.c) IN \A i \in 1..Len(S) : AgreeSeqNear("homogenised scattering", S[i], out.h.ss[i], 3)
    /\ Agree("fissile", HomFissile(s, x, o.c), out.h.fis = 1)
    /\ Agree("macroscopic", 1, out.h.macro)
Conform(s, x, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ CASE o.k = "homog" -> Homog(s, x, o, out)
         [] o.k = "mcl" -> ChordsAgree("chord lengths", AllChords(s), out.mcl)
         [] o.k = "export" -> SoupAgree(s, out.soup) /\ ExportData(s, x, out.soup)
         [] o.k = "wfiles" -> VolumesAgree(s, out.vol) /\ XsFileAgree(x, out.xf)
                              /\ InputAgree(s, x, out.inp, out.mcl) /\ FileData(s, x, out, o)
                              /\ ChordsAgree("chord lengths", AllChords(s), out.mcl)
         [] OTHER -> Agree("index", Ret(s, AsMat(o)), out.ret)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = MInit /\ mx' = <<>>
            ELSE /\ Conform(st, mx, e.op, e.out) = TRUE
                 /\ st' = IF Query(e.op) THEN st ELSE Apply(st, AsMat(e.op))
                 /\ mx' = IF e.op.k = "matx" THEN Append(mx, e.op) ELSE IF e.op.k = "clear" THEN <<>> ELSE mx
TSpec == TInit /\ [][TNext]_<<l, st, mx>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
