----------------------------- MODULE XsLibTrace -----------------------------
EXTENDS XsLib
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
XOk(X, x) ==
    /\ Agree("absorption", X.a, x.a) /\ Agree("fission", X.f, x.f) /\ Agree("nu fission", X.nuf, x.nuf)
    /\ Agree("transport", X.tr, x.tr) /\ Agree("total scattering", X.s, x.s) /\ Agree("scattering rows", X.ss, x.ss)
    /\ Agree("fissile", FissileOf(X), x.fis = 1) /\ Agree("microscopic", 0, x.macro)
NucOk(N, n) ==
    /\ Agree("identifier", N.z, n.z) /\ Agree("mass", N.mass, n.mass) /\ Agree("temperatures", N.tp, n.tp)
    /\ Agree("fissile nuclide", \E t \in 1..Len(N.xs) : FissileOf(N.xs[t]), n.fis = 1)
    /\ Agree("tables", Len(N.xs), Len(n.xs))
    /\ \A t \in 1..Len(N.xs) : XOk(N.xs[t], n.xs[t])
Conform(s, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ CASE o.k = "file" ->
               LET p == TLCEval(ReadLib(o.lines)) IN
               /\ Agree("well-formed file", TRUE, WellFormed(o.lines))
               /\ Agree("groups", p.g, out.g) /\ Agree("energy bounds", p.gb, out.gb) /\ Agree("fission spectrum", p.chi, out.chi)
               /\ Agree("nuclides", Len(p.nuc), Len(out.nuc))
               /\ \A i \in 1..Len(p.nuc) : NucOk(p.nuc[i], out.nuc[i])
               /\ Agree("errors", 0, out.err)
         [] o.k = "get" -> LET i == Find(s, o.z) IN
               IF i = 0 THEN Holds("error for an unknown nuclide", out.err > 0, out)
               ELSE Agree("nuclide found", <<o.z, s.nuc[i].mass, Len(s.nuc[i].tp), 0>>, <<out.z, out.mass, out.nt, out.err>>)
         [] OTHER -> FALSE
TInit == l = 1 /\ st = Start
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = Start
            ELSE Conform(st, e.op, e.out) = TRUE /\ st' = IF e.op.k = "file" THEN ReadLib(e.op.lines) ELSE st
TSpec == TInit /\ [][TNext]_<<l, st>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
