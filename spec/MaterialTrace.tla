---------------------------- MODULE MaterialTrace ----------------------------
EXTENDS Material
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
XsAgree(name, X, x, tol) ==
    /\ Agree(name \o " groups", Len(X.a), x.g)
    /\ AgreeSeqNear(name \o " absorption", X.a, x.a, tol) /\ AgreeSeqNear(name \o " fission", X.f, x.f, tol)
    /\ AgreeSeqNear(name \o " nu fission", X.nuf, x.nuf, tol) /\ AgreeSeqNear(name \o " transport", X.tr, x.tr, tol)
    /\ AgreeSeqNear(name \o " scattering", X.s, x.s, tol)
    /\ Agree(name \o " matrix rows", Len(X.ss), Len(x.ss))
    /\ \A i \in 1..Len(X.ss) : AgreeSeqNear(name \o " scattering matrix", X.ss[i], x.ss[i], tol)
    /\ AgreeSeqNear(name \o " total", [g \in 1..Len(X.a) |-> X.a[g] + X.s[g]], x.t, 2 * tol)
    /\ Holds(name \o " fissile", (X.fis => x.fis = 1) /\ (x.fis = 1 => X.may), <<X.fis, X.may, x.fis>>)     \* which neighbour counts at a tabulated temperature is left open
NdNear(e, a) == e < 0 \/ Near(e, a, 3 + e \div 50000)
Comp(m, out) ==
    /\ Agree("nuclides", m.z, out.z) /\ Agree("number of nuclides", Len(m.z), out.n)
    /\ Holds("number densities", Len(out.nd) = Len(m.nd) /\ \A i \in 1..Len(m.nd) : Near(m.nd[i], out.nd[i], 2 + m.nd[i] \div 500000), <<m.nd, out.nd>>)
    /\ Holds("number densities", \A i \in 1..Len(m.nd9) : NdNear(m.nd9[i], out.nd9[i]) \/ m.nd9[i] = 100 * m.nd[i], <<m.nd9, out.nd9>>)
Full(x) == [a |-> x.a, f |-> x.f, nuf |-> x.nuf, tr |-> x.tr, ss |-> x.ss, s |-> Scat(x), fis |-> FissileX(x)]
Conform(s, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ CASE o.k \in {"mat", "add", "addsym", "wt", "wtsym", "at", "uo2"} -> Comp(Apply(s, o).m, out)
         [] o.k = "zaid" -> Agree("identifier", Zaid(o.sy[1], o.sy[2]), out.z)
         [] o.k = "pop" -> LET x == Apply(s, o).x[1] IN XsAgree("macroscopic", x, out.x, x.tol) /\ Agree("macroscopic", <<1, 1>>, <<out.x.macro, out.has>>)
         [] o.k = "col" -> LET c == Collapse(s.x[1]) IN XsAgree("collapsed", c, out.x, c.tol) /\ Agree("macroscopic", 1, out.x.macro)
         [] o.k = "interp" -> XsAgree("interpolated", Interp(NucOf(s.lib, o.z), o.q), out.x, 2) /\ Agree("macroscopic", 0, out.x.macro)
         [] o.k = "xcol" -> XsAgree("collapsed", Collapse([Interp([ts |-> <<1>>, xs |-> <<o.x>>], 1) EXCEPT !.fis = FissileX(o.x)] @@ [tol |-> 1]), out.x, 2)
         [] o.k = "xval" -> Holds("flagged", LET F == Flagged(o) IN (F.w > 0) = (out.w > 0) /\ (F.e > 0) = (out.e > 0), <<Flagged(o), out>>)
         [] o.k = "c5g7" -> Agree("benchmark materials", [i \in 1..7 |-> C5G7[i] @@ [ds |-> <<0, 0, 0, 0, 0, 0, 0>>, macro |-> 1, fis |-> IF i <= 5 THEN 1 ELSE 0]], out.m)
         [] OTHER -> Agree("no errors", 0, out.err)
TInit == l = 1 /\ st = Init0
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = Init0
            ELSE Conform(st, e.op, e.out) = TRUE /\ st' = Apply(st, e.op)
TSpec == TInit /\ [][TNext]_<<l, st>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
