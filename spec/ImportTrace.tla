---------------------------- MODULE ImportTrace ----------------------------
EXTENDS Import, ModelTrace
OutList(out, t) == CASE t = 3 -> out.m3 [] t = 4 -> out.m4 [] t = 6 -> out.m6 [] t = 8 -> out.m8 [] OTHER -> <<>>
Kept(name, exp, act) == Holds(name, Len(act) >= Len(exp), <<Len(exp), Len(act)>>) /\ Len(act) >= Len(exp) /\ MeshAgree(name, exp, SubSeq(act, 1, Len(exp)))
CellTaken(q, M, d, out) ==
    LET w == TLCEval(CellOf(M, d, q)) c == out.cells[q] IN
    /\ Agree("cell kind", w.t, c.t)
    /\ Agree("cell extents", st.cells[q].e, c.e)
    /\ Agree("cell materials", w.ms, c.ms)
    /\ Holds("mesh id", c.t = w.t /\ c.m >= 0 /\ c.m < Len(OutList(out, w.t)), c)
    /\ c.t = w.t /\ c.m >= 0 /\ c.m < Len(OutList(out, w.t))
    /\ LET m == OutList(out, w.t)[c.m + 1] IN
       /\ Agree("faces", Len(w.f), m.nf)
       /\ Agree("vertices", w.nv, m.nv)
       /\ Len(m.f) = Len(w.f)
       /\ \A k \in 1..Len(w.f) :
             LET g == Cycle(m.f[k], LAMBDA x : m.v[x + 1]) IN
             Holds("face", SameCycle(w.f[k], g), <<q, k, w.f[k], g>>)
Tracked(x) == [nf |-> x.nf, nv |-> x.nv, tracked |-> TRUE, v |-> x.v, f |-> x.f, src |-> [k |-> "mesh"]]
Taken(old, act) == old \o [i \in 1..(Len(act) - Len(old)) |-> Tracked(act[Len(old) + i])]
Imported(out) ==
    [st EXCEPT !.cells = [q \in 1..Len(st.cells) |-> [st.cells[q] EXCEPT !.t = out.cells[q].t, !.m = out.cells[q].m, !.ms = out.cells[q].ms]],
               !.m3 = Taken(st.m3, out.m3), !.m4 = Taken(st.m4, out.m4), !.m6 = Taken(st.m6, out.m6), !.m8 = Taken(st.m8, out.m8)]
ImportStep(o, out) ==
    /\ ImportPre(st, o.doc)
    /\ Holds("no crash", ~Has(out, "crash"), out) /\ ~Has(out, "crash")
    /\ LET M == MatMap(st, o.doc) good == Complete(M, o.doc) IN
       /\ Agree("error reported", ~good, out.err > 0)
       /\ (IF ~good THEN st' = MInit        \* the model is not used any further
        ELSE /\ Kept("tri", st.m3, out.m3) /\ Kept("quad", st.m4, out.m4) /\ Kept("tri6", st.m6, out.m6) /\ Kept("quad8", st.m8, out.m8)
             /\ Agree("number of cells", Len(st.cells), Len(out.cells))
             /\ \A q \in 1..Len(st.cells) : CellTaken(q, M, o.doc, out)
             /\ Agree("materials", st.mats, out.mats)
             /\ Agree("rtms", st.rtms, out.rtms) /\ Agree("lattices", st.lats, out.lats)
             /\ Agree("assemblies", st.asys, out.asys) /\ Agree("core", st.core, out.core)
             /\ st' = Imported(out)
             /\ Agree("totals", Totals(st'), out.tot))
INext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = MInit /\ fp' = <<>>
            ELSE IF e.op.k = "imp" THEN ImportStep(e.op, e.out) /\ fp' = e.out.fp
            ELSE Pre(st, e.op) /\ st' = Apply(st, e.op) /\ Conform(e.op, e.out)
                 /\ (e.op.k = "export" => SoupAgree(st, e.out.soup)) /\ fp' = e.out.fp
ISpec == TInit /\ [][INext]_<<l, st, fp>>
=============================================================================
