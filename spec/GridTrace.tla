----------------------------- MODULE GridTrace -----------------------------
EXTENDS Grid
VARIABLES l, S
Trace == ndJsonDeserialize(IOEnv.TRACE)
Twice(v) == [a \in 1..Len(v) |-> 2 * v[a]]
Shown(g, out) ==
    IF g.divs[1] = <<>> THEN Agree("cleared", [empty |-> 1, sz |-> [a \in 1..g.d |-> 0], nch |-> 0], out)
    ELSE LET lo == Twice(Lo(g)) hi == Twice(Hi(g)) ext == [a \in 1..g.d |-> hi[a] - lo[a]] n == [a \in 1..g.d |-> N(g, a)] IN
    /\ Holds("grid not empty", ~Has(out, "empty"), out) /\ ~Has(out, "empty")
    /\ Agree("minima", lo, out.lo) /\ Agree("maxima", hi, out.hi) /\ Agree("extents", ext, out.ext)
    /\ Agree("cells per axis", n, out.n) /\ Agree("cells", Total(g), out.total)
    /\ Agree("bounding box", <<lo, hi>>, out.bb)
    /\ Agree("axes", [a \in 1..g.d |-> <<lo[a], hi[a], ext[a], n[a]>>], out.ax)
    /\ Agree("listed cells", Total(g), Len(out.cells))
    /\ Len(out.cells) = Total(g)
    /\ \A k \in 1..Total(g) :
          LET i == CellIdx(g, k - 1) c == out.cells[k] bl == Twice(BoxLo(g, i)) bh == Twice(BoxHi(g, i)) IN
          /\ Agree("index", i, c.i) /\ Agree("flat index", k - 1, c.f) /\ Agree("flat index", k - 1, c.f2)
          /\ Agree("cell box", <<bl, bh>>, c.b)
          /\ Has(c, "c") => Agree("centroid", [a \in 1..g.d |-> (bl[a] + bh[a]) \div 2], c.c)
          /\ g.ch # <<>> => Agree("child", g.ch[k], c.ch)
    /\ g.ch # <<>> => Agree("children", g.ch, out.chs)
Conform(s, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ CASE o.k = "find" -> Agree("cell found", [k \in 1..Len(o.ps) |-> Find(s[o.a + 1], o.ps[k])], out.r)
         [] o.k = "touch" -> Agree("cells touched", [k \in 1..Len(o.bs) |-> Touch(s[o.a + 1], o.bs[k][1], o.bs[k][2])], out.r)
         [] o.k = "unit" -> TRUE
         [] OTHER -> LET n == Apply(s, o) IN Shown(n[o.a + 1], out)
TInit == l = 1 /\ S = <<Empty, Empty>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN S' = <<Empty, Empty>>
            ELSE Conform(S, e.op, e.out) = TRUE /\ S' = Apply(S, e.op)
TSpec == TInit /\ [][TNext]_<<l, S>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
