---------------------------- MODULE MesherTrace ----------------------------
EXTENDS Mesher
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* circles are cut into chords by linear elements: at least seven *)
Slack(ty, r) == 3 + r.a \div 10000 + r.round * (IF ty = 3 THEN 700 ELSE 40)
NearArea(name, ty, r, a) == Holds(name, Abs(r.a - a) <= Slack(ty, r), <<r, a>>)
(* where sizes differ the ends of a side take the smaller one *)
Uneven(s) == s.sz.m = "kn" /\ Cardinality({Base(m, s.sz.o.kn) : m \in Range(s.sz.o.ms)}) > 1
Border(out, gr) == SumI([i \in 1..Len(out.cur) |-> IF \E k \in 1..Len(out.cur[i].by) : Range(out.cur[i].by[k]) = gr THEN out.cur[i].n ELSE 0])
Elements(s, o, out) ==
    LET F == TLCEval(Fuel(s)) rg == out.reg IN
    /\ Agree("kinds", <<o.t>>, out.kinds)
    /\ Agree("set names", Range(s.g.ord), Range(out.names))
    /\ Agree("signatures", Signatures(s.g), {Range(rg[i].gr) : i \in 1..Len(rg)})
    /\ \A i \in 1..Len(rg) :
          LET gr == Range(rg[i].gr) G == TLCEval(Ground(s.g, gr)) A == AreaOf(G) IN
          /\ NearArea("area of a set of groups", o.t, A, rg[i].a)
          /\ Holds("place", CellsOf(AtomSet(rg[i].at)) \subseteq CellsOf(G), <<gr, rg[i].at>>)
          /\ A.round = 0 => LET w == Wanted(s, F, gr, CellsOf(G)) IN
                Holds("number of elements", /\ 1000 * rg[i].n >= (w * 7) \div 10 - 5000
                                            /\ rg[i].n <= (w * 16) \div 10000 + 12 + 4 * Border(out, gr), <<gr, w, rg[i].n, Border(out, gr)>>)
    /\ Agree("edges of three", 0, out.over)
    /\ Agree("gaps", 0, out.open)
    /\ \A i \in 1..Len(out.cur) :
          LET c == out.cur[i] w == Along(s, F, c) IN
          Holds("pieces of a side", IF Varies(s) THEN 1000 * c.n >= (w * 85) \div 100 - 1000 /\ 1000 * c.n <= (w * 120) \div 100 + 4060
                                    ELSE 1000 * c.n >= w - 60 /\ 1000 * c.n <= w + 1060 + (IF Uneven(s) THEN 3000 + w \div 4 ELSE 0), <<c, w>>)
Conform(s, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ IF Has(out, "kernel") THEN TRUE ELSE
       CASE o.k = "kn" -> Agree("accepted", IF KnRefused(s.g, o) THEN -1 ELSE 0, out.ret) /\ Agree("error shown", KnRefused(s.g, o), out.err > 0)
         [] o.k = "size" -> Agree("errors", 0, out.err)
         [] o.k = "mesh" -> Meshable(s) /\ Elements(s, o, out)
         [] o.k = "imp" ->
              /\ Agree("errors", 0, out.err)
              /\ \A i \in 1..Len(out.cells) :
                    /\ Agree("cell kind", o.t, out.cells[i].t)
                    /\ \A m \in 1..Len(o.m) : NearArea("material in a cell", o.t, AreaOf(CellGround(s.g, i, o.m[m])), out.cells[i].a[m])
         [] OTHER -> TRUE
TInit == l = 1 /\ st = InitM
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = InitM
            ELSE Conform(st, e.op, e.out) = TRUE /\ (IF Has(e.out, "kernel") THEN st' = st ELSE st' = MApply(st, e.op))
TSpec == TInit /\ [][TNext]_<<l, st>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
