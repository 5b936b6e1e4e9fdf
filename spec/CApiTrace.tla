------------------------------ MODULE CApiTrace ------------------------------
EXTENDS CApi
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
GridAgree(name, g, x) ==
    /\ Agree(name \o " size", <<Len(g.xd) - 1, Len(g.yd) - 1>>, x.n)
    /\ Agree(name \o " children", g.ch, x.ch)
CellOk(m, c, x) ==
    LET q == MeshOf(m, c - 1) cell == m.cells[c] IN
    /\ Agree("faces", q.nf, x.nf) /\ Agree("extents", cell.e, x.e) /\ Agree("material ids", cell.ms, x.ms)
    /\ Agree("mesh kind", cell.t, x.t) /\ Agree("mesh sizes", <<q.nv, q.nf>>, <<x.nv, x.nf2>>)
    /\ Agree("mesh points", q.v, x.v) /\ Agree("mesh faces", q.f, x.f)
    /\ AgreeSeqNear("areas", [i \in 1..q.nf |-> Area6(cell.t, FacePts(m, c - 1, i)) \div 3], x.ar, 1)
    /\ \A i \in 1..q.nf : LET P == FacePts(m, c - 1, i) a == Area6(cell.t, P) IN
          AgreeSeqNear("centroid", [k \in 1..2 |-> MD(1000, Moment30(cell.t, P, k), 5 * a)], x.cen[i], 1)
Query(m, out) ==
    /\ Agree("counts", <<Len(m.cells), Len(m.rtms), Len(m.lats), Len(m.asys)>>, out.n)
    /\ GridAgree("core", m.core, out.core)
    /\ \A i \in 1..Len(m.rtms) : GridAgree("rtm", m.rtms[i], out.rtms[i]) /\ Agree("rtm extents", GridExt(m.rtms[i]), out.rtms[i].e)
    /\ \A i \in 1..Len(m.lats) : Agree("lattice size", m.lats[i].n, out.lats[i].n) /\ Agree("lattice children", m.lats[i].ch, out.lats[i].ch)
    /\ \A i \in 1..Len(m.asys) : LET a == m.asys[i] IN
          /\ Agree("assembly size", <<Len(a.ch), 1>>, out.asys[i].n) /\ Agree("assembly children", a.ch, out.asys[i].ch)
          /\ Agree("slice heights", [k \in 1..Len(a.ch) |-> a.z[k + 1] - a.z[k]], out.asys[i].z)
    /\ \A c \in 1..Len(m.cells) : CellOk(m, c, out.cells[c])
    /\ Agree("cell heights", CellHeights(m), out.hc)
    /\ Agree("rtm heights", RtmHeights(m), out.hr)
    /\ Agree("lattice heights", LatHeights(m), out.hl)
    /\ Agree("sizes", 1, out.sizes) /\ Agree("nothing written behind the results", 1, out.guards)
Conform(s, o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ CASE o.k = "cq" -> Query(s.h[o.h].m, out)
         [] o.k = "cpt" -> LET m == s.h[o.h].m IN
               IF Between(m, o.c, o.p) THEN TRUE
               ELSE LET S == Within(m, o.c, o.p) IN
                    IF S = {} THEN Holds("no face", out.f < 0, out) ELSE Agree("face containing", (CHOOSE i \in S : TRUE) - 1, out.f)
         [] o.k = "cray" -> LET m == s.h[o.h].m IN
               IF Generic(m, o) THEN AgreeSeqNear("crossings", Crossings(m, o), out.r, 2) ELSE IsSortedSeq(out.r)
         [] OTHER -> TRUE
TInit == l = 1 /\ st = CInit
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = CInit
            ELSE CPre(st, e.op) = TRUE /\ Conform(st, e.op, e.out) = TRUE /\ st' = CApply(st, e.op)
TSpec == TInit /\ [][TNext]_<<l, st>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
