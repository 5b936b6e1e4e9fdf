----------------------------- MODULE ModelTrace -----------------------------
EXTENDS Model
VARIABLES l, st, fp
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 1 /\ st = MInit /\ fp = <<>>
MeshAgree(name, exp, act) ==
    /\ Agree(name \o " count", Len(exp), Len(act))
    /\ \A i \in 1..Len(exp) :
          /\ Agree(name \o " faces", exp[i].nf, act[i].nf)
          /\ exp[i].tracked =>
                /\ Agree(name \o " vertices", exp[i].nv, act[i].nv)
                /\ exp[i].nv <= 40 => Agree(name \o " vertex list", exp[i].v, act[i].v)
                                      /\ Agree(name \o " face list", exp[i].f, act[i].f)
StateAgree(s, out) ==
    /\ Agree("materials", s.mats, out.mats)
    /\ MeshAgree("tri", s.m3, out.m3) /\ MeshAgree("quad", s.m4, out.m4)
    /\ MeshAgree("tri6", s.m6, out.m6) /\ MeshAgree("quad8", s.m8, out.m8)
    /\ Agree("cells", s.cells, out.cells)
    /\ Agree("rtms", s.rtms, out.rtms)
    /\ Agree("lattices", s.lats, out.lats)
    /\ Agree("assemblies", s.asys, out.asys)
    /\ Agree("core", s.core, out.core)
    /\ Agree("counts", <<Len(s.asys), Len(s.lats), Len(s.rtms), Len(s.cells)>>, out.cnt)
    /\ Agree("totals", Totals(s), out.tot)
Conform(o, out) ==
    /\ Holds("no crash", ~Has(out, "crash"), out)
    /\ ~Has(out, "crash")
    /\ Agree("index", Ret(st, o), out.ret)
    /\ StateAgree(st', out)
    /\ (st' = st => Agree("contents after a call without effect", fp, out.fp))
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = MInit /\ fp' = <<>>
            ELSE Pre(st, e.op) /\ st' = Apply(st, e.op) /\ Conform(e.op, e.out) /\ fp' = e.out.fp
TSpec == TInit /\ [][TNext]_<<l, st, fp>>
Done == PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
