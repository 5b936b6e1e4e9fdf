-------------------------- MODULE ModelExportTrace --------------------------
EXTENDS ModelExport, ModelTrace
XConform(o, out) == Conform(o, out) /\ (o.k = "export" => SoupAgree(st, out.soup))
XNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = MInit /\ fp' = <<>>
            ELSE Pre(st, e.op) /\ st' = Apply(st, e.op) /\ XConform(e.op, e.out) /\ fp' = e.out.fp
XSpec == TInit /\ [][XNext]_<<l, st, fp>>
=============================================================================
