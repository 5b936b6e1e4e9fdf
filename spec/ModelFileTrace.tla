--------------------------- MODULE ModelFileTrace ---------------------------
EXTENDS ModelFile, ModelTrace
FNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.op.k = "reset" THEN st' = MInit /\ fp' = <<>>
            ELSE IF e.op.k = "wr"
                 THEN /\ st.core.ch # <<>> /\ (e.op.unused \/ Used(st))
                      /\ Holds("no crash", ~Has(e.out, "crash"), e.out)
                      /\ FileAgree(st, e.out) /\ UNCHANGED <<st, fp>>
                 ELSE Pre(st, e.op) /\ st' = Apply(st, e.op) /\ Conform(e.op, e.out) /\ fp' = e.out.fp
FSpec == TInit /\ [][FNext]_<<l, st, fp>>
=============================================================================
