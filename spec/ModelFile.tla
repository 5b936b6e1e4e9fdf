----------------------------- MODULE ModelFile -----------------------------
(* Writing a model to a file and reading it into a new model.  The model read must be
   equivalent: same parts under the same ids; meshes may be listed once per cell. *)
EXTENDS Model
OutMeshes(out, t) == CASE t = 3 -> out.m3 [] t = 4 -> out.m4 [] t = 6 -> out.m6 [] t = 8 -> out.m8 [] OTHER -> <<>>
CellAgree(st, out, i) ==
    LET c == st.cells[i] d == out.cells[i] IN
    /\ Agree("cell kind", c.t, d.t)
    /\ Agree("cell extents", c.e, d.e)
    /\ Agree("cell materials", c.ms, d.ms)
    /\ Holds("mesh id", d.m >= 0 /\ d.m < Len(OutMeshes(out, d.t)), d)
    /\ LET m == Meshes(st, c.t)[c.m + 1] n == OutMeshes(out, d.t)[d.m + 1] IN
       /\ Agree("cell mesh faces", m.nf, n.nf)
       /\ m.tracked => Agree("cell mesh vertex list", m.v, n.v) /\ Agree("cell mesh face list", m.f, n.f)
FileAgree(st, out) ==
    /\ Agree("materials", st.mats, out.mats)
    /\ Agree("number of cells", Len(st.cells), Len(out.cells))
    /\ \A i \in 1..Len(st.cells) : CellAgree(st, out, i)
    /\ Agree("rtms", st.rtms, out.rtms)
    /\ Agree("lattices", st.lats, out.lats)
    /\ Agree("assemblies", st.asys, out.asys)
    /\ Agree("core", st.core, out.core)
    /\ Agree("totals", Totals(st), out.tot)
(* every part occurs in the core *)
Used(st) ==
    LET A == Range(st.core.ch)
        L == UNION {Range(st.asys[a + 1].ch) : a \in A}
        R == UNION {Range(st.lats[x + 1].ch) : x \in L}
        C == UNION {Range(st.rtms[r + 1].ch) : r \in R}
    IN /\ A = 0..(Len(st.asys) - 1) /\ L = 0..(Len(st.lats) - 1)
       /\ R = 0..(Len(st.rtms) - 1) /\ C = 0..(Len(st.cells) - 1)
=============================================================================
