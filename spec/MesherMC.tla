------------------------------ MODULE MesherMC ------------------------------
(* All orders of setting sizes, meshing and starting anew on two small geometries. *)
EXTENDS Mesher
CONSTANTS Depth
VARIABLES s, hist
R(x, w, g) == [k |-> "rect", x |-> x, y |-> 0, z |-> 0, w |-> w, h |-> 1, t |-> 1, g |-> g]
Geo(i) == IF i = 1 THEN <<R(0, 2, "Material_A"), R(2, 1, "Material_B"), [k |-> "frag", a |-> <<<<0, 0, 4>>>>, b |-> <<<<2, 0, 4>>>>, hier |-> <<>>]>>
          ELSE <<R(0, 1, "Material_B")>>
M(n, t, f) == [n |-> n, t |-> <<t>>, s |-> <<t \div 2>>, f |-> f]
Kn(ms, ft) == [k |-> "kn", ms |-> ms, kn |-> 40, ft |-> ft, fs |-> 8, at |-> -8, as |-> -8]
Kns == {Kn(<<M("A", 8, TRUE), M("B", 16, FALSE)>>, -8), Kn(<<M("B", 10, FALSE), M("A", 12, FALSE)>>, -8), Kn(<<M("B", 10, FALSE)>>, -8),
        Kn(<<M("A", 8, FALSE), M("B", 16, FALSE)>>, 4)}
Sizes == {[k |-> "size", h |-> 250], [k |-> "size", h |-> 400]}
Do(ops) == s' = FoldLeft(LAMBDA t, o : MApply(t, o), s, ops) /\ hist' = hist \o ops
Init == s = InitM /\ hist = <<>>
Ready == s.g.e # <<>>
Last2(k) == hist # <<>> /\ hist[Len(hist)].k = k
(* a second mesh of the same geometry keeps the points on its curves: left open *)
Fresh == LET n == SelectLastInSeq(hist, LAMBDA o : o.k = "new") IN \A i \in n + 1..Len(hist) : hist[i].k # "mesh"
Steps == Cardinality({i \in 1..Len(hist) : hist[i].k \notin {"rect", "frag"}})
Next == /\ Steps < Depth
        /\ \/ ~Ready /\ \E i \in {1, 2} : Do(Geo(i))
           \/ Ready /\ Do(<<[k |-> "new"]>>)
           \/ (Ready /\ Fresh) = TRUE /\ \E o \in Kns : Do(<<o>>)
           \/ (Ready /\ Fresh /\ s.sz.m # "kn") = TRUE /\ \E o \in Sizes : Do(<<o>>)
           \/ (Meshable(s) /\ Fresh) = TRUE /\ Do(<<[k |-> "mesh", t |-> 3]>>)
Spec == Init /\ [][Next]_<<s, hist>>
(* a refused request leaves the size as it was; a size is only ever what was last accepted *)
Reach == /\ \A o \in Kns : KnRefused(s.g, o) => MApply(s, o) = s
         /\ (s.sz.m # "none") => \E i \in 1..Len(hist) : (IF hist[i].k = "size" THEN s.sz.m = "size" /\ s.sz.h = 100 * hist[i].h
                                                          ELSE hist[i].k = "kn" /\ s.sz.m = "kn" /\ s.sz.o = hist[i])
         /\ (Meshable(s) => \A gr \in Signatures(s.g) : Wanted(s, Fuel(s), gr, CellsOf(Ground(s.g, gr))) > 0)
Emit == (Last2("mesh") /\ Steps >= Depth - 1) => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
