------------------------------ MODULE MeshDoc ------------------------------
(* Abstract content of mesh files and the soup each of them states.
   Abaqus: 1-based ids, blocks of elements of one kind, sets spread over several lines.
   VTK: 0-based cells whose kind follows from the number of vertices, scalars per cell. *)
EXTENDS Soup
Dec(s) == MapSeq(LAMBDA x : x - 1, s)
KindOf(n) == n                                  \* 3, 4, 6 or 8 vertices
AbqSoup(d) ==
    [v |-> d.nodes,
     e |-> FlattenSeq([b \in 1..Len(d.blocks) |->
              MapSeq(LAMBDA r : [t |-> d.blocks[b].t, c |-> Dec(r)], d.blocks[b].rows)]),
     s |-> SortSets(MapSeq(LAMBDA x : [n |-> x.n, i |-> Dec(FlattenSeq(x.rows)), d |-> <<>>], d.sets))]
VtkSoup(d) ==
    [v |-> d.nodes,
     e |-> MapSeq(LAMBDA r : [t |-> KindOf(Len(r)), c |-> r], d.cells),
     s |-> SortSets(MapSeq(LAMBDA x : [n |-> x.n, i |-> Range0(Len(d.cells)), d |-> x.d], d.data))]
DocSoup(d) == IF d.kind = "abq" THEN AbqSoup(d) ELSE VtkSoup(d)
=============================================================================
