----------------------------- MODULE MeshDocMC -----------------------------
(* All small documents, built section by section; each is emitted for replay. *)
EXTENDS MeshDoc
CONSTANTS MaxElem, MaxSet
VARIABLES doc
Nodes == <<<<0, 0, 0>>, <<16, 0, 0>>, <<16, 16, 0>>, <<0, 16, 0>>, <<8, -1, 0>>, <<17, 8, 0>>, <<8, 16, 0>>, <<0, 8, 0>>>>
Row(t, b) == CASE t = 3 -> <<b + 0, b + 1, b + 3>> [] t = 4 -> <<b + 0, b + 1, b + 2, b + 3>>
               [] t = 6 -> <<b + 3, b + 1, b + 2, b + 5, b + 6, b + 7>>
               [] t = 8 -> <<b + 0, b + 1, b + 2, b + 3, b + 4, b + 5, b + 6, b + 7>>
Kinds == {3, 4, 6, 8}
NElem(d) == IF d.kind = "abq" THEN SumSeq(MapSeq(LAMBDA b : Len(b.rows), d.blocks)) ELSE Len(d.cells)
Init == doc \in {[kind |-> "abq", nodes |-> Nodes, blocks |-> <<>>, sets |-> <<>>],
                 [kind |-> "vtk", nodes |-> Nodes, cells |-> <<>>, data |-> <<>>]}
Split(s) == {<<s>>} \cup (IF Len(s) > 1 THEN {<<SubSeq(s, 1, Len(s) - 1), SubSeq(s, Len(s), Len(s))>>} ELSE {})
AbqNext ==
    /\ doc.kind = "abq"
    /\ \/ /\ doc.sets = <<>> /\ NElem(doc) < MaxElem
          /\ \E t \in Kinds :
               doc' = IF doc.blocks # <<>> /\ Last(doc.blocks).t = t
                      THEN [doc EXCEPT !.blocks = [@ EXCEPT ![Len(@)].rows = Append(@, Row(t, 1))]]
                      ELSE [doc EXCEPT !.blocks = Append(@, [t |-> t, rows |-> <<Row(t, 1)>>])]
       \/ /\ NElem(doc) > 0 /\ Len(doc.sets) < MaxSet
          /\ \E n \in {"b", "aB"} \ {doc.sets[i].n : i \in 1..Len(doc.sets)}, S \in SUBSET (1..NElem(doc)) :
               /\ S # {}
               /\ \E r \in Split(SetToSortSeq(S, <)) : doc' = [doc EXCEPT !.sets = Append(@, [n |-> n, rows |-> r])]
VtkNext ==
    /\ doc.kind = "vtk"
    /\ \/ /\ doc.data = <<>> /\ NElem(doc) < MaxElem
          /\ \E t \in Kinds : doc' = [doc EXCEPT !.cells = Append(@, Row(t, 0))]
       \/ /\ NElem(doc) > 0 /\ Len(doc.data) < MaxSet
          /\ \E n \in {"b", "aB"} \ {doc.data[i].n : i \in 1..Len(doc.data)}, d \in {[i \in 1..NElem(doc) |-> i * 4], [i \in 1..NElem(doc) |-> 3 - i]} :
               doc' = [doc EXCEPT !.data = Append(@, [n |-> n, d |-> d])]
Next == AbqNext \/ VtkNext
Spec == Init /\ [][Next]_doc
Inv == WellFormed(DocSoup(doc)) /\ SortedNames(DocSoup(doc))
Emit == NElem(doc) = 0 \/ PrintT("BEHAVIOUR " \o ToJson(doc))
=============================================================================
