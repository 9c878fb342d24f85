------------------------------ MODULE MCFromRdf ------------------------------
(* Datasets around list chains: a chain in a graph, then quads added and       *)
(* removed.                                                                    *)
EXTENDS FromRdf, Json, IOUtils
CONSTANTS Depth, Emit, Size

A == <<"iri", "http://v/a">>
P == <<"iri", "http://v/p">>
G == <<"iri", "http://v/g">>
B == <<"bnode", "_:b">>
Cell(i) == <<"bnode", "_:c" \o ToString(i)>>
X == XString("x")
Y == <<"lit", "y", "@", "en">>

\* a list of n cells in graph g, whose items are taken from `items`
Chain(n, g, items) ==
  IF n = 0 THEN { <<A, P, Nil, g>> }
  ELSE { <<A, P, Cell(1), g>> }
       \cup {<<Cell(i), First, items[i], g>> : i \in 1..n}
       \cup {<<Cell(i), Rest, IF i = n THEN Nil ELSE Cell(i + 1), g>> : i \in 1..n}
Start == {Chain(n, g, it) : n \in 0..3, g \in {DefaultG, G}, it \in { <<X, Y, A>>, <<A, B, X>>, <<X, Nil, X>> }}
         \* a list within a list
         \cup {Chain(1, g, <<B>>) \cup {<<B, First, X, g>>, <<B, Rest, Nil, g>>} : g \in {DefaultG, G}}
         \* lists that contain each other
         \cup { {<<Cell(1), First, Cell(2), DefaultG>>, <<Cell(1), Rest, Nil, DefaultG>>,
                 <<Cell(2), First, Cell(1), DefaultG>>, <<Cell(2), Rest, Nil, DefaultG>>},
                {<<Cell(1), First, X, DefaultG>>, <<Cell(1), Rest, Cell(2), DefaultG>>,
                 <<Cell(2), First, X, DefaultG>>, <<Cell(2), Rest, Cell(1), DefaultG>>},
                {<<A, P, B, DefaultG>>, <<B, P, A, DefaultG>>} }
Nodes == IF Size = "small" THEN {Cell(1), Cell(2), A} ELSE {Cell(1), Cell(2), Cell(3), A, B}
Pool == {<<s, p, o, g>> : s \in Nodes,
                          p \in IF Size = "small" THEN {P, First, Rest, TypeP} ELSE {P, First, Rest, TypeP, B},
                          o \in Nodes \cup {Nil, ListType, X},
                          g \in IF Size = "small" THEN {DefaultG, G} ELSE {DefaultG, G, Cell(1)}}

VARIABLES vQuads, vSteps
vars == <<vQuads, vSteps>>
Init == vQuads \in Start /\ vSteps = 0
Next == /\ vSteps < Depth
        /\ \/ \E q \in Pool : q \notin vQuads /\ vQuads' = vQuads \cup {q}
           \/ \E q \in vQuads : vQuads' = vQuads \ {q}
        /\ vSteps' = vSteps + 1
Spec == Init /\ [][Next]_vars
View == vQuads

Printed == IF Emit = "yes" THEN PrintT(ToJson(<<SetSeq(vQuads)>>)) ELSE TRUE
\* the document has the same dataset, and every list that can be written as one
InvDocument == DocOf(vQuads, FromRdfDoc(vQuads))
\* a cell that becomes a list item is of no other use
InvCells == LET C == CellsOf(vQuads) IN \A q \in vQuads :
  /\ q[1] \in C => q[2] \in {First, Rest, TypeP}
  /\ q[3] \in C => Cardinality({x \in vQuads : x[3] = q[3]}) = 1
  /\ q[4] \notin C /\ q[2] \notin C
\* a dataset made by converting a document is converted back without leaving a cell
InvBack == LET Q == Kept(vQuads) D == ToRdf(OAll, FromRdfDoc(Q)) IN
  Cardinality(CellsOf(D)) = Cardinality(CellsOf(Q)) /\ SameDataset(D, ToRdf(OAll, FromRdfDoc(D)))
=============================================================================
