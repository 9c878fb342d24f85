------------------------------- MODULE FromRdf -------------------------------
(* From RDF datasets to expanded documents.  The chains of blank nodes that    *)
(* only serve as list cells become @list objects, everything else is kept as   *)
(* it is.                                                                      *)
EXTENDS Rdf

First == RdfIri("first")
Rest == RdfIri("rest")
Nil == RdfIri("nil")
TypeP == RdfIri("type")
ListType == RdfIri("List")

-----------------------------------------------------------------------------
(* Lists                                                                      *)
\* a blank node with one item and one rest, in one graph only, that is mentioned once
IsCell(Q, b) ==
  LET S == {q \in Q : q[1] = b}
      uses == {q \in Q : q[3] = b}
  IN /\ b[1] = "bnode"
     /\ Cardinality({q \in S : q[2] = First}) = 1
     /\ Cardinality({q \in S : q[2] = Rest}) = 1
     /\ \A q \in S : q[2] \in {First, Rest} \/ (q[2] = TypeP /\ q[3] = ListType)
     /\ Cardinality(uses) = 1
     /\ \A u \in uses : u[1] # b /\ u[2] # TypeP /\ \A q \in S : q[4] = u[4]
     /\ \A q \in Q : q[2] # b /\ q[4] # b
ItemOf(Q, b) == (CHOOSE q \in Q : q[1] = b /\ q[2] = First)[3]
NextOf(Q, b) == (CHOOSE q \in Q : q[1] = b /\ q[2] = Rest)[3]
ParentOf(Q, b) == (CHOOSE q \in Q : q[3] = b)[1]
Subjects(Q) == {q[1] : q \in Q}
AllCells(Q) == {b \in Subjects(Q) : IsCell(Q, b)}
\* the chain from b reaches nil in at most n steps
RECURSIVE Ends(_, _, _, _)
Ends(Q, C, b, n) == LET r == NextOf(Q, b) IN r = Nil \/ (n > 0 /\ r \in C /\ Ends(Q, C, r, n - 1))
\* what mentions b is no cell itself, at last
RECURSIVE Rooted(_, _, _, _)
Rooted(Q, C, b, n) == LET p == ParentOf(Q, b) IN p \notin C \/ (n > 0 /\ Rooted(Q, C, p, n - 1))
CellsOf_(Q) ==
  LET C == AllCells(Q)
      E == {b \in C : Ends(Q, C, b, Cardinality(C))}
  IN {b \in E : Rooted(Q, E, b, Cardinality(E))}
CellsF == [q \in Any |-> CellsOf_(q)]
CellsOf(Q) == CellsF[Q]
\* the type of list cells is not kept
Kept(Q) == LET C == CellsOf(Q) IN {q \in Q : ~(q[1] \in C /\ q[2] = TypeP)}

-----------------------------------------------------------------------------
(* The document of a dataset, with one node per subject and graph             *)
TermValue(t) ==
  IF t[1] # "lit" THEN FObj("@id" :> TermId(t))
  ELSE FObj(("@value" :> JStr(t[2]))
       @@ (IF t[3] = XsdNs \o "string" THEN <<>> ELSE IF t[3] = "@" THEN "@language" :> JStr(t[4]) ELSE "@type" :> JStr(t[3])))
RECURSIVE ObjectDoc(_, _, _)
RECURSIVE ItemsFrom(_, _, _)
ItemsFrom(Q, C, b) == IF b = Nil THEN <<>> ELSE <<ObjectDoc(Q, C, ItemOf(Q, b))>> \o ItemsFrom(Q, C, NextOf(Q, b))
ObjectDoc(Q, C, t) == IF t \in C THEN FObj("@list" :> JArr(ItemsFrom(Q, C, t))) ELSE TermValue(t)
GraphNodes(Q, C, g, more(_)) ==
  LET G == {q \in Q : q[4] = g /\ q[1] \notin C}
      ids == Subjects(G) \cup (IF g = DefaultG THEN {q[4] : q \in Q} \ {DefaultG} ELSE {})
      NodeOf(s) ==
        LET S == {q \in G : q[1] = s}
            types == {q[3] : q \in {x \in S : x[2] = TypeP /\ x[3][1] # "lit"}}
            rest == {q \in S : q[2] # TypeP \/ q[3][1] = "lit"}
        IN FObj(("@id" :> TermId(s)) @@ more(s)
             @@ (IF types = {} THEN <<>> ELSE "@type" :> JArr(MapSeq(TermId, SetSeq(types))))
             @@ Eager([p \in {TermId(q[2])[2] : q \in rest} |->
                        JArr(MapSeq(LAMBDA t : ObjectDoc(Q, C, t), SetSeq({q[3] : q \in {x \in rest : TermId(x[2])[2] = p}})))]))
  IN MapSeq(NodeOf, SetSeq(ids))
NoGraph(s) == <<>>
FromRdfDoc(Q) ==
  LET C == CellsOf(Q)
      names == {q[4] : q \in Q} \ {DefaultG}
      GraphOf(s) == IF s \in names THEN "@graph" :> JArr(GraphNodes(Q, C, s, NoGraph)) ELSE <<>>
  IN GraphNodes(Q, C, DefaultG, GraphOf)

-----------------------------------------------------------------------------
(* What any document of a dataset must be                                     *)
OAll == [dir |-> "", gen |-> TRUE]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
SumOver(S, f(_)) == SumSeq(MapSeq(f, SetSeq(S)))
RECURSIVE ListItems(_)
\* how many items the lists of a document have
ListItems(x) ==
  IF IsArr(x) THEN SumOver(1..Len(x[2]), LAMBDA i : ListItems(x[2][i]))
  ELSE IF ~IsObj(x) \/ HasF(x[2], "@value") THEN 0
  ELSE (IF HasF(x[2], "@list") THEN Len(x[2]["@list"][2]) ELSE 0)
       + SumOver(DOMAIN x[2], LAMBDA k : ListItems(x[2][k]))
DocOf(Q, items) ==
  /\ WellFormedDoc(items)
  /\ SameDataset(Kept(Q), ToRdf(OAll, items))
  /\ ListItems(JArr(items)) = Cardinality(CellsOf(Q))
=============================================================================
