------------------------------- MODULE MCRdf --------------------------------
(* The documents of MCDoc, converted to RDF and flattened.                     *)
EXTENDS MCDoc, Rdf

DItems == LET r == Expansion IN IF r.e = {} THEN r.v ELSE <<>>
O0 == [dir |-> "", gen |-> FALSE]
OGen == [dir |-> "", gen |-> TRUE]
OCl == [dir |-> "compound-literal", gen |-> FALSE]
OI18n == [dir |-> "i18n-datatype", gen |-> FALSE]

\* a document that does not use the list vocabulary itself
RECURSIVE NamesLists(_)
NamesLists(v) == \/ IsObj(v) /\ \E p \in Range(v[2]) : StartsWith(p[1], RdfNs) \/ NamesLists(p[2])
                 \/ IsArr(v) /\ \E x \in Range(v[2]) : NamesLists(x)

InvLists == NamesLists(vDoc) \/ ListsOk(ToRdf(O0, DItems))
\* every quad is made of terms that may be there
InvQuads == \A q \in ToRdf(OGen, DItems) :
  /\ q[1][1] \in {"iri", "bnode"} /\ q[2][1] \in {"iri", "bnode"} /\ Valid(q[3])
  /\ q[4] = DefaultG \/ q[4][1] \in {"iri", "bnode"}
\* options
InvGeneralized == ToRdf(O0, DItems) \subseteq ToRdf(OGen, DItems)
                  /\ \A q \in ToRdf(OGen, DItems) \ ToRdf(O0, DItems) :
                       NamesLists(vDoc) \/ q[2][1] = "bnode" \/ q[1] # RdfIri("type")
\* a compound literal takes the place of exactly one literal
InvDirection == LET n(o) == Cardinality(Collapse(ToRdf(o, DItems))) IN n(OI18n) <= n(OCl) /\ n(O0) <= n(OI18n)
\* flattening merges and invents nothing
InvFlat == LET f == FlatDoc(DItems) IN IndexConflict(DItems) \/ (IsFlat(Filter(f, LAMBDA x : DOMAIN x[2] # {"@id"})) /\ Iso(NodeMap(DItems), NodeMap(f)))
InvFlatDataset == LET f == FlatDoc(DItems) IN \A o \in {O0, OCl} : SameDataset(FoldQuads(ToRdf(o, DItems)), FoldQuads(ToRdf(o, f)))
\* and flattening again changes nothing
InvFlatAgain == LET f == FlatDoc(DItems) IN Iso(NodeMap(f), NodeMap(FlatDoc(f)))
=============================================================================
