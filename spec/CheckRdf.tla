------------------------------ MODULE CheckRdf ------------------------------
(* Conformance of the conversion to RDF and of flattening.  The expanded       *)
(* document is the one the code produced (its correctness is checked by         *)
(* CheckExpand).                                                                *)
EXTENDS Rdf, CheckExpand

ROpts(e) == [dir |-> EStr(e, "rdfDirection", ""), gen |-> EBool(e, "generalized", FALSE)]
Quads(res) == Range(res[2])
Expanded(e) == Norm(e.expanded[2])[2]

\* which error is found first may depend on the order of evaluation
RdfErr(e, res) == res = e.expanded \/ (res[1] = "err" /\ LET r == ExpandEvent(e) IN res[2] \in r.e \cup r.alt)
CheckRdfEvent(e) ==
  IF e.expanded[1] # "ok" THEN (IF RdfErr(e, e.res) THEN <<>> ELSE <<"error">>)
  ELSE IF e.res[1] # "ok" THEN <<"failed">>
  ELSE IF SameDataset(ToRdf(ROpts(e), Expanded(e)), Quads(e.res)) THEN <<>> ELSE <<"dataset">>
ExpectedRdf(e) == IF e.expanded[1] # "ok" THEN e.expanded ELSE ToRdf(ROpts(e), Expanded(e))

CheckFlattenEvent(e) ==
  IF e.expanded[1] # "ok" THEN (IF RdfErr(e, e.res) THEN <<>> ELSE <<"error">>)
  ELSE LET x == Expanded(e) IN
    IF IndexConflict(x) THEN (IF e.res = <<"err", "conflicting indexes">> THEN <<>> ELSE <<"conflict">>)
    ELSE IF e.res[1] # "ok" THEN <<"failed">>
    ELSE LET f == Norm(e.res[2])[2] IN
      IF ~IsFlat(f) THEN <<"not flat">>
      ELSE IF ~Iso(NodeMap(x), NodeMap(f)) THEN <<"node map">>
      ELSE IF ~EHas(e, "rdf0") THEN <<>>
      ELSE IF e.rdf0[1] # "ok" \/ e.rdf1[1] # "ok" THEN <<"rdf failed">>
      ELSE IF ~SameDataset(FoldQuads(Quads(e.rdf0)), FoldQuads(Quads(e.rdf1))) THEN <<"flattened dataset">>
      ELSE IF ~SameDataset(FoldQuads(ToRdf(ROpts(e), x)), FoldQuads(Quads(e.rdf1))) THEN <<"dataset">>
      ELSE <<>>
ExpectedFlatten(e) == IF e.expanded[1] # "ok" THEN e.expanded ELSE NodeMap(Expanded(e))
=============================================================================
