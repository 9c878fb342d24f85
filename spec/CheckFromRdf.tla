---------------------------- MODULE CheckFromRdf -----------------------------
(* Conformance of the conversion from RDF.                                     *)
EXTENDS FromRdf, CheckRdf

CheckFromRdfEvent(e) ==
  LET Q == Range(e.quads) IN
  IF e.res[1] # "ok" THEN (IF EBool(e, "badJson", FALSE) /\ e.res[1] = "err" THEN <<>> ELSE <<"failed">>)
  ELSE LET x == Norm(e.res[2])[2] IN
    IF EBool(e, "badJson", FALSE) THEN <<"invalid JSON accepted">>
    ELSE IF ~WellFormedDoc(x) THEN <<"not an expanded document">>
    ELSE IF ~SameDataset(Kept(Q), ToRdf(OAll, x)) THEN <<"document">>
    ELSE IF ListItems(JArr(x)) # Cardinality(CellsOf(Q)) THEN <<"lists">>
    ELSE IF e.rdf[1] # "ok" \/ ~SameDataset(Kept(Q), Quads(e.rdf)) THEN <<"dataset">>
    ELSE <<>>
ExpectedFromRdf(e) == JArr(FromRdfDoc(Range(e.quads)))
=============================================================================
