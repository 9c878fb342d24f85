----------------------------- MODULE MCVariants -----------------------------
(* The documents of the document machine, with their context embedded, given   *)
(* as an option, or linked: the specification does not tell them apart.        *)
EXTENDS MCDoc, CheckVariants

VLink == "http://ctx.example/outer"
VEvent == [doc |-> vDoc, outer |-> Universe.ctx, outerUrl |-> VLink, url |-> DBase, mode |-> Universe.mode,
           remote |-> (IF EHas(Universe, "remote") THEN Universe.remote ELSE <<>>) \o << <<VLink, JObj(<< <<"@context", Universe.ctx>> >>), VLink>> >>]
VResult(how) == LET r == ExpandEvent(VForm(VEvent, how)) IN IF r.e = {} THEN <<"ok", CanonDoc(r.v)>> ELSE <<"err">>
InvForms == IsObj(vDoc) /\ ~Has(vDoc, "@context") =>
  /\ VResult("option") = VResult("embedded")
  /\ VResult("option") = VResult("link")
=============================================================================
