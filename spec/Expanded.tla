------------------------------ MODULE Expanded ------------------------------
(* Reading expanded documents from JSON, without the expansion algorithm, and *)
(* writing them back.                                                         *)
EXTENDS Compare

\* what any reader must accept: the expanded form, with values that can be
RECURSIVE Readable_(_, _)
Readable_(v, k) ==
  CASE k = "@value" -> TRUE
    [] IsArr(v) -> \A x \in Range(v[2]) : Readable_(x, "")
    [] IsObj(v) ->
         /\ HasF(v[2], "@value") /\ HasF(v[2], "@type") => v[2]["@type"] = JStr("@json") \/ IsIri(v[2]["@type"][2])
         /\ HasF(v[2], "@value") /\ HasF(v[2], "@direction") => v[2]["@direction"] \in {JStr("ltr"), JStr("rtl")} /\ IsStr(v[2]["@value"])
         /\ \A x \in DOMAIN v[2] : Readable_(v[2][x], x)
    [] OTHER -> TRUE
Readable(s) == WellFormedDoc(s) /\ Readable_(JArr(s), "")
\* what is written back: the same, but that an empty list of types says nothing
RECURSIVE Typed_(_, _)
Typed_(v, k) ==
  CASE k = "@value" -> v
    [] IsArr(v) -> JArr(MapSeq(LAMBDA x : Typed_(x, ""), v[2]))
    [] IsObj(v) -> LET ks == {x \in DOMAIN v[2] : ~(x = "@type" /\ v[2][x] = JArr(<<>>))} IN <<"o", [x \in ks |-> Typed_(v[2][x], x)]>>
    [] OTHER -> v
SameJson(a, b) == CanonDoc(Typed_(JArr(a), "@doc")[2]) = CanonDoc(Typed_(JArr(b), "@doc")[2])
\* duplicate keys, but not those of JSON literals
RECURSIVE DupEntries(_, _)
DupEntries(v, k) ==
  CASE k = "@value" -> FALSE
    [] IsArr(v) -> \E x \in Range(v[2]) : DupEntries(x, "")
    [] IsObj(v) -> DupKeys(v) \/ \E p \in Range(v[2]) : DupEntries(p[2], p[1])
    [] OTHER -> FALSE

\* read: the document read from JSON; rt: the expansion of the document, written and read back
CheckExpandedEvent(e) ==
  IF e.read[1] = "panic" \/ (EHas(e, "rt") /\ e.rt[1] = "panic") THEN <<"panic">>
  ELSE IF e.read[1] = "err" /\ IsArr(e.doc) /\ ~DupEntries(e.doc, "") /\ Readable(ObsDoc(e.doc)) THEN <<"refused">>
  ELSE IF e.read[1] = "ok" /\ ~(IsArr(e.doc) /\ (DupEntries(e.doc, "") \/ SameJson(ObsDoc(e.read[2]), ObsDoc(e.doc)))) THEN <<"read">>
  ELSE IF EHas(e, "rt") /\ ~(e.rt[1] = "ok" /\ e.rt[3] = "true" /\ SameJson(ObsDoc(e.rt[2]), ObsDoc(e.expand[2]))) THEN <<"written and read back">>
  ELSE <<>>
ExpectedExpanded(e) == <<IsArr(e.doc) /\ ~DupEntries(e.doc, "") /\ Readable(ObsDoc(e.doc))>>
=============================================================================
