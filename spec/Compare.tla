------------------------------ MODULE Compare -------------------------------
(* Comparison of documents and normal forms of expanded documents.            *)
EXTENDS CheckExpand, Rdf

\* -- syntactic comparison -----------------------------------------------------
\* entries are unordered, and so are arrays unless the referencing key is @list
RECURSIVE Loose_(_, _)
Loose_(v, k) ==
  CASE IsObj(v) -> <<"o", [x \in JKeys(v) |-> Loose_(Get(v, x), x)]>>
    [] IsArr(v) -> LET s == MapSeq(LAMBDA x : Loose_(x, ""), v[2]) IN IF k = "@list" THEN <<"a", s>> ELSE <<"bag", Bag(s)>>
    [] OTHER -> v
LooseF == [v \in Any |-> Loose_(v, "")]
SynEq(a, b) == LooseF[a] = LooseF[b]
RECURSIVE Dups(_)
Dups(v) == \/ IsObj(v) /\ (DupKeys(v) \/ \E p \in Range(v[2]) : Dups(p[2]))
           \/ IsArr(v) /\ \E x \in Range(v[2]) : Dups(x)

\* -- edits --------------------------------------------------------------------
Others == {JStr("@@"), <<"n", "7">>, JBool(TRUE)}
SwapAt(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* one edit: <<kind, value>>; "swap" where order is free, "move" where it is not, "other" elsewhere
RECURSIVE Edits(_, _)
Edits(v, k) ==
  CASE IsArr(v) ->
         UNION {{<<x[1], JArr([v[2] EXCEPT ![i] = x[2]])>> : x \in Edits(v[2][i], "")} : i \in 1..Len(v[2])}
         \cup {<<IF k = "@list" THEN "move" ELSE "swap", JArr(SwapAt(v[2], i))>> : i \in {j \in 1..(Len(v[2]) - 1) : ~SynEq(v[2][j], v[2][j + 1])}}
         \cup {<<"other", JArr(DropAt(v[2], i))>> : i \in 1..Len(v[2])}
    [] IsObj(v) ->
         UNION {{<<x[1], JObj([v[2] EXCEPT ![i] = <<v[2][i][1], x[2]>>])>> : x \in Edits(v[2][i][2], v[2][i][1])} : i \in 1..Len(v[2])}
         \cup {<<"swap", JObj(SwapAt(v[2], i))>> : i \in 1..(Len(v[2]) - 1)}
         \cup {<<"other", JObj(DropAt(v[2], i))>> : i \in 1..Len(v[2])}
    [] OTHER -> {<<"other", x>> : x \in Others \ {v}}

\* documents are equal when they look the same and mean the same: [syn, e, eq]
DocEq(X, ctx, a, b) ==
  IF ~SynEq(a, b) THEN [syn |-> FALSE, e |-> {}, alt |-> {}, eq |-> FALSE]
  ELSE LET ra == ExpandDoc(X, ctx, a) rb == ExpandDoc(X, ctx, b) IN
    [syn |-> TRUE, e |-> ra.e \cup rb.e, alt |-> ra.alt \cup rb.alt,
     eq |-> ra.e = {} /\ rb.e = {} /\ CanonDoc(ra.v) = CanonDoc(rb.v)]

\* -- canonical form -----------------------------------------------------------
\* numbers in the form of ECMAScript, in literals and all over JSON literals; objects are functions
RECURSIVE CanonJson(_)
CanonJson(v) ==
  CASE IsNum(v) -> <<"n", JsForm(NumF[v[2]])>>
    [] IsArr(v) -> JArr(MapSeq(CanonJson, v[2]))
    [] IsObj(v) -> <<"o", Eager([k \in DOMAIN v[2] |-> CanonJson(v[2][k])])>>
    [] OTHER -> v
RECURSIVE CanonLits(_)
CanonLits(v) ==
  CASE IsArr(v) -> JArr(MapSeq(CanonLits, v[2]))
    [] IsObj(v) -> <<"o", Eager([k \in DOMAIN v[2] |-> IF k = "@value" THEN CanonJson(v[2][k]) ELSE CanonLits(v[2][k])])>>
    [] OTHER -> v
\* items that become equal may be merged where a set is kept
RECURSIVE Sets(_, _)
Sets(v, k) ==
  CASE k = "@value" -> <<"val", v>>
    [] IsObj(v) -> <<"o", [x \in DOMAIN v[2] |-> Sets(v[2][x], x)]>>
    [] IsArr(v) -> LET s == MapSeq(LAMBDA x : Sets(x, ""), v[2]) IN
                   IF k = "@list" THEN <<"list", s>> ELSE IF k \in {"@graph", "@included", "@doc"} THEN <<"set", Range(s)>> ELSE <<"bag", Bag(s)>>
    [] OTHER -> v
\* the keys of the objects of canonical JSON literals are sorted (not normalized: entries in order)
RECURSIVE KeysSorted(_, _)
KeysSorted(v, json) ==
  CASE IsArr(v) -> \A x \in Range(v[2]) : KeysSorted(x, json)
    [] IsObj(v) -> /\ json => \A i \in 1..(Len(v[2]) - 1) : StrLt(v[2][i][1], v[2][i + 1][1])
                   /\ LET j == json \/ (Has(v, "@value") /\ Has(v, "@type") /\ Get(v, "@type") = JStr("@json")) IN
                      \A p \in Range(v[2]) : p[1] = "@context" \/ KeysSorted(p[2], IF json THEN TRUE ELSE j /\ p[1] = "@value")
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Conformance: syn, ab, ba, aa, xa, xb, xeq, canon                            *)
BoolRes(res, b) == res = <<"ok", IF b THEN "true" ELSE "false">>
\* the order of entries within JSON literals is not ours to judge
RECURSIVE HasJsonObj(_, _)
HasJsonObj(v, json) ==
  CASE IsArr(v) -> \E x \in Range(v[2]) : HasJsonObj(x, json)
    [] IsObj(v) -> json \/ (\E k \in DOMAIN v[2] : HasJsonObj(v[2][k], k = "@value"))
    [] OTHER -> FALSE
CompareResOk(res, d, open) ==
  CASE res[1] = "err" -> res[2] \in d.e \cup d.alt
    [] res[1] = "ok" -> d.e = {} /\ (BoolRes(res, d.eq) \/ (open /\ d.eq /\ BoolRes(res, FALSE)))
    [] OTHER -> FALSE
CheckCompareEvent(e) ==
  LET s == StartCtx(e) X == [o |-> EOpts(e), burl |-> BurlOf(e)]
      both == e.xa[1] = "ok" /\ e.xb[1] = "ok"
      open == both /\ e.a # e.b /\ HasJsonObj(<<"a", ObsDoc(e.xa[2])>>, FALSE)
      StartBad == [syn |-> TRUE, e |-> s.e, alt |-> s.alt, eq |-> FALSE]
      D(a, b) == IF s.e # {} THEN (IF SynEq(a, b) THEN StartBad ELSE [syn |-> FALSE, e |-> {}, alt |-> {}, eq |-> FALSE])
                 ELSE LET d == DocEq(X, s.ctx, a, b) IN IF d.syn THEN [d EXCEPT !.alt = @ \cup s.alt] ELSE d
      ab == D(e.a, e.b) aa == D(e.a, e.a)
      dup == Dups(e.a) \/ Dups(e.b)
  IN
  IF {e.syn[1], e.ab[1], e.ba[1], e.aa[1], e.xeq[1], e.canon[1]} \cap {"panic"} # {} THEN <<"panic">>
  ELSE IF dup THEN (IF e.ab[1] = "ok" /\ e.ba[1] = "ok" /\ e.ab # e.ba THEN <<"symmetry">> ELSE <<>>)
  ELSE IF ~BoolRes(e.syn, SynEq(e.a, e.b)) THEN <<"syntactic comparison">>
  ELSE IF ~CompareResOk(e.ab, ab, open) THEN <<"comparison">>
  ELSE IF ~CompareResOk(e.ba, ab, open) \/ (e.ab[1] = "ok" /\ e.ab # e.ba) THEN <<"symmetry">>
  ELSE IF ~CompareResOk(e.aa, aa, FALSE) THEN <<"reflexivity">>
  ELSE IF both /\ ~(LET w == CanonDoc(ObsDoc(e.xa[2])) = CanonDoc(ObsDoc(e.xb[2])) IN BoolRes(e.xeq, w) \/ (open /\ w /\ BoolRes(e.xeq, FALSE)))
       THEN <<"equality of expanded documents">>
  ELSE IF e.xa[1] = "ok" /\ ~(e.canon[1] = "ok" /\ KeysSorted(e.canon[2], FALSE)
            /\ Sets(<<"a", ObsDoc(e.canon[2])>>, "@doc") = Sets(CanonLits(<<"a", ObsDoc(e.xa[2])>>), "@doc")) THEN <<"canonical form">>
  ELSE <<>>
ExpectedCompare(e) ==
  LET s == StartCtx(e) X == [o |-> EOpts(e), burl |-> BurlOf(e)] IN
  <<SynEq(e.a, e.b), IF s.e # {} THEN <<s.e>> ELSE <<DocEq(X, s.ctx, e.a, e.b)>>, IF e.xa[1] = "ok" THEN CanonLits(<<"a", ObsDoc(e.xa[2])>>) ELSE <<>> >>
=============================================================================
