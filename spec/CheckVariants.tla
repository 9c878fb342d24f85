--------------------------- MODULE CheckVariants ----------------------------
(* The entry points: the same content by value, by reference, with a           *)
(* vocabulary, step by step, with and without options.  Each must give what    *)
(* the specification gives for that content.                                   *)
EXTENDS CheckRdf, CheckCompact

\* the entry points without options see the document alone
VPlainHows == {"plain", "plain-ref", "plain-voc", "plain-document"}
VOptionKeys == {"base", "mode", "expandContext", "compactArrays", "compactToRelative", "rdfDirection", "generalized", "ordered"}
VSetE(e, k, v) == [x \in DOMAIN e \cup {k} |-> IF x = k THEN v ELSE e[x]]
VDropE(e, ks) == [x \in DOMAIN e \ ks |-> e[x]]
\* the context of a form: embedded in the document, given as an option, or linked
VForm(e, how) ==
  CASE how = "embedded" -> VSetE(VDropE(e, {"expandContext"}), "doc", JObj(<< <<"@context", e.outer>> >> \o e.doc[2]))
    [] how = "option" -> VSetE(e, "expandContext", e.outer)
    [] how = "link" -> VSetE(VDropE(e, {"expandContext"}), "contextUrl", e.outerUrl)
    [] how \in VPlainHows -> VDropE(e, VOptionKeys)
    [] OTHER -> e
VOf(e, kind, hows) == {i \in 1..Len(e.variants) : e.variants[i][1] = kind /\ e.variants[i][2] \in hows}
VRes(e, kind, how) == e.variants[CHOOSE i \in VOf(e, kind, {how}) : TRUE][3]
\* the expansion a result starts from
VExpanded(e, how) == VRes(e, "expand", IF how \in VPlainHows THEN "plain" ELSE "doc")

\* flattening labels nodes in any order: the labels of one flattening for those of another
RECURSIVE VRelabel(_, _)
VRelabel(v, m) ==
  LET R(x) == IF x \in DOMAIN m THEN m[x] ELSE x IN
  CASE IsArr(v) -> JArr(MapSeq(LAMBDA x : VRelabel(x, m), v[2]))
    [] IsObj(v) -> JObj(MapSeq(LAMBDA p : <<R(p[1]), IF p[1] = "@value" THEN p[2] ELSE VRelabel(p[2], m)>>, v[2]))
    [] IsStr(v) -> JStr(R(v[2]))
    [] OTHER -> v
VLabels(v) == {Get(x, "@id")[2] : x \in {y \in Range(v[2]) : Has(y, "@id") /\ StartsWith(Get(y, "@id")[2], "_:")}}
VBijections(S) == {m \in [S -> S] : \A x \in S : \E y \in S : m[y] = x}
\* nor does it keep the nodes of a graph in any order
RECURSIVE VLoose(_, _)
VLoose(o, x) ==
  IF IsStr(x) THEN IsStr(o) /\ StrOk(o[2], x[2])
  ELSE IF IsArr(x) THEN
    /\ IsArr(o) /\ Len(o[2]) = Len(x[2])
    /\ \A i \in 1..Len(x[2]) : VLoose(o[2][i], x[2][i]) \/ \E j \in 1..Len(x[2]) : VLoose(o[2][j], x[2][i])
    /\ \A j \in 1..Len(x[2]) : VLoose(o[2][j], x[2][j]) \/ \E i \in 1..Len(x[2]) : VLoose(o[2][j], x[2][i])
  ELSE IF IsObj(x) THEN IsObj(o) /\ Cardinality(DOMAIN o[2]) = Cardinality(DOMAIN x[2])
       /\ \A k \in DOMAIN x[2] : \E j \in DOMAIN o[2] : StrOk(j, k) /\ VLoose(o[2][j], x[2][k])
  ELSE o = x
VFlatCompact(f, res, v) ==
  LET S == VLabels(v)
      o == Norm(res[2])
      Ok(m) == LET e == VSetE(VSetE(f, "res", res), "expanded", VRelabel(v, m)) r == CompactEvent(e) IN
        IF res[1] = "err" THEN res[2] \in r.e \cup r.alt
        ELSE res[1] = "ok" /\ r.e = {} /\ (r.u \/ (KContextOk(e, o) /\ VLoose(Obj(DropF(o[2], {"@context"})), r.v)))
  IN IF Ok(<<>>) \/ Cardinality(S) > 4 \/ \E m \in VBijections(S) : Ok(m) THEN <<>> ELSE <<"compaction">>

VOne(b, e, kind, how, res, x) ==
  LET f == VDropE(VForm(b, how), {"variants", "loads", "outer"})
      bad == x[1] # "ok"
      badOk == IF RdfErr(VSetE(f, "expanded", x), res) THEN <<>> ELSE <<"error">>
  IN CASE kind = "expand" -> IF ResultOk(res, ExpandEvent(f)) THEN <<>> ELSE <<"expansion">>
       [] bad -> badOk
       [] kind = "compact" ->
            LET g == VSetE(VSetE(f, "res", res), "expanded", x[2]) IN
            CheckCompactEvent(IF how = "cref" THEN VSetE(g, "ctx", JObj(<< <<"@ref", JStr(e.ctxUrl)>> >>)) ELSE g)
       [] kind = "flatten" -> CheckFlattenEvent(VSetE(VSetE(f, "res", res), "expanded", x))
       [] kind = "flatcompact" ->
            LET fl == VRes(e, "flatten", "doc") IN
            IF fl[1] # "ok" THEN (IF res = fl THEN <<>> ELSE <<"error">>)
            ELSE VFlatCompact(f, res, fl[2])
       \* a vocabulary takes literals for equal when their language tags differ in case only
       [] kind = "rdf" /\ how \in {"voc", "plain-voc"} ->
            IF res[1] = "ok" /\ SameDataset(FoldQuads(ToRdf(ROpts(f), Norm(x[2])[2])), FoldQuads(Quads(res))) THEN <<>> ELSE <<"dataset">>
       [] kind = "rdf" -> CheckRdfEvent(VSetE(VSetE(f, "res", res), "expanded", x))

\* results already checked need not be again
VSame(e, i) == \E j \in 1..(i - 1) :
  /\ e.variants[j][1] = e.variants[i][1] /\ e.variants[j][3] = e.variants[i][3]
  /\ e.variants[i][2] \notin VPlainHows \cup {"embedded", "option", "link", "cref"}
  /\ e.variants[j][2] \notin VPlainHows \cup {"embedded", "option", "link", "cref"}
CheckVariantsEvent(e) ==
  LET b == VDropE(e, {"variants", "loads"})
      V(i) == IF VSame(e, i) THEN <<>> ELSE VOne(b, e, e.variants[i][1], e.variants[i][2], e.variants[i][3], VExpanded(e, e.variants[i][2]))
      bad == {i \in 1..Len(e.variants) : V(i) # <<>>}
  IN IF ~EHas(e, "variants") THEN <<"no result">>
     ELSE IF bad = {} THEN <<>>
     ELSE LET i == CHOOSE j \in bad : \A k \in bad : j <= k IN <<e.variants[i][1], e.variants[i][2]>> \o V(i)
ExpectedVariants(e) == LET r == ExpandEvent(VDropE(e, {"variants", "loads", "outer"})) IN <<r.e, r.alt, r.v>>
=============================================================================
