--------------------------------- MODULE Rdf ---------------------------------
(* Conversion of expanded documents to RDF, flattening, and equality up to     *)
(* blank node renaming.                                                        *)
(*                                                                             *)
(* A term is   <<"iri", i>>  <<"bnode", label>>  <<"lit", ..>> (opaque)        *)
(*             <<"inv", string>> (neither IRI nor blank node identifier)       *)
(*             <<"seq", terms, opaque>>                                        *)
(* A quad is <<subject, property, object, graph>> with graph <<"default">> or  *)
(* a term.  Anonymous nodes, list cells and compound literals are labelled by  *)
(* their position in the document, which contains no ":".                      *)
EXTENDS Expand

RdfNs == "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XsdNs == "http://www.w3.org/2001/XMLSchema#"
RdfIri(n) == <<"iri", RdfNs \o n>>
DefaultG == <<"default">>
XString(s) == <<"lit", s, XsdNs \o "string", "">>

-----------------------------------------------------------------------------
(* Numbers.  A JSON number as [neg, ds, exp]: 0.ds * 10^exp, ds without        *)
(* leading or trailing zeros.                                                  *)
DigitVal == [c \in Digits |-> (CHOOSE i \in 1..10 : At("0123456789", i) = c) - 1]
RECURSIVE NatOf(_, _)
NatOf(s, acc) == IF s = "" THEN acc ELSE NatOf(Tail1(s, 2), acc * 10 + DigitVal[At(s, 1)])
IntOf(s) == IF s = "" THEN 0
            ELSE IF At(s, 1) = "-" THEN 0 - NatOf(Tail1(s, 2), 0)
            ELSE IF At(s, 1) = "+" THEN NatOf(Tail1(s, 2), 0) ELSE NatOf(s, 0)
RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ At(s, 1) = "0" THEN LStrip(Tail1(s, 2)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # "" /\ At(s, Len(s)) = "0" THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Num_(lex) ==
  LET neg == At(lex, 1) = "-"
      s == IF neg THEN Tail1(lex, 2) ELSE lex
      x == FindAnyFrom(s, {"e", "E"}, 1)
      mant == IF x = 0 THEN s ELSE SubSeq(s, 1, x - 1)
      e == IF x = 0 THEN 0 ELSE IntOf(Tail1(s, x + 1))
      d == Find(mant, ".")
      ip == IF d = 0 THEN mant ELSE SubSeq(mant, 1, d - 1)
      fp == IF d = 0 THEN "" ELSE Tail1(mant, d + 1)
      all == ip \o fp
      lead == Len(all) - Len(LStrip(all))
      ds == RStrip(LStrip(all))
  IN IF ds = "" THEN [neg |-> FALSE, ds |-> "", exp |-> 0]
     ELSE [neg |-> neg, ds |-> ds, exp |-> Len(ip) + e - lead]
NumF == [lex \in Any |-> Num_(lex)]
Sign(n) == IF n.neg THEN "-" ELSE ""
IsInt(n) == Len(n.ds) <= n.exp /\ n.exp <= 21
IntForm(n) == IF n.ds = "" THEN "0" ELSE Sign(n) \o n.ds \o Zeros(n.exp - Len(n.ds))
DoubleForm(n) ==
  IF n.ds = "" THEN "0.0E0"
  ELSE Sign(n) \o At(n.ds, 1) \o "." \o (IF Len(n.ds) = 1 THEN "0" ELSE Tail1(n.ds, 2)) \o "E" \o ToString(n.exp - 1)
\* ECMAScript number to string, as used by the JSON canonicalization scheme
JsForm(n) ==
  LET k == Len(n.ds) e == n.exp IN
  IF n.ds = "" THEN "0"
  ELSE Sign(n) \o
    (IF k <= e /\ e <= 21 THEN n.ds \o Zeros(e - k)
     ELSE IF 0 < e /\ e <= 21 THEN SubSeq(n.ds, 1, e) \o "." \o Tail1(n.ds, e + 1)
     ELSE IF 0 - 6 < e /\ e <= 0 THEN "0." \o Zeros(0 - e) \o n.ds
     ELSE At(n.ds, 1) \o (IF k = 1 THEN "" ELSE "." \o Tail1(n.ds, 2))
          \o "e" \o (IF e - 1 < 0 THEN "-" ELSE "+") \o ToString(IF e - 1 < 0 THEN 1 - e ELSE e - 1))

\* JSON canonicalization scheme
EscOf(c) == CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\t" -> "\\t"
              [] c = "\r" -> "\\r" [] c = "\f" -> "\\f" [] OTHER -> c
RECURSIVE Esc(_)
Esc(s) == IF s = "" THEN "" ELSE EscOf(At(s, 1)) \o Esc(Tail1(s, 2))
RECURSIVE JoinS(_, _)
JoinS(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinS(Tail(ss), sep)
Quote(s) == "\"" \o Esc(s) \o "\""
RECURSIVE Jcs(_)
Jcs(v) ==
  CASE IsNull(v) -> "null"
    [] IsBool(v) -> v[2]
    [] IsNum(v) -> JsForm(NumF[v[2]])
    [] IsStr(v) -> Quote(v[2])
    [] IsArr(v) -> "[" \o JoinS(MapSeq(Jcs, v[2]), ",") \o "]"
    [] OTHER -> "{" \o JoinS(MapSeq(LAMBDA k : Quote(k) \o ":" \o Jcs(v[2][k]), Sorted(DOMAIN v[2])), ",") \o "}"

-----------------------------------------------------------------------------
(* Terms                                                                      *)
RTermF == [s \in Any |-> IF IsBlank(s) THEN <<"bnode", s>> ELSE IF IsIri(s) THEN <<"iri", s>> ELSE <<"inv", s>>]
RTerm(s) == RTermF[s]
Valid(t) == t[1] \in {"iri", "bnode", "lit"}
Fresh(path) == <<"bnode", path>>
NodeTerm(f, path) == IF HasF(f, "@id") THEN RTerm(f["@id"][2]) ELSE Fresh(path)
Props(f) == {k \in DOMAIN f : ~IsKeyword(k)}
\* the position of the i-th value of entry k
At2(path, k, i) == path \o "-" \o k \o "-" \o ToString(i)
\* language tags (BCP 47, section 2.1, without the grandfathered ones)
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET d == Find(s, c) IN IF d = 0 THEN <<s>> ELSE <<SubSeq(s, 1, d - 1)>> \o SplitAt(Tail1(s, d + 1), c)
LangKind(t) == LET n == Len(t) alpha == AllIn(t, Alpha) num == AllIn(t, Digits) IN
  IF n = 0 \/ n > 8 \/ ~AllIn(t, AlNum) THEN {}
  ELSE (IF n = 1 THEN IF Lower(t) = "x" THEN {"private"} ELSE {"singleton"} ELSE {"ext"})
       \cup (IF n = 3 /\ alpha THEN {"extlang"} ELSE {})
       \cup (IF n = 4 /\ alpha THEN {"script"} ELSE {})
       \cup (IF (n = 2 /\ alpha) \/ (n = 3 /\ num) THEN {"region"} ELSE {})
       \cup (IF n >= 5 \/ (n = 4 /\ At(t, 1) \in Digits) THEN {"variant"} ELSE {})
       \cup {"any"}
\* stages: 0..3 language with as many extlangs (10: none allowed), 4 script, 5 region, 6 variants, 7 after a
\* singleton, 8 within an extension, 9 after "x", 11 within private use
RECURSIVE LangRest(_, _, _)
LangRest(ts, i, st) ==
  IF i > Len(ts) THEN st \notin {7, 9}
  ELSE LET k == LangKind(ts[i]) To(n) == LangRest(ts, i + 1, n) IN
    CASE st \in {9, 11} -> "any" \in k /\ To(11)
      [] st = 7 -> "ext" \in k /\ To(8)
      [] OTHER -> \/ st < 3 /\ "extlang" \in k /\ To(st + 1)
                  \/ (st < 4 \/ st = 10) /\ "script" \in k /\ To(4)
                  \/ (st < 5 \/ st = 10) /\ "region" \in k /\ To(5)
                  \/ (st <= 6 \/ st = 10) /\ "variant" \in k /\ To(6)
                  \/ st = 8 /\ "ext" \in k /\ To(8)
                  \/ "singleton" \in k /\ To(7)
                  \/ "private" \in k /\ To(9)
WellFormedLang(s) ==
  LET ts == SplitAt(s, "-") h == ts[1] IN
  \/ Lower(h) = "x" /\ Len(ts) > 1 /\ LangRest(ts, 2, 9)
  \/ Len(h) \in 2..8 /\ AllIn(h, Alpha) /\ LangRest(ts, 2, IF Len(h) < 4 THEN 0 ELSE 10)

\* the items of entry k with their positions: << <<item, path>>, .. >>
Located(f, path, k) == LET n == ToString(Cardinality({x \in DOMAIN f : StrLt(x, k)})) IN
  [i \in 1..Len(f[k][2]) |-> <<f[k][2][i], At2(path, n, i)>>] \o <<>>

-----------------------------------------------------------------------------
(* Object to RDF                                                              *)
\* a value object: <<>> (no literal) or <<term>>; dir is the rdf direction option
Literal(f, dir, path) ==
  LET v == f["@value"]
      typ == IF HasF(f, "@type") THEN f["@type"][2] ELSE ""
      lang == IF HasF(f, "@language") THEN f["@language"][2] ELSE ""
      Lit(s, dt) == << <<"lit", s, dt, "">> >>
  IN IF typ = "@json" THEN Lit(Jcs(v), RdfNs \o "JSON")
     ELSE IF typ # "" /\ ~IsIri(typ) THEN <<>>
     ELSE IF IsBool(v) THEN Lit(v[2], IF typ = "" THEN XsdNs \o "boolean" ELSE typ)
     ELSE IF IsNum(v) THEN
       LET n == NumF[v[2]] IN
       IF IsInt(n) /\ typ # XsdNs \o "double" THEN Lit(IntForm(n), IF typ = "" THEN XsdNs \o "integer" ELSE typ)
       ELSE Lit(DoubleForm(n), IF typ = "" THEN XsdNs \o "double" ELSE typ)
     ELSE IF typ # "" THEN Lit(v[2], typ)
     ELSE IF lang # "" /\ ~WellFormedLang(lang) THEN <<>>
     ELSE IF HasF(f, "@direction") /\ dir = "i18n-datatype"
       THEN Lit(v[2], "https://www.w3.org/ns/i18n#" \o Lower(lang) \o "_" \o f["@direction"][2])
     ELSE IF HasF(f, "@direction") /\ dir = "compound-literal" THEN << Fresh(path) >>
     ELSE IF HasF(f, "@language") THEN << <<"lit", v[2], "@", lang>> >>
     ELSE Lit(v[2], XsdNs \o "string")

\* the term of an item, if any
ObjTerm(x, dir, path) ==
  IF IsValueObj(x) THEN Literal(x[2], dir, path)
  ELSE IF IsListObj(x) THEN << IF Len(x[2]["@list"][2]) = 0 THEN RdfIri("nil") ELSE Fresh(path) >>
  ELSE LET t == NodeTerm(x[2], path) IN IF Valid(t) THEN <<t>> ELSE <<>>

Quad(s, p, t, g) == IF Valid(s) /\ Valid(p) /\ (g = DefaultG \/ Valid(g)) THEN {<<s, p, t, g>>} ELSE {}

\* O: [dir, gen]
RECURSIVE QNode(_, _, _, _)
RECURSIVE QObj(_, _, _, _)
\* the nodes found in an item, whatever refers to it
RECURSIVE QNested(_, _, _, _)

\* the triples that make the term of an item: lists and compound literals
QObj_(O, x, path, g) ==
  IF IsListObj(x) THEN
    LET s == Located(x[2], path, "@list")
        Cell(i) == IF i = 1 THEN Fresh(path) ELSE IF i > Len(s) THEN RdfIri("nil") ELSE Fresh(s[i][2] \o "-cell")
    IN UNION {LET t == ObjTerm(s[i][1], O.dir, s[i][2]) IN
              UNION {Quad(Cell(i), RdfIri("first"), y, g) : y \in Range(t)}
              \cup Quad(Cell(i), RdfIri("rest"), Cell(i + 1), g)
              \cup (IF t = <<>> THEN {} ELSE QObj(O, s[i][1], s[i][2], g)) : i \in 1..Len(s)}
  ELSE IF IsValueObj(x) /\ HasF(x[2], "@direction") /\ O.dir = "compound-literal" /\ Literal(x[2], O.dir, path) # <<>> THEN
    LET f == x[2] b == Fresh(path) IN
    Quad(b, RdfIri("value"), XString(f["@value"][2]), g)
    \cup Quad(b, RdfIri("direction"), XString(f["@direction"][2]), g)
    \cup (IF HasF(f, "@language") THEN Quad(b, RdfIri("language"), XString(Lower(f["@language"][2])), g) ELSE {})
  ELSE {}
QObjF == [a \in Any |-> QObj_(a[1], a[2], a[3], a[4])]
QObj(O, x, path, g) == QObjF[<<O, x, path, g>>]

QNested(O, x, path, g) ==
  IF IsValueObj(x) THEN {}
  ELSE IF IsListObj(x) THEN UNION {QNested(O, it[1], it[2], g) : it \in Range(Located(x[2], path, "@list"))}
  ELSE QNode(O, x[2], path, g)

PropTerm(O, p) == LET t == RTerm(p) IN IF t[1] = "bnode" /\ ~O.gen THEN <<"inv", p>> ELSE t
QNode_(O, f, path, g) ==
  LET s == NodeTerm(f, path)
      types == IF HasF(f, "@type") THEN UNION {LET y == RTerm(t[2]) IN
                 IF Valid(y) THEN Quad(s, RdfIri("type"), y, g) ELSE {} : t \in Range(f["@type"][2])} ELSE {}
      OfProp(p) == UNION {
        LET x == it[1] t == ObjTerm(x, O.dir, it[2])
            q == IF t = <<>> THEN {} ELSE Quad(s, PropTerm(O, p), t[1], g)
        IN q \cup (IF q = {} THEN {} ELSE QObj(O, x, it[2], g)) \cup QNested(O, x, it[2], g)
        : it \in Range(Located(f, path, p))}
      OfRev(h, p) == UNION {
        QNode(O, it[1][2], it[2], g)
        \cup (IF Valid(s) THEN Quad(NodeTerm(it[1][2], it[2]), PropTerm(O, p), s, g) ELSE {})
        : it \in Range(Located(h, path \o "-rev", p))}
      rev == IF HasF(f, "@reverse") THEN LET h == f["@reverse"][2] IN UNION {OfRev(h, p) : p \in DOMAIN h} ELSE {}
      graph == IF HasF(f, "@graph") THEN UNION {QNested(O, it[1], it[2], s) : it \in Range(Located(f, path, "@graph"))} ELSE {}
      incl == IF HasF(f, "@included") THEN UNION {QNode(O, it[1][2], it[2], g) : it \in Range(Located(f, path, "@included"))} ELSE {}
  IN types \cup UNION {OfProp(p) : p \in Props(f)} \cup rev \cup graph \cup incl
QNodeF == [a \in Any |-> QNode_(a[1], a[2], a[3], a[4])]
QNode(O, f, path, g) == QNodeF[<<O, f, path, g>>]

\* the dataset of an expanded document
ToRdf(O, items) == UNION {QNested(O, items[i], "f" \o ToString(i), DefaultG) : i \in 1..Len(items)}

-----------------------------------------------------------------------------
(* Equality up to blank node renaming, by joint colour refinement: blank nodes *)
(* get the same colour when they occur in the same way among nodes of equal    *)
(* colours.  (This may identify sets that are not isomorphic when they have    *)
(* symmetric cycles, but never rejects isomorphic ones.)                       *)
RECURSIVE TermBns(_)
\* the blank nodes of a term, in order, and the term without them
TermBns(t) == CASE t[1] = "bnode" -> <<t[2]>> [] t[1] = "seq" -> Flat(MapSeq(TermBns, t[2])) [] OTHER -> <<>>
RECURSIVE TermShape(_)
TermShape(t) == CASE t[1] = "bnode" -> <<"bnode">> [] t[1] = "seq" -> <<"seq", MapSeq(TermShape, t[2]), t[3]>> [] OTHER -> t
FactBns(q) == Flat(MapSeq(TermBns, q))
FactShape(q) == MapSeq(TermShape, q)
Position(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
\* facts as << shape number, <<blank node numbers>> >>; colours are a sequence by blank node number
Coded(Q, shapes, bns) == {<<Position(shapes, FactShape(q)), LET b == FactBns(q) IN MapSeq(LAMBDA x : Position(bns, x), b)>> : q \in Q}
ColBag(Q, c, b) ==
  LET img == Eager([q \in Q |-> <<q[1], MapSeq(LAMBDA x : IF x = b THEN 0 ELSE c[x], q[2])>>]) IN
  Eager([x \in Range(img) |-> Cardinality({q \in Q : img[q] = x})])
Incidence(Q, n) == [b \in 1..n |-> {q \in Q : b \in Range(q[2])}] \o <<>>
SigOf(I, c) == [b \in 1..Len(I) |-> <<c[b], ColBag(I[b], c, b)>>] \o <<>>
RECURSIVE Refine(_, _, _, _, _)
\* the final colours of both sides, or <<>> when they differ
Refine(IA, IB, ca, cb, n) ==
  LET sa == SigOf(IA, ca) sb == SigOf(IB, cb)
      sigs == SetSeq(Range(sa) \cup Range(sb))
      na == MapSeq(LAMBDA x : Position(sigs, x), sa)
      nb == MapSeq(LAMBDA x : Position(sigs, x), sb)
      hist(f) == [i \in 1..Len(sigs) |-> Cardinality({b \in DOMAIN f : f[b] = i})] \o <<>>
  IN IF hist(na) # hist(nb) THEN <<>>
     ELSE IF Len(sigs) = n THEN << na, nb >>
     ELSE Refine(IA, IB, na, nb, Len(sigs))
Iso_(A, B) ==
  LET shA == {FactShape(q) : q \in A}
      bA == SetSeq(UNION {Range(FactBns(q)) : q \in A}) bB == SetSeq(UNION {Range(FactBns(q)) : q \in B})
  IN /\ Cardinality(A) = Cardinality(B)
     /\ Len(bA) = Len(bB)
     /\ shA = {FactShape(q) : q \in B}
     /\ LET shapes == SetSeq(shA)
            cA == Coded(A, shapes, bA) cB == Coded(B, shapes, bB)
            zero == [i \in 1..Len(bA) |-> 0] \o <<>>
            r == Refine(Incidence(cA, Len(bA)), Incidence(cB, Len(bB)), zero, zero, 0)
        IN bA # <<>> => r # <<>> /\ ColBag(cA, r[1], 0) = ColBag(cB, r[2], 0)
IsoF == [a \in Any |-> Iso_(a[1], a[2])]
Iso(A, B) == IsoF[<<A, B>>]

\* Compound literals made into terms: equal ones of a property may or may not share their node.
ClNodes(Q) == {q[1] : q \in {x \in Q : x[2] = RdfIri("direction") /\ x[1][1] = "bnode"}}
ClTerm(Q, b) == LET S == {<<q[2], q[3]>> : q \in {x \in Q : x[1] = b}} IN <<"lit", "compound", S>>
ClOk(Q, b) ==
  LET S == {q \in Q : q[1] = b} IN
  /\ \A q \in S : q[2] \in {RdfIri("direction"), RdfIri("value"), RdfIri("language")} /\ q[3][1] = "lit"
  /\ \A q, r \in S : q[2] = r[2] => q = r
  /\ \E q \in S : q[2] = RdfIri("value")
  /\ \E y \in Q : y[3] = b /\ \A q \in S : q[4] = y[4]
  /\ Cardinality({q \in Q : q[3] = b}) = 1 /\ \A q \in Q : q[2] # b /\ q[4] # b
Collapse(Q) ==
  LET bs == {b \in ClNodes(Q) : ClOk(Q, b)} IN
  IF bs = {} THEN Q
  ELSE {<<q[1], q[2], IF q[3] \in bs THEN ClTerm(Q, q[3]) ELSE q[3], q[4]>> : q \in {x \in Q : x[1] \notin bs}}
SameDataset(A, B) == Iso(Collapse(A), Collapse(B))

\* lists are chains: what ToRdf must produce whatever the document, when it does not use the list vocabulary itself
ListsOk(Q) ==
  LET Of(b, p) == {q \in Q : q[1] = b /\ q[2] = RdfIri(p)}
      cells == {q[1] : q \in {x \in Q : x[2] = RdfIri("rest")}}
      firsts == {q[1] : q \in {x \in Q : x[2] = RdfIri("first")}}
  IN /\ firsts \subseteq cells
     /\ \A c \in cells :
          /\ c[1] = "bnode"
          /\ Cardinality(Of(c, "rest")) = 1 /\ Cardinality(Of(c, "first")) <= 1
          /\ \A q \in Of(c, "rest") : q[3] = RdfIri("nil") \/ q[3] \in cells
          /\ Cardinality({q \in Q : q[3] = c}) = 1
          /\ {q \in Q : q[1] = c} = Of(c, "rest") \cup Of(c, "first")
          /\ Cardinality({q[4] : q \in {x \in Q : x[1] = c \/ x[3] = c}}) = 1

-----------------------------------------------------------------------------
(* Flattening.  The node map is a set of facts <<graph, id, what, value>>:     *)
(* "what" is a property or <<"kw", name>>.  A list is <<"seq", items, index>>; *)
(* equal lists of a property are all kept, so that facts have a multiplicity.  *)
Kw(n) == <<"kw", n>>
Opaque(x) == <<"lit", x>>
\* language tags are compared without regard to case
FoldLang(f) == IF HasF(f, "@language") THEN [f EXCEPT !["@language"] = JStr(Lower(f["@language"][2]))] ELSE f
FoldQuads(Q) == {IF q[3][1] = "lit" /\ Len(q[3]) = 4 THEN <<q[1], q[2], <<"lit", q[3][2], q[3][3], Lower(q[3][4])>>, q[4]>> ELSE q : q \in Q}
RECURSIVE FlatValue(_, _)
\* the value of a property in the node map
FlatValue(x, path) ==
  IF IsValueObj(x) THEN Opaque(FoldLang(x[2]))
  ELSE IF IsListObj(x) THEN
    <<"seq", MapSeq(LAMBDA it : FlatValue(it[1], it[2]), Located(x[2], path, "@list")),
      IF HasF(x[2], "@index") THEN x[2]["@index"] ELSE JNull>>
  ELSE NodeTerm(x[2], path)

RECURSIVE FNode(_, _, _)
RECURSIVE FNested(_, _, _)
FNested(x, path, g) ==
  IF IsValueObj(x) THEN <<>>
  ELSE IF IsListObj(x) THEN Flat(MapSeq(LAMBDA it : FNested(it[1], it[2], g), Located(x[2], path, "@list")))
  ELSE FNode(x[2], path, g)
FNode_(f, path, g) ==
  LET s == NodeTerm(f, path)
      F(what, v) == <<g, s, what, v>>
      types == IF HasF(f, "@type") THEN MapSeq(LAMBDA t : F(Kw("@type"), RTerm(t[2])), f["@type"][2]) ELSE <<>>
      index == IF HasF(f, "@index") THEN << F(Kw("@index"), Opaque(f["@index"])) >> ELSE <<>>
      OfProp(p) == << F(RTerm(p), Kw("has")) >>
        \o MapSeq(LAMBDA it : F(RTerm(p), FlatValue(it[1], it[2])), Located(f, path, p))
        \o Flat(MapSeq(LAMBDA it : FNested(it[1], it[2], g), Located(f, path, p)))
      OfRev(h, p) == Flat(MapSeq(LAMBDA it :
          LET y == NodeTerm(it[1][2], it[2]) IN
          << <<g, y, RTerm(p), Kw("has")>>, <<g, y, RTerm(p), s>> >> \o FNode(it[1][2], it[2], g),
        Located(h, path \o "-rev", p)))
      rev == IF HasF(f, "@reverse") THEN LET h == f["@reverse"][2] IN Flat(MapSeq(LAMBDA p : OfRev(h, p), Sorted(DOMAIN h))) ELSE <<>>
      graph == IF HasF(f, "@graph")
               THEN << <<DefaultG, s, Kw("@graph"), Kw("has")>> >>
                    \o Flat(MapSeq(LAMBDA it : FNested(it[1], it[2], s), Located(f, path, "@graph"))) ELSE <<>>
      incl == IF HasF(f, "@included") THEN Flat(MapSeq(LAMBDA it : FNode(it[1][2], it[2], g), Located(f, path, "@included"))) ELSE <<>>
  IN types \o index \o graph \o incl \o Flat(MapSeq(OfProp, Sorted(Props(f)))) \o rev
FNodeF == [a \in Any |-> FNode_(a[1], a[2], a[3])]
FNode(f, path, g) == FNodeF[<<f, path, g>>]

NodeFacts(items) == Flat([i \in 1..Len(items) |-> FNested(items[i], "f" \o ToString(i), DefaultG)] \o <<>>)
\* facts with the number of times a list occurs (once for anything else)
Counted(s) == {Append(x, <<"lit", IF x[4][1] = "seq" THEN Cardinality({i \in 1..Len(s) : s[i] = x}) ELSE 1>>) : x \in Range(s)}
NodeMap(items) == Counted(NodeFacts(items))
IndexConflict(items) ==
  LET I == {x \in Range(NodeFacts(items)) : x[3] = Kw("@index")} IN \E x, y \in I : x[1] = y[1] /\ x[2] = y[2] /\ x[4] # y[4]

\* The facts of a flattened document; <<"bad">> for what is not flat.
BadFact == <<DefaultG, DefaultG, Kw("bad"), Kw("bad")>>
RECURSIVE IsFlatValue(_)
IsFlatValue(x) ==
  IF IsValueObj(x) THEN TRUE
  ELSE IF IsListObj(x) THEN \A y \in Range(x[2]["@list"][2]) : IsFlatValue(y)
  ELSE DOMAIN x[2] = {"@id"}
FlatNodeOk(x, g) ==
  /\ IsNodeObj(x) /\ HasF(x[2], "@id") /\ DOMAIN x[2] # {"@id"}
  /\ ~HasF(x[2], "@reverse") /\ ~HasF(x[2], "@included") /\ (g = DefaultG \/ ~HasF(x[2], "@graph"))
  /\ \A p \in Props(x[2]) : \A y \in Range(x[2][p][2]) : IsFlatValue(y)
Distinct(s) == Cardinality({x[2]["@id"] : x \in Range(s)}) = Len(s)
IsFlat(items) ==
  /\ \A x \in Range(items) : FlatNodeOk(x, DefaultG)
  /\ Distinct(items)
  /\ \A x \in Range(items) : HasF(x[2], "@graph") =>
       LET s == x[2]["@graph"][2] IN (\A y \in Range(s) : FlatNodeOk(y, RTerm(x[2]["@id"][2]))) /\ Distinct(s)
SameNodeMap(expanded, flat) == IsFlat(flat) /\ Iso(NodeMap(expanded), NodeMap(flat))
-----------------------------------------------------------------------------
(* Flattening as a document.                                                   *)
TermId(t) == JStr(IF t[1] = "bnode" /\ ~IsBlank(t[2]) THEN "_:" \o t[2] ELSE t[2])
FObj(fs) == <<"o", fs>>
RECURSIVE ValueDoc(_)
ValueDoc(v) ==
  CASE v[1] = "lit" -> <<"o", v[2]>>
    [] v[1] = "seq" -> FObj(("@list" :> JArr(MapSeq(ValueDoc, v[2]))) @@ (IF v[3] = JNull THEN <<>> ELSE "@index" :> v[3]))
    [] OTHER -> FObj("@id" :> TermId(v))
RECURSIVE DedupValues(_)
DedupValues(s) == IF Len(s) = 0 THEN <<>> ELSE
  LET r == DedupValues(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN IF x[1] # "seq" /\ x \in Range(r) THEN r ELSE Append(r, x)
FlatDoc(items) ==
  LET facts == NodeFacts(items)
      Mine(g, s) == Filter(facts, LAMBDA x : x[1] = g /\ x[2] = s)
      Subjects(g) == Dedup(MapSeq(LAMBDA x : x[2], Filter(facts, LAMBDA x : x[1] = g)))
      Values(m, w) == DedupValues(MapSeq(LAMBDA x : x[4], Filter(m, LAMBDA x : x[3] = w /\ x[4] # Kw("has"))))
      NodeDoc(g, s, more) ==
        LET m == Mine(g, s)
            ps == {x[3] : x \in Range(m)} \ {Kw("@type"), Kw("@index"), Kw("@graph")}
        IN FObj(("@id" :> TermId(s)) @@ more
             @@ Eager([p \in {TermId(w)[2] : w \in ps} |-> JArr(MapSeq(ValueDoc, Values(m, CHOOSE w \in ps : TermId(w)[2] = p)))])
             @@ (IF Values(m, Kw("@type")) = <<>> THEN <<>> ELSE "@type" :> JArr(MapSeq(TermId, Values(m, Kw("@type")))))
             @@ (IF Values(m, Kw("@index")) = <<>> THEN <<>> ELSE "@index" :> Values(m, Kw("@index"))[1][2]))
      GraphDoc(g) == MapSeq(LAMBDA s : NodeDoc(g, s, <<>>), Subjects(g))
  IN MapSeq(LAMBDA s : NodeDoc(DefaultG, s,
              IF \E x \in Range(Mine(DefaultG, s)) : x[3] = Kw("@graph") THEN "@graph" :> JArr(GraphDoc(s)) ELSE <<>>),
            Subjects(DefaultG))
=============================================================================
