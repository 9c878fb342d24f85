---------------------------- MODULE CheckExpand -----------------------------
(* Conformance of document expansion.                                         *)
EXTENDS Expand, Event

EOpts(e) == [DefaultOpts EXCEPT !.mode = EStr(e, "mode", "1.1"), !.remote = ERemote(e)]
\* base URL of the document: where it was found, or the base option
BurlOf(e) == IF EHas(e, "url") /\ e.url # "" THEN Some(e.url) ELSE EOpt(e, "base")
\* base IRI of the initial context: the base option first
ABase(e) == IF EHas(e, "base") /\ e.base # "" THEN Some(e.base) ELSE EOpt(e, "url")

\* a context given by reference ({"@ref": iri}) or in place: [e, alt, loads, ctx]
LoadCtx(o, c) ==
  IF IsObj(c) /\ Has(c, "@ref") THEN
    LET i == Get(c, "@ref")[2] r == RemoteCtx(o, i) IN
    IF r[1] = "err" THEN [e |-> r[2] \cup {"loading remote context failed"}, c |-> JNull, loads |-> {i}, url |-> None]
    ELSE [e |-> {}, c |-> r[2], loads |-> {i}, url |-> Some(FinalUrl(o, i))]
  ELSE [e |-> ShapeErrors(c), c |-> c, loads |-> {}, url |-> None]

\* the active context expansion starts with: [e, alt, loads, ctx]
StartCtx(e) ==
  LET o == EOpts(e)
      X == [o |-> o, burl |-> BurlOf(e)]
      c0 == CtxStart(NewCtx(ABase(e)))
      l == LoadCtx(o, e.expandContext)
      c1 == IF ~EHas(e, "expandContext") THEN c0
            ELSE IF l.e # {} THEN [c0 EXCEPT !.e = l.e, !.loads = l.loads]
            ELSE LET r == PC(X, c0.ctx, l.c, ABase(e), FALSE, TRUE) IN [r EXCEPT !.loads = @ \cup l.loads]
      k == LoadCtx(o, JObj(<< <<"@ref", JStr(e.contextUrl)>> >>))
      c2 == IF c1.e # {} \/ ~EHas(e, "contextUrl") \/ e.contextUrl = "" THEN c1
            ELSE IF k.e # {} THEN [c1 EXCEPT !.e = k.e, !.loads = @ \cup k.loads]
            ELSE LET r == PC(X, c1.ctx, k.c, Some(e.contextUrl), FALSE, TRUE) IN
                 [Then(c1, r) EXCEPT !.loads = @ \cup k.loads]
  IN c2

ExpandEvent(e) ==
  LET s == StartCtx(e) IN
  IF s.e # {} THEN [e |-> s.e, alt |-> s.alt, loads |-> s.loads, v |-> <<>>]
  ELSE LET r == ExpandDoc([o |-> EOpts(e), burl |-> BurlOf(e)], s.ctx, e.doc) IN Join2(r, s)

\* the observed document, with objects as functions
ObsDoc(v) == Norm(v)[2]
LoadsOk(e, r) == ~EHas(e, "loads") \/ Range(e.loads) = r.loads
ResultOk(res, r) ==
  CASE res[1] = "err" -> res[2] \in r.e \cup r.alt
    [] res[1] = "ok" -> r.e = {} /\ CanonDoc(ObsDoc(res[2])) = CanonDoc(r.v)
    [] OTHER -> FALSE
\* the observed output is in expanded form, and expanding it again gives the same document
\* (json-ld-1.0 does not read the @direction entries of value objects, although a term definition
\* may give a direction to its values: what the second expansion returns is then the model's)
DirectionLost(e, v) ==
  EStr(e, "mode", "1.1") = "1.0" /\ LET X == [o |-> EOpts(e), burl |-> BurlOf(e)] IN
    CanonDoc(Strip(ExpandAgain(X, v).v)) # CanonDoc(Strip(v))
AgainOk(e, r) ==
  LET d == ObsDoc(e.res[2]) X == [o |-> EOpts(e), burl |-> BurlOf(e)] IN
  /\ WellFormedDoc(d)
  /\ e.again[1] = "ok"
  /\ CanonDoc(Strip(ObsDoc(e.again[2]))) = CanonDoc(Strip(d)) \/ DirectionLost(e, r.v)
  /\ CanonDoc(ObsDoc(e.again[2])) = CanonDoc(ExpandAgain(X, r.v).v)
\* the same document with its entries in another order, ordered or not
VariantsOk(e, r) ==
  LET c == IF e.res[1] = "ok" THEN CanonDoc(ObsDoc(e.res[2])) ELSE <<>> IN
  \A x \in Range(e.variants) :
    /\ ResultOk(x, r)
    /\ x[1] = e.res[1]
    /\ x[1] = "ok" => CanonDoc(ObsDoc(x[2])) = c
CheckExpandEvent(e) ==
  IF ~EHas(e, "res") THEN <<"no result">>
  ELSE LET r == ExpandEvent(e) IN
    IF ~ResultOk(e.res, r) THEN <<"expansion">>
    ELSE IF e.res[1] = "ok" /\ ~LoadsOk(e, r) THEN <<"loads">>
    ELSE IF EHas(e, "again") /\ e.res[1] = "ok" /\ ~AgainOk(e, r) THEN <<"again">>
    ELSE IF EHas(e, "variants") /\ ~VariantsOk(e, r) THEN <<"variants">>
    ELSE <<>>
ExpectedExpand(e) == LET r == ExpandEvent(e) IN
  <<r.e, r.alt, r.v, r.loads, IF r.e = {} THEN WellFormedDoc(r.v) ELSE TRUE>>
=============================================================================
