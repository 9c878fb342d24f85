-------------------------------- MODULE Ctx ---------------------------------
(* JSON-LD 1.1 context processing: IRI expansion, Create Term Definition and  *)
(* the Context Processing algorithm, as functions from an active context and  *)
(* a local context (a JSON value) to a new active context or a set of errors. *)
(*                                                                            *)
(* An active context is a record                                              *)
(*   base, obase   option IRI              vocab  term or <<"null">>          *)
(*   lang, dir     option string           prev   option active context       *)
(*   terms         function: term name -> definition                          *)
(* A term (IRI mapping) is <<"iri",x>>, <<"bnode",x>>, <<"kw",x>>,            *)
(* <<"invalid",x>> or <<"null">>.                                             *)
EXTENDS Iri

CONSTANT Dev      \* names of the known deviations to follow (see known_findings.json)

NewCtx(b) == [base |-> b, obase |-> b, vocab |-> None, lang |-> None, dir |-> None,
              prev |-> None, terms |-> <<>>]

EmptyDef == [kind |-> "term", value |-> None, prefix |-> FALSE, protected |-> FALSE,
             reverse |-> FALSE, base_url |-> None, context |-> <<"unset">>, container |-> {},
             direction |-> <<"unset">>, index |-> None, language |-> <<"unset">>,
             nest |-> None, typ |-> <<"unset">>]
TypeDef(p) == [EmptyDef EXCEPT !.kind = "type", !.protected = p, !.container = {"@set"}]

HasTerm(ctx, t) == t \in DOMAIN ctx.terms
DropTerm(ctx, t) == [ctx EXCEPT !.terms = Eager([x \in DOMAIN ctx.terms \ {t} |-> ctx.terms[x]])]
SetTerm(ctx, t, d) == [ctx EXCEPT !.terms = (t :> d) @@ ctx.terms]
HasProtected(ctx) == \E t \in DOMAIN ctx.terms : ctx.terms[t].protected

IdTerm(s) == IF IsIri(s) THEN <<"iri", s>> ELSE IF IsBlank(s) THEN <<"bnode", s>> ELSE <<"invalid", s>>
IsId(t) == t[1] \in {"iri", "bnode", "invalid"}
ValidId(t) == t[1] \in {"iri", "bnode"}
Lexical(t) == IF t[1] = "null" THEN "" ELSE t[2]

-----------------------------------------------------------------------------
(* IRI expansion without a local context                                      *)

\* The part that looks at the string itself, once dependencies are defined.
ExpandCore(ctx, v, docrel, vocab) ==
  LET byTerm == HasTerm(ctx, v) /\ v # "@type"
      m == ctx.terms[v].value
      c == Find(v, ":")
      colon == c > 1
      Rest ==
        IF vocab /\ ctx.vocab # None THEN
          IF IsId(ctx.vocab) THEN IdTerm(Lexical(ctx.vocab) \o v) ELSE <<"invalid", v>>
        ELSE IF docrel /\ IsIriRef(v) /\ IsSome(ResolveOpt(v, ctx.base))
          THEN <<"iri", ResolveOpt(v, ctx.base)[2]>>
        ELSE <<"invalid", v>>
  IN
  IF byTerm /\ m[1] = "kw" THEN m
  ELSE IF byTerm /\ vocab THEN m
  ELSE IF colon THEN
    IF IsBlank(v) THEN <<"bnode", v>>
    ELSE IF v = "_:" THEN <<"invalid", v>>
    ELSE IF IsCompact(v) /\ HasTerm(ctx, CPrefix(v)) /\ ctx.terms[CPrefix(v)].prefix
            /\ ctx.terms[CPrefix(v)].value # None
         THEN IdTerm(Lexical(ctx.terms[CPrefix(v)].value) \o CSuffix(v))
    ELSE IF IsIri(v) THEN <<"iri", v>>
    ELSE Rest
  ELSE Rest

ExpandIri_(ctx, v, docrel, vocab) ==
  IF IsKeyword(v) THEN <<"kw", v>>
  ELSE IF KeywordLike(v) THEN None
  ELSE ExpandCore(ctx, v, docrel, vocab)
ExpandIriF == [a \in Any |-> ExpandIri_(a[1], a[2], a[3], a[4])]
ExpandIri(ctx, v, docrel, vocab) == ExpandIriF[<<ctx, v, docrel, vocab>>]

-----------------------------------------------------------------------------
(* Shape of a local context: errors that do not depend on the active context. *)
(* The whole context is checked before any of it is processed.                *)

Kinds(v, S) == v[1] \in S
CtxKeywords == {"@base", "@import", "@language", "@direction", "@propagate", "@protected",
                "@type", "@version", "@vocab"}
DefKeywords == {"@id", "@type", "@context", "@reverse", "@index", "@language", "@direction",
                "@container", "@nest", "@prefix", "@propagate", "@protected"}
ContainerWords == {"@graph", "@id", "@index", "@language", "@list", "@set", "@type"}
Dirs == {"ltr", "rtl"}

If(c, S) == IF c THEN S ELSE {}
Generic == {"invalid context entry", "invalid term definition"}

RECURSIVE ShapeErrors(_)
RECURSIVE DefShape(_)
RECURSIVE EntryShape(_)
ContainerShape(v) ==
  LET w == IF IsArr(v) THEN Range(v[2]) ELSE {v} IN
  If(v[1] # "0" /\ \E x \in w : ~IsStr(x) \/ x[2] \notin ContainerWords, {"invalid container mapping"} \cup Generic)
DirShape(v) == If(~(IsNull(v) \/ (IsStr(v) /\ v[2] \in Dirs)), {"invalid base direction"} \cup Generic)
BoolShape(v, code) == If(~IsBool(v), {code} \cup Generic)
KeyShape(k, v) ==
  CASE k = "@base" -> If(~(IsNull(v) \/ (IsStr(v) /\ IsIriRef(v[2]))), {"invalid base IRI", "invalid IRI mapping"} \cup Generic)
    [] k = "@import" -> If(~(IsStr(v) /\ IsIriRef(v[2])), {"invalid @import value", "invalid IRI mapping"} \cup Generic)
    [] k = "@language" -> If(~(IsNull(v) \/ IsStr(v)), {"invalid default language"} \cup Generic)
    [] k = "@direction" -> DirShape(v)
    [] k = "@propagate" -> BoolShape(v, "invalid @propagate value")
    [] k = "@protected" -> BoolShape(v, "invalid @protected value")
    [] k = "@version" -> If(v # <<"n", "1.1">>, {"invalid @version value"} \cup Generic)
    [] k = "@vocab" -> If(~(IsNull(v) \/ IsStr(v)), {"invalid vocab mapping"} \cup Generic)
    [] k = "@type" ->
         IF ~IsObj(v) THEN {"keyword redefinition"} \cup Generic
         ELSE If(\/ JKeys(v) \ {"@container", "@protected"} # {}
                 \/ "@container" \notin JKeys(v)
                 \/ (Has(v, "@container") /\ Get(v, "@container") # JStr("@set"))
                 \/ (Has(v, "@protected") /\ ~IsBool(Get(v, "@protected"))),
                 {"keyword redefinition", "invalid @protected value"} \cup Generic)
    [] OTHER -> If(~(IsNull(v) \/ IsStr(v) \/ IsObj(v)), {"invalid term definition"} \cup Generic)
                  \cup (IF IsObj(v) THEN UNION {DefShape(p) : p \in Range(v[2])} ELSE {})
DefShape(p) ==
  LET k == p[1] v == p[2] IN
  CASE k = "@id" -> If(~(IsNull(v) \/ IsStr(v)), {"invalid IRI mapping"} \cup Generic)
    [] k = "@type" -> If(~(IsNull(v) \/ IsStr(v)), {"invalid type mapping"} \cup Generic)
    [] k = "@reverse" -> If(~IsStr(v), {"invalid IRI mapping", "invalid reverse property"} \cup Generic)
    [] k = "@index" -> If(~IsStr(v), Generic)
    [] k = "@language" -> If(~(IsNull(v) \/ IsStr(v)), {"invalid language mapping"} \cup Generic)
    [] k = "@direction" -> DirShape(v)
    [] k = "@container" -> ContainerShape(v)
    [] k = "@nest" -> If(~(IsStr(v) /\ (v[2] = "@nest" \/ ~IsKeyword(v[2]))), {"invalid @nest value"} \cup Generic)
    [] k = "@prefix" -> BoolShape(v, "invalid @prefix value")
    [] k = "@propagate" -> BoolShape(v, "invalid @propagate value")
    [] k = "@protected" -> BoolShape(v, "invalid @protected value")
    [] k = "@context" -> If(ShapeErrors(v) # {}, {"invalid scoped context"} \cup ShapeErrors(v))
    [] OTHER -> Generic
EntryShape(v) ==
  CASE IsNull(v) -> {}
    [] IsStr(v) -> If(~IsIriRef(v[2]), {"invalid IRI mapping", "loading document failed", "invalid local context"} \cup Generic)
    [] IsObj(v) -> UNION {KeyShape(p[1], p[2]) : p \in Range(v[2])}
                   \cup If(DupKeys(v), {"duplicate key"} \cup Generic)
    [] OTHER -> {"invalid local context"} \cup Generic
ShapeErrorsF == [v \in Any |-> UNION {EntryShape(x) : x \in Range(AsArr(v))}]
ShapeErrors(v) == ShapeErrorsF[v]

-----------------------------------------------------------------------------
(* Create Term Definition.  The processing state S carries                    *)
(*   e      set of possible error codes (empty: no error so far)              *)
(*   ctx    the active context being built                                    *)
(*   d      "defined": term -> BOOLEAN (FALSE while being defined)            *)
(*   loads  IRIs requested from the loader, in order                          *)
(* and the static part P                                                      *)
(*   ents   entries of the (merged) local context                             *)
(*   stack  remote <<"r",iri>> and imported <<"i",iri>> contexts in process   *)
(*   burl   base URL (option)                                                 *)
(*   prot   value of @protected               o     options                   *)
(* Options o: mode ("1.0"/"1.1"), over (override protected), prop, remote     *)
(* (function IRI -> document), depth.                                         *)

Fail(S, codes) == [S EXCEPT !.e = codes]
Bad(S) == S.e # {}
HasEnt(P, t) == \E i \in 1..Len(P.ents) : P.ents[i][1] = t
EntOf(P, t) == GetP(P.ents, t, 1)
V10(P) == P.o.mode = "1.0"

Norm2(c) == IF c[1] = "set" THEN <<"set", Norm(c[2])>> ELSE c
Modulo(d) == [d EXCEPT !.protected = FALSE, !.context = Norm2(@)]
SameDef(a, b) == Modulo(a) = Modulo(b)

GenDelim(s) == s # "" /\ At(s, Len(s)) \in Gen

ContainerSets == {{}} \cup {{c} : c \in ContainerWords} \cup
  {{"@graph", "@set"}, {"@graph", "@id"}, {"@graph", "@index"}, {"@id", "@set"}, {"@index", "@set"},
   {"@language", "@set"}, {"@type", "@set"}, {"@graph", "@id", "@set"}, {"@graph", "@index", "@set"}}
ContainerSet(v) == IF IsNull(v) THEN {} ELSE {x[2] : x \in Range(AsArr(v))}

\* Step 27: a protected definition may only be repeated
Install(S, P, t, prev, def) ==
  IF ~P.o.over /\ IsSome(prev) /\ prev[2].protected /\ ~SameDef(prev[2], def)
  THEN Fail(S, {"protected term redefinition"})
  ELSE LET d2 == IF ~P.o.over /\ IsSome(prev) /\ prev[2].protected THEN [def EXCEPT !.protected = TRUE] ELSE def
       IN [S EXCEPT !.ctx = SetTerm(@, t, d2), !.d = (t :> TRUE) @@ @]

RECURSIVE Define(_, _, _)
RECURSIVE Create(_, _, _, _)
RECURSIVE ProcessCtx(_, _, _, _, _)

\* IRI expansion during context processing: dependencies are defined first
ExpandL(S, P, v) ==
  IF IsKeyword(v) THEN [s |-> S, t |-> <<"kw", v>>]
  ELSE IF KeywordLike(v) THEN [s |-> S, t |-> None]
  ELSE LET S1 == Define(S, P, v) IN
    IF Bad(S1) THEN [s |-> S1, t |-> None]
    ELSE IF HasTerm(S1.ctx, v) THEN [s |-> S1, t |-> S1.ctx.terms[v].value]
    ELSE IF Find(v, ":") > 1 /\ ~IsBlank(v) /\ v # "_:" /\ IsCompact(v)
    THEN LET S2 == Define(S1, P, CPrefix(v)) IN
         [s |-> S2, t |-> IF Bad(S2) THEN None ELSE ExpandCore(S2.ctx, v, FALSE, TRUE)]
    ELSE [s |-> S1, t |-> ExpandCore(S1.ctx, v, FALSE, TRUE)]

Define(S, P, t) ==
  IF Bad(S) THEN S
  ELSE IF t \in DOMAIN S.d THEN (IF S.d[t] THEN S ELSE Fail(S, {"cyclic IRI mapping"}))
  ELSE IF ~HasEnt(P, t) THEN S
  ELSE IF t = "" THEN Fail(S, {"invalid term definition"})
  ELSE LET S0 == [S EXCEPT !.d = (t :> FALSE) @@ @] IN
    IF t = "@type" THEN
      IF V10(P) THEN Fail(S, {"keyword redefinition"})
      ELSE LET v == EntOf(P, t)
               p == IF Has(v, "@protected") THEN Get(v, "@protected") = JBool(TRUE) ELSE P.prot
               prev == IF HasTerm(S.ctx, t) THEN Some(S.ctx.terms[t]) ELSE None
           IN Install(S0, P, t, prev, TypeDef(p))
    ELSE IF IsKeyword(t) THEN Fail(S, {"keyword redefinition"})
    ELSE IF KeywordLike(t) THEN S0
    ELSE Create(S0, P, t, EntOf(P, t))

\* The IRI mapping of a term whose entry has no @id (or an @id equal to the term):
\* [s, t] where t is the mapping
Implicit(S, P, t) ==
  LET Err(S1) == [s |-> Fail(S1, {"invalid IRI mapping"}), t |-> None]
      S1 == IF IsCompact(t) THEN Define(S, P, CPrefix(t)) ELSE S
      byPrefix == IsCompact(t) /\ HasTerm(S1.ctx, CPrefix(t))
      pm == S1.ctx.terms[CPrefix(t)].value
      Vocab == LET v == S1.ctx.vocab x == Lexical(v) \o t IN
               IF v = None THEN Err(S1)
               ELSE IF ValidId(IdTerm(x)) THEN [s |-> S1, t |-> IdTerm(x)]
               ELSE Err(S1)
  IN
  IF Bad(S1) THEN [s |-> S1, t |-> None]
  ELSE IF byPrefix THEN
    LET x == (IF IsId(pm) THEN pm[2] ELSE "") \o CSuffix(t) IN
    IF ValidId(IdTerm(x)) THEN [s |-> S1, t |-> IdTerm(x)] ELSE Err(S1)
  ELSE IF IsBlank(t) THEN [s |-> S1, t |-> <<"bnode", t>>]
  ELSE IF IsIri(t) THEN [s |-> S1, t |-> <<"iri", t>>]
  ELSE IF IsIriRef(t) /\ Contains(t, "/") THEN
    LET x == ExpandIri(S1.ctx, t, FALSE, TRUE) IN
    IF x[1] = "iri" THEN [s |-> S1, t |-> x] ELSE Err(S1)
  ELSE Vocab

InnerColon(t) == \E i \in 2..(Len(t) - 1) : At(t, i) = ":"

\* Every step takes and returns X = [s |-> state, def |-> definition, stop |-> BOOLEAN]
Create_(S, P, t, v0) ==
  LET prev == IF HasTerm(S.ctx, t) THEN Some(S.ctx.terms[t]) ELSE None
      simple == ~IsObj(v0)
      v == IF IsObj(v0) THEN v0 ELSE JObj(<< <<"@id", v0>> >>)
      H(k) == Has(v, k)
      G(k) == Get(v, k)
      Go(X) == ~Bad(X.s) /\ ~X.stop
      FailX(X, c) == [X EXCEPT !.s = Fail(@, {c})]
      X0 == [s |-> [S EXCEPT !.ctx = DropTerm(@, t)], stop |-> FALSE,
             def |-> [EmptyDef EXCEPT !.protected = IF H("@protected") THEN G("@protected") = JBool(TRUE) ELSE P.prot]]
      X1 == IF H("@protected") /\ V10(P) THEN FailX(X0, "invalid term definition") ELSE X0
      \* @type
      X2 == IF ~Go(X1) \/ ~H("@type") THEN X1
            ELSE LET r == IF IsNull(G("@type")) THEN [s |-> X1.s, t |-> None] ELSE ExpandL(X1.s, P, G("@type")[2])
                     Y == [X1 EXCEPT !.s = r.s]
                 IN IF Bad(r.s) THEN Y
                    ELSE IF V10(P) /\ r.t \in {<<"kw", "@json">>, <<"kw", "@none">>} THEN FailX(Y, "invalid type mapping")
                    ELSE IF r.t[1] = "iri" \/ (r.t[1] = "kw" /\ r.t[2] \in {"@id", "@vocab", "@json", "@none"})
                    THEN [Y EXCEPT !.def.typ = <<"v", r.t[2]>>]
                    ELSE FailX(Y, "invalid type mapping")
      \* @reverse
      X3 == IF ~Go(X2) \/ ~H("@reverse") THEN X2
            ELSE IF H("@id") \/ H("@nest") THEN FailX(X2, "invalid reverse property")
            ELSE IF KeywordLike(G("@reverse")[2]) THEN [X2 EXCEPT !.stop = TRUE]
            ELSE LET r == ExpandL(X2.s, P, G("@reverse")[2])
                     Y == [X2 EXCEPT !.s = r.s]
                     c == IF H("@container") THEN ContainerSet(G("@container")) ELSE {}
                 IN IF Bad(r.s) THEN Y
                    ELSE IF ~ValidId(r.t) THEN FailX(Y, "invalid IRI mapping")
                    ELSE IF c \notin {{}, {"@set"}, {"@index"}} \/ (H("@container") /\ G("@container") = JArr(<<>>)) THEN FailX(Y, "invalid reverse property")
                    ELSE LET d == [Y.def EXCEPT !.value = r.t, !.container = c, !.reverse = TRUE]
                         IN [Y EXCEPT !.s = Install(@, P, t, prev, d), !.stop = TRUE]
      \* @id
      explicit == H("@id") /\ G("@id") # JStr(t)
      X4 == IF ~Go(X3) THEN X3
            ELSE IF explicit THEN
              IF IsNull(G("@id")) THEN X3
              ELSE LET id == G("@id")[2] IN
                IF KeywordLike(id) /\ ~IsKeyword(id) THEN [X3 EXCEPT !.stop = TRUE]
                ELSE LET r == ExpandL(X3.s, P, id)
                         Y == [X3 EXCEPT !.s = r.s, !.def.value = r.t]
                         slash == InnerColon(t) \/ Contains(t, "/")
                         S2 == [r.s EXCEPT !.d = (t :> TRUE) @@ @]
                         r2 == ExpandL(S2, P, t)
                         Z == IF slash THEN [Y EXCEPT !.s = r2.s] ELSE Y
                     IN IF Bad(r.s) THEN Y
                        ELSE IF r.t = <<"kw", "@context">> THEN FailX(Y, "invalid keyword alias")
                        ELSE IF r.t[1] \in {"invalid", "null"} THEN FailX(Y, "invalid IRI mapping")
                        ELSE IF slash /\ Bad(r2.s) THEN Z
                        ELSE IF slash /\ r2.t # r.t THEN FailX(Z, "invalid IRI mapping")
                        ELSE [Z EXCEPT !.def.prefix = ~Contains(t, ":") /\ ~Contains(t, "/") /\ simple
                                                      /\ (r.t[1] = "bnode" \/ (r.t[1] = "iri" /\ GenDelim(r.t[2])))]
            ELSE LET r == Implicit(X3.s, P, t) IN [X3 EXCEPT !.s = r.s, !.def.value = r.t]
      \* @container
      X5 == IF ~Go(X4) \/ ~H("@container") THEN X4
            ELSE LET cv == G("@container") c == ContainerSet(cv) IN
              IF V10(P) /\ (~IsStr(cv) \/ c \cap {"@graph", "@id", "@type"} # {}) THEN FailX(X4, "invalid container mapping")
              ELSE IF c \notin ContainerSets THEN FailX(X4, "invalid container mapping")
              ELSE IF "@type" \in c /\ X4.def.typ[1] = "v" /\ X4.def.typ[2] \notin {"@id", "@vocab"}
              THEN FailX(X4, "invalid type mapping")
              ELSE [X4 EXCEPT !.def.container = c,
                              !.def.typ = IF "@type" \in c /\ @ = <<"unset">> THEN <<"v", "@id">> ELSE @]
      \* @index
      X6 == IF ~Go(X5) \/ ~H("@index") THEN X5
            ELSE IF V10(P) \/ "@index" \notin X5.def.container THEN FailX(X5, "invalid term definition")
            ELSE LET r == ExpandL(X5.s, P, G("@index")[2]) IN
              IF Bad(r.s) THEN [X5 EXCEPT !.s = r.s]
              ELSE IF r.t[1] # "iri" THEN FailX(X5, "invalid term definition")
              ELSE [X5 EXCEPT !.s = r.s, !.def.index = Some(G("@index")[2])]
      \* @context
      X7 == IF ~Go(X6) \/ ~H("@context") THEN X6
            ELSE IF V10(P) THEN FailX(X6, "invalid term definition")
            ELSE LET r == ProcessCtx(X6.s.ctx, G("@context"), P.stack, P.burl, [P.o EXCEPT !.over = TRUE])
                     S2 == [X6.s EXCEPT !.loads = @ \o r.loads]
                 IN IF r.e # {} THEN [X6 EXCEPT !.s = Fail(S2, {"invalid scoped context"})]
                    ELSE [X6 EXCEPT !.s = S2, !.def.context = <<"set", G("@context")>>, !.def.base_url = P.burl]
      \* @language, @direction
      Opt(x) == IF IsNull(x) THEN <<"null">> ELSE <<"v", x[2]>>
      X8 == IF ~Go(X7) \/ H("@type") THEN X7
            ELSE [X7 EXCEPT !.def.language = IF H("@language") THEN Opt(G("@language")) ELSE @,
                            !.def.direction = IF H("@direction") THEN Opt(G("@direction")) ELSE @]
      \* @nest
      X9 == IF ~Go(X8) \/ ~H("@nest") THEN X8
            ELSE IF V10(P) THEN FailX(X8, "invalid term definition")
            ELSE [X8 EXCEPT !.def.nest = Some(G("@nest")[2])]
      \* @prefix
      X10 == IF ~Go(X9) \/ ~H("@prefix") THEN X9
             ELSE IF V10(P) \/ Contains(t, ":") \/ Contains(t, "/") THEN FailX(X9, "invalid term definition")
             ELSE LET b == G("@prefix") = JBool(TRUE) IN
               IF b /\ X9.def.value[1] = "kw" THEN FailX(X9, "invalid term definition")
               ELSE [X9 EXCEPT !.def.prefix = b]
      X11 == IF Go(X10) /\ H("@propagate") THEN FailX(X10, "invalid term definition") ELSE X10
  IN IF Go(X11) THEN Install(X11.s, P, t, prev, X11.def) ELSE X11.s
CreateF == [a \in Any |-> Create_(a[1], a[2], a[3], a[4])]
Create(S, P, t, v0) == CreateF[<<S, P, t, v0>>]

-----------------------------------------------------------------------------
(* Context Processing.  The result is [e, ctx, loads, alt]: alt is a set of    *)
(* error codes a processor may also report (bounded recursion).                *)

Remote(o, iri) == IF iri \in DOMAIN o.remote THEN Some(o.remote[iri]) ELSE None
\* what the loaded document offers as a context: <<"ok", ctx>> or <<"err", codes>>
RemoteCtx(o, iri) ==
  IF iri \notin DOMAIN o.remote THEN <<"err", {"loading remote context failed"}>>
  ELSE LET d == o.remote[iri].doc IN
    IF ~IsObj(d) \/ ~Has(d, "@context") THEN <<"err", {"invalid remote context"}>>
    ELSE LET c == Get(d, "@context") sh == ShapeErrors(c) IN
      IF sh # {} THEN <<"err", sh \cup {"invalid remote context"}>> ELSE <<"ok", c>>
FinalUrl(o, iri) == o.remote[iri].url

\* terms of a definition: @type first, then the entries (imported first)
TermEntries(own, imp, rev) ==
  LET T(p) == p[1] \notin (CtxKeywords \ {"@type"})
      NotOwn(p) == T(p) /\ ~Has(own, p[1])
      es == Filter(imp[2], NotOwn) \o Filter(own[2], T)
  IN IF rev THEN Rev(es) ELSE es

RECURSIVE DefineAll(_, _, _)
DefineAll(S, P, ks) == IF Len(ks) = 0 \/ Bad(S) THEN S ELSE DefineAll(Define(S, P, Head(ks)), P, Tail(ks))

ProcessDef(A, own, stack, burl, o) ==
  LET FailA(B, codes) == [B EXCEPT !.e = codes]
      v10 == o.mode = "1.0"
      \* @import
      imported == Has(own, "@import")
      iri == ResolveOpt(Get(own, "@import")[2], burl)
      rc == RemoteCtx(o, iri[2])
      A1 == IF Has(own, "@version") /\ v10 THEN FailA(A, {"processing mode conflict"})
            ELSE IF v10 /\ imported THEN FailA(A, {"invalid context entry"})
            ELSE IF ~imported THEN A
            ELSE IF ~IsSome(iri) THEN FailA(A, {"invalid @import value"})
            ELSE LET B == [A EXCEPT !.loads = Append(@, iri[2])] IN
              IF rc[1] = "err" THEN FailA(B, rc[2])
              ELSE IF ~IsObj(rc[2]) THEN FailA(B, {"invalid remote context"})
              ELSE IF Has(rc[2], "@import") THEN FailA(B, {"invalid context entry"})
              ELSE B
      imp == IF imported /\ A1.e = {} THEN rc[2] ELSE JObj(<<>>)
      H(k) == Has(own, k) \/ Has(imp, k)
      G(k) == IF Has(own, k) THEN Get(own, k) ELSE Get(imp, k)
      \* @base
      A2 == IF A1.e # {} \/ ~H("@base") \/ (\E x \in stack : x[1] = "r") THEN A1
            ELSE IF IsNull(G("@base")) THEN [A1 EXCEPT !.ctx.base = None]
            ELSE LET b == G("@base")[2] r == ResolveOpt(b, A1.ctx.base) IN
              IF IsIri(b) THEN [A1 EXCEPT !.ctx.base = Some(b)]
              ELSE IF ~IsSome(r) THEN FailA(A1, {"invalid base IRI"})
              ELSE [A1 EXCEPT !.ctx.base = r]
      \* @vocab
      A3 == IF A2.e # {} \/ ~H("@vocab") THEN A2
            ELSE IF IsNull(G("@vocab")) THEN [A2 EXCEPT !.ctx.vocab = None]
            ELSE LET r == ExpandIri(A2.ctx, G("@vocab")[2], TRUE, TRUE) IN
              IF ValidId(r) \/ r = <<"invalid", "_:">> THEN [A2 EXCEPT !.ctx.vocab = r]
              ELSE FailA(A2, {"invalid vocab mapping"})
      Opt(x) == IF IsNull(x) THEN None ELSE Some(x[2])
      A4 == IF A3.e # {} \/ ~H("@language") THEN A3 ELSE [A3 EXCEPT !.ctx.lang = Opt(G("@language"))]
      A5 == IF A4.e # {} \/ ~H("@direction") THEN A4
            ELSE IF v10 THEN FailA(A4, {"invalid context entry"})
            ELSE [A4 EXCEPT !.ctx.dir = Opt(G("@direction"))]
      A6 == IF A5.e = {} /\ Has(own, "@propagate") /\ v10 THEN FailA(A5, {"invalid context entry"}) ELSE A5
      ents == TermEntries(own, imp, o.rev)
      P == [ents |-> ents, stack |-> stack \cup (IF imported THEN {<<"i", iri[2]>>} ELSE {}), burl |-> burl, o |-> o,
            prot |-> H("@protected") /\ G("@protected") = JBool(TRUE)]
      S0 == [e |-> {}, ctx |-> A6.ctx, d |-> <<>>, loads |-> A6.loads]
      keys == (IF \E i \in 1..Len(ents) : ents[i][1] = "@type" THEN <<"@type">> ELSE <<>>)
              \o MapSeq(LAMBDA p : p[1], ents)
      S1 == DefineAll(S0, P, keys)
      \* a scoped context of an imported context importing that context again
      again == imported /\ ~(v10 \/ ~IsSome(iri)) /\ <<"i", iri[2]>> \in stack
  IN IF again THEN A
     ELSE IF A6.e # {} THEN A6 ELSE [A6 EXCEPT !.e = S1.e, !.ctx = S1.ctx, !.loads = S1.loads]

ProcessEntry(A, entry, active, stack, burl, o, prop) ==
  CASE IsNull(entry) ->
         IF ~o.over /\ HasProtected(A.ctx) THEN [A EXCEPT !.e = {"invalid context nullification"}]
         ELSE LET n == NewCtx(active.obase) IN
              [A EXCEPT !.ctx = IF prop THEN n ELSE [n EXCEPT !.prev = Some(A.ctx)]]
    [] IsStr(entry) ->
         LET iri == ResolveOpt(entry[2], burl) IN
         IF ~IsSome(iri) THEN [A EXCEPT !.e = {"loading document failed", "loading remote context failed"}]
         ELSE IF <<"r", iri[2]>> \in stack THEN [A EXCEPT !.alt = @ \cup {"context overflow", "recursive context inclusion"}]
         ELSE LET B == [A EXCEPT !.loads = Append(@, iri[2])]
                  rc == RemoteCtx(o, iri[2])
              IN IF rc[1] = "err" THEN [B EXCEPT !.e = rc[2]]
                 ELSE LET r == ProcessCtx(A.ctx, rc[2], stack \cup {<<"r", iri[2]>>}, Some(FinalUrl(o, iri[2])),
                                          [o EXCEPT !.over = FALSE, !.prop = TRUE])
                      IN [e |-> r.e, ctx |-> r.ctx, loads |-> B.loads \o r.loads, alt |-> B.alt \cup r.alt]
    [] OTHER -> ProcessDef(A, entry, stack, burl, o)

RECURSIVE ProcessAll(_, _, _, _, _, _, _)
ProcessAll(A, es, active, stack, burl, o, prop) ==
  IF Len(es) = 0 \/ A.e # {} THEN A
  ELSE ProcessAll(ProcessEntry(A, Head(es), active, stack, burl, o, prop), Tail(es), active, stack, burl, o, prop)

ProcessCtx_(active, local, stack, burl, o) ==
  LET prop == IF IsObj(local) /\ Has(local, "@propagate") THEN Get(local, "@propagate") = JBool(TRUE) ELSE o.prop
      c0 == IF ~prop /\ ~IsSome(active.prev) THEN [active EXCEPT !.prev = Some(active)] ELSE active
      A0 == [e |-> {}, ctx |-> c0, loads |-> <<>>, alt |-> {}]
  IN IF o.mode = "1.0" /\ IsObj(local) /\ Has(local, "@propagate") THEN [A0 EXCEPT !.e = {"invalid context entry"}] ELSE
     ProcessAll(A0, AsArr(local), active, stack, burl, [o EXCEPT !.prop = prop], prop)

ProcessCtxF == [a \in Any |-> ProcessCtx_(a[1], a[2], a[3], a[4], a[5])]
ProcessCtx(active, local, stack, burl, o) == ProcessCtxF[<<active, local, stack, burl, o>>]

\* Entry point: shape first
ProcessLocal(active, local, burl, o) ==
  LET sh == ShapeErrors(local) IN
  IF sh # {} THEN [e |-> sh, ctx |-> active, loads |-> <<>>, alt |-> {}]
  ELSE ProcessCtx(active, local, {}, burl, o)

DefaultOpts == [mode |-> "1.1", over |-> FALSE, prop |-> TRUE, rev |-> FALSE, remote |-> <<>>]
=============================================================================
