------------------------------- MODULE MCCtx --------------------------------
(* The life of an active context: any sequence of local contexts, embedded or *)
(* remote, propagated or not, with or without permission to override.  TLC    *)
(* visits every sequence up to Depth over the universe below, checks the      *)
(* invariants in every active context reached, and prints every behaviour so  *)
(* that it can be replayed into the implementation.                           *)
EXTENDS Ctx, Json, IOUtils

CONSTANTS Depth, Universe, Emit

Base == "http://a.example/d/doc"
S(x) == <<"s", x>>
O(ps) == JObj(ps)
X == "http://ex.org/a"
Y == "http://ex.org/b"
T == JBool(TRUE)
F == JBool(FALSE)

\* definitions given to a term
Defs == {JNull, S(X), S(Y), S("p:x"), S("@type"),
         O(<< <<"@id", S(X)>> >>),
         O(<< <<"@id", S(X)>>, <<"@type", S("@id")>> >>),
         O(<< <<"@id", S(X)>>, <<"@protected", F>> >>),
         O(<< <<"@id", S(X)>>, <<"@protected", T>> >>),
         O(<< <<"@id", S(X)>>, <<"@container", S("@set")>> >>),
         O(<< <<"@reverse", S(X)>> >>),
         O(<< <<"@reverse", S(X)>>, <<"@container", S("@index")>> >>),
         O(<< <<"@id", S(X)>>, <<"@language", S("en")>> >>),
         O(<< <<"@id", S(X)>>, <<"@language", JNull>> >>),
         O(<< <<"@id", S(X)>>, <<"@direction", S("rtl")>> >>),
         O(<< <<"@id", S(X)>>, <<"@prefix", T>> >>),
         O(<< <<"@id", S(X)>>, <<"@nest", S("@nest")>> >>),
         O(<< <<"@id", S(X)>>, <<"@container", S("@index")>>, <<"@index", S("p:i")>> >>),
         O(<< <<"@id", S(X)>>, <<"@context", O(<< <<"b", JNull>> >>)>> >>),
         O(<< <<"@id", S(X)>>, <<"@context", JNull>> >>),
         O(<< <<"@type", S("@vocab")>> >>)}

Prot(ps) == {O(ps), O(Append(ps, <<"@protected", T>>))}
Small == {JNull, S("r1"), S("/r2"),
          O(<< <<"a", S(X)>> >>), O(<< <<"a", S(X)>>, <<"@protected", T>> >>),
          O(<< <<"a", JNull>>, <<"b", S("a")>> >>),
          O(<< <<"b", S("p:b")>>, <<"p", S("http://ex.org/p#")>>, <<"@protected", T>> >>),
          O(<< <<"p", S("http://ex.org/q#")>> >>),
          O(<< <<"@type", O(<< <<"@container", S("@set")>> >>)>>, <<"@protected", T>> >>),
          O(<< <<"@type", O(<< <<"@container", S("@set")>>, <<"@protected", F>> >>)>> >>),
          O(<< <<"@vocab", S("http://ex.org/v/")>>, <<"@language", S("en")>>, <<"@propagate", F>> >>),
          O(<< <<"@vocab", JNull>>, <<"@base", S("../up/")>> >>),
          O(<< <<"@vocab", S("rel/")>>, <<"@base", JNull>>, <<"@direction", S("ltr")>> >>),
          O(<< <<"@import", S("r3")>>, <<"a", S(Y)>> >>),
          JArr(<<O(<< <<"a", S(X)>> >>), JNull>>),
          JArr(<<S("r1"), O(<< <<"@base", S("sub/")>>, <<"a", S(Y)>> >>), S("r1")>>)}
Protected == UNION {Prot(<< <<"p", S("http://ex.org/p#")>>, <<"a", d>> >>) : d \in Defs}
             \cup {JNull, S("r1"), O(<< <<"b", S("a")>> >>)}
\* references to every kind of remote document, imports, and what may surround them
Import(x, ps) == O(<< <<"@import", S(x)>> >> \o ps)
RemoteU == {S(x) : x \in {"r1", "/r2", "r3", "loop1", "miss", "bad1", "bad2", "bad3", "moved", "http://c.example/s/x", "./r1#f", "?q"}}
           \cup {Import(x, <<>>) : x \in {"r3", "r1", "arr", "imp", "miss", "bad1", "bad2", "moved", "/r2", "loop1"}}
           \cup {Import("r3", << <<"a", S(Y)>> >>), Import("r3", << <<"@vocab", S("http://ex.org/z/")>>, <<"@protected", T>> >>),
                 Import("r1", << <<"@protected", F>>, <<"a", S(X)>> >>),
                 O(<< <<"@base", S("http://c.example/s/doc")>> >>), O(<< <<"@base", JNull>>, <<"a", S(X)>> >>),
                 O(<< <<"a", O(<< <<"@id", S(X)>>, <<"@context", S("loop1")>> >>)>> >>),
                 O(<< <<"a", O(<< <<"@id", S(X)>>, <<"@context", JArr(<<S("r1"), S("r1")>>)>> >>)>> >>),
                 O(<< <<"a", O(<< <<"@id", S(X)>>, <<"@context", S("miss")>> >>)>> >>),
                 JArr(<<S("r1"), S("r3"), S("r1")>>), JArr(<<S("/r2"), O(<< <<"b", S("a")>> >>), S("moved")>>),
                 JArr(<<S("r3"), S("miss"), S("r1")>>), JArr(<<O(<< <<"@base", S("http://c.example/s/doc")>> >>), S("x")>>)}

U == CASE Universe = "small" -> Small
       [] Universe = "protected" -> Protected
       [] Universe = "remote" -> RemoteU
       [] Universe = "all" -> Small \cup Protected

\* the store: IRI, document, final URL
Doc(c) == O(<< <<"@context", c>> >>)
R1 == "http://a.example/d/"
Remotes == << <<"http://a.example/d/r1", Doc(O(<< <<"a", S(Y)>>, <<"@protected", T>> >>)), R1 \o "r1">>,
              <<"http://a.example/r2", Doc(JArr(<<S("d/r1"), O(<< <<"@base", S("http://z/")>>, <<"b", S("a")>> >>), S("r2")>>)), "http://a.example/r2">>,
              <<"http://a.example/d/r3", Doc(O(<< <<"@vocab", S("http://ex.org/w/")>>, <<"a", S(X)>>, <<"c", JNull>> >>)), R1 \o "r3">>,
              <<"http://a.example/d/loop1", Doc(JArr(<<S("loop2"), O(<< <<"l1", S(X)>> >>)>>)), R1 \o "loop1">>,
              <<"http://a.example/d/loop2", Doc(JArr(<<O(<< <<"l2", S(Y)>> >>), S("loop1"), S("loop2"), S("r3")>>)), R1 \o "loop2">>,
              <<"http://a.example/d/arr", Doc(JArr(<<O(<< <<"a", S(X)>> >>)>>)), R1 \o "arr">>,
              <<"http://a.example/d/imp", Doc(O(<< <<"@import", S("r3")>> >>)), R1 \o "imp">>,
              <<"http://a.example/d/bad1", O(<< <<"a", S(X)>> >>), R1 \o "bad1">>,
              <<"http://a.example/d/bad2", JArr(<<Doc(O(<<>>))>>), R1 \o "bad2">>,
              <<"http://a.example/d/bad3", Doc(<<"n", "1">>), R1 \o "bad3">>,
              <<"http://a.example/d/moved", Doc(JArr(<<S("x"), O(<< <<"@base", S("y")>>, <<"m", S(X)>> >>)>>)), "http://c.example/s/moved">>,
              <<"http://c.example/s/x", Doc(O(<< <<"x", S(X)>>, <<"@base", JNull>> >>)), "http://c.example/s/x">>,
              <<"http://a.example/d/doc?q", Doc(O(<< <<"q", S(X)>> >>)), "http://a.example/d/doc?q">> >>
ASSUME PrintT(ToJson(<<"REMOTES", Remotes>>))
RemoteFn == [i \in {p[1] : p \in Range(Remotes)} |->
              LET p == CHOOSE q \in Range(Remotes) : q[1] = i IN [doc |-> p[2], url |-> p[3]]]

VARIABLES vActive,     \* the vActive context
          vHist,       \* the steps taken so far
          vSt          \* "ok" or "failed" (the last step was an error)
vars == <<vActive, vHist, vSt>>
View == <<vActive, vSt, Len(vHist)>>

Opts(over, prop) == [DefaultOpts EXCEPT !.over = over, !.prop = prop, !.remote = RemoteFn]

Init == vActive = NewCtx(Some(Base)) /\ vHist = <<>> /\ vSt = "ok"
Apply(c, over, prop) ==
  LET r == ProcessLocal(vActive, c, Some(Base), Opts(over, prop)) IN
  /\ vHist' = Append(vHist, [c |-> c, override |-> over, propagate |-> prop, curl |-> Base])
  /\ IF r.e # {} THEN vActive' = vActive /\ vSt' = "failed" ELSE vActive' = r.ctx /\ vSt' = "ok"
  /\ IF Emit = "yes" THEN PrintT(ToJson(vHist')) ELSE TRUE
Next == /\ Len(vHist) < Depth
        /\ vSt = "ok"
        /\ \E c \in U, over \in BOOLEAN, prop \in BOOLEAN : (prop \/ ~over) /\ Apply(c, over, prop)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE WellFormed(_)
WellFormed(c) ==
  /\ IsSome(c.base) => IsIri(c.base[2])
  /\ c.vocab # None => ValidId(c.vocab)
  /\ \A t \in DOMAIN c.terms : LET d == c.terms[t] IN
       /\ t # "" /\ ~(IsKeyword(t) /\ t # "@type")
       /\ d.value[1] # "invalid"
       /\ d.value # <<"kw", "@context">>
       /\ d.container \in ContainerSets
       /\ d.prefix => ~Contains(t, ":") /\ ~Contains(t, "/") /\ d.value[1] # "kw"
       /\ d.reverse => ValidId(d.value) /\ d.container \in {{}, {"@set"}, {"@index"}}
       /\ "@type" \in d.container => (d.kind = "type" \/ d.typ[2] \in {"@id", "@vocab"})
       /\ IsSome(d.index) => "@index" \in d.container
  /\ IsSome(c.prev) => WellFormed(c.prev[2])
TypeOK == WellFormed(vActive)

OBase == vActive.obase = Some(Base)

Last == vHist'[Len(vHist')]
\* without permission to override, a protected term keeps its definition and its protection
ProtectionHolds == [][ (vHist' # vHist /\ ~Last.override) =>
   \A t \in DOMAIN vActive.terms : vActive.terms[t].protected =>
      /\ t \in DOMAIN vActive'.terms
      /\ vActive'.terms[t].protected
      /\ SameDef(vActive'.terms[t], vActive.terms[t]) ]_vars
\* terms a context does not mention keep their definition
RECURSIVE Mentions(_, _)
Mentions(c, t) ==
  IF IsArr(c) THEN \E x \in Range(c[2]) : Mentions(x, t)
  ELSE IF IsNull(c) \/ IsStr(c) THEN TRUE
  ELSE Has(c, t) \/ Has(c, "@import")
UntouchedKept == [][ vHist' # vHist =>
   \A t \in DOMAIN vActive.terms : ~Mentions(Last.c, t) =>
      t \in DOMAIN vActive'.terms /\ vActive'.terms[t] = vActive.terms[t] ]_vars
\* a non-propagating context remembers exactly the one it replaced
RollbackExact == [][ (vHist' # vHist /\ vSt' = "ok" /\ ~Last.propagate /\ ~IsSome(vActive.prev)
                      /\ ~(IsObj(Last.c) /\ Has(Last.c, "@propagate")) /\ IsObj(Last.c)) =>
   vActive'.prev = Some(vActive) ]_vars
\* the order of the entries of a context is irrelevant
OrderFree == [][ (vHist' # vHist) =>
   LET o == Opts(Last.override, Last.propagate)
       a == ProcessLocal(vActive, Last.c, Some(Base), o)
       b == ProcessLocal(vActive, Last.c, Some(Base), [o EXCEPT !.rev = TRUE])
   IN (a.e = {}) = (b.e = {}) /\ (a.e = {} => a.ctx = b.ctx) ]_vars
=============================================================================
