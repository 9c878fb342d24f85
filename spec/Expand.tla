------------------------------- MODULE Expand -------------------------------
(* The JSON-LD 1.1 expansion algorithm, as a function from an active context  *)
(* and a JSON value to an expanded document or a set of errors.               *)
(*                                                                            *)
(* Expanded items are JSON values whose objects are functions:                *)
(*    <<"o", [key |-> value]>>    with arrays as <<"a", sequence>>            *)
(* A result is [e, alt, loads, v]:                                            *)
(*   e      the errors that may be reported (empty: there must be none)       *)
(*   alt    errors that may be reported instead of the value                  *)
(*   loads  IRIs requested from the loader                                    *)
(*   v      <<"null">>, <<"one", item>> or <<"many", items>>                  *)
(* As the order of entries is not specified, `e` collects the errors of every *)
(* entry.                                                                     *)
EXTENDS Ctx

NoProp == "@@none"
EmptyF == <<>>
HasF(f, k) == k \in DOMAIN f
SetF(f, k, v) == (k :> v) @@ f
DropF(f, ks) == Eager([x \in DOMAIN f \ ks |-> f[x]])
AddF(f, k, s) == SetF(f, k, <<"a", (IF HasF(f, k) THEN f[k][2] ELSE <<>>) \o s>>)
Obj(f) == <<"o", f>>

IsValueObj(x) == IsObj(x) /\ HasF(x[2], "@value")
IsListObj(x) == IsObj(x) /\ HasF(x[2], "@list")
IsNodeObj(x) == IsObj(x) /\ ~HasF(x[2], "@value") /\ ~HasF(x[2], "@list")
IsGraphObj(x) == IsNodeObj(x) /\ HasF(x[2], "@graph") /\ DOMAIN x[2] \subseteq {"@graph", "@id", "@index", "@context"}

RNull == [e |-> {}, alt |-> {}, loads |-> {}, v |-> <<"null">>]
ROne(x) == [RNull EXCEPT !.v = <<"one", x>>]
RMany(s) == [RNull EXCEPT !.v = <<"many", s>>]
RErr(codes) == [RNull EXCEPT !.e = codes]
Items(v) == CASE v[1] = "null" -> <<>> [] v[1] = "one" -> <<v[2]>> [] OTHER -> v[2]
\* add the errors and loads of r to a
Join2(a, r) == [a EXCEPT !.e = @ \cup r.e, !.alt = @ \cup r.alt, !.loads = @ \cup r.loads]
Err(a, codes) == [a EXCEPT !.e = @ \cup codes]
Alt(a, codes) == [a EXCEPT !.alt = @ \cup codes]

\* Context processing during expansion: [e, alt, loads, ctx]
PC(X, ctx, local, burl, over, prop) ==
  LET o == [X.o EXCEPT !.over = over, !.prop = prop]
      r == ProcessCtx(ctx, local, {}, burl, o)
  IN [e |-> IF r.e = {} THEN {} ELSE r.e \cup ProcessCtx(ctx, local, {}, burl, [o EXCEPT !.rev = TRUE]).e,
      alt |-> r.alt, loads |-> Range(r.loads), ctx |-> r.ctx]
PCDoc(X, ctx, local) ==
  LET sh == ShapeErrors(local) IN
  IF sh # {} THEN [e |-> sh, alt |-> {}, loads |-> {}, ctx |-> ctx]
  ELSE PC(X, ctx, local, X.burl, FALSE, TRUE)
CtxStart(ctx) == [e |-> {}, alt |-> {}, loads |-> {}, ctx |-> ctx]
\* sequencing: run the next context only if the previous ones succeeded
Then(r, s) == [s EXCEPT !.alt = @ \cup r.alt, !.loads = @ \cup r.loads]

Def(ctx, t) == ctx.terms[t]
Scoped(ctx, t) == HasTerm(ctx, t) /\ Def(ctx, t).context[1] = "set"

\* IRI expansion of a key
EK(ctx, k) == ExpandIri(ctx, k, FALSE, TRUE)
IsKw(t, k) == t = <<"kw", k>>
\* keys that are neither keywords nor contain a colon are dropped
Dropped(t) == t[1] = "null" \/ (t[1] # "kw" /\ ~Contains(t[2], ":"))

TypeOf(d) == IF d.typ[1] = "v" THEN d.typ[2] ELSE ""
Setting(ctx, t, own, def) == IF HasTerm(ctx, t) /\ own[1] # "unset" THEN own ELSE def
LangOf(ctx, t) == IF HasTerm(ctx, t) /\ Def(ctx, t).language[1] # "unset" THEN Def(ctx, t).language ELSE ctx.lang
DirOf(ctx, t) == IF HasTerm(ctx, t) /\ Def(ctx, t).direction[1] # "unset" THEN Def(ctx, t).direction ELSE ctx.dir
WithOpt(f, k, o) == IF IsSome(o) THEN SetF(f, k, JStr(o[2])) ELSE f
IdF(t) == IF t[1] = "null" THEN EmptyF ELSE ("@id" :> JStr(t[2]))

\* Value Expansion
ValueExp(ctx, prop, v) ==
  LET typ == IF HasTerm(ctx, prop) THEN TypeOf(Def(ctx, prop)) ELSE "" IN
  IF IsStr(v) /\ typ = "@id" THEN Obj(IdF(ExpandIri(ctx, v[2], TRUE, FALSE)))
  ELSE IF IsStr(v) /\ typ = "@vocab" THEN Obj(IdF(ExpandIri(ctx, v[2], TRUE, TRUE)))
  ELSE LET f == ("@value" :> v) IN
    IF typ \notin {"", "@id", "@vocab", "@none"} THEN Obj(SetF(f, "@type", JStr(typ)))
    ELSE IF IsStr(v) THEN Obj(WithOpt(WithOpt(f, "@language", LangOf(ctx, prop)), "@direction", DirOf(ctx, prop)))
    ELSE Obj(f)

RECURSIVE Exp(_, _, _, _, _)
RECURSIVE ExpSeq(_, _, _, _, _, _)
RECURSIVE MapExp(_, _, _, _, _)
RECURSIVE Entries(_, _, _, _, _, _, _)
RECURSIVE Nests(_, _, _, _, _, _)
RECURSIVE NestVals(_, _, _, _, _, _, _)

\* an array: 5.2
ExpSeq(X, ctx, prop, s, fm, acc) ==
  IF Len(s) = 0 THEN acc
  ELSE LET r == Exp(X, ctx, prop, Head(s), fm)
           islist == HasTerm(ctx, prop) /\ "@list" \in Def(ctx, prop).container
           its == IF islist /\ r.v[1] = "many" THEN <<Obj("@list" :> JArr(Items(r.v)))>> ELSE Items(r.v)
       IN ExpSeq(X, ctx, prop, Tail(s), fm, [Join2(acc, r) EXCEPT !.v = <<"many", @[2] \o its>>])

Exp_(X, ctx, prop, el, fm) ==
  CASE IsNull(el) -> RNull
    [] IsArr(el) -> ExpSeq(X, ctx, prop, el[2], fm, RMany(<<>>))
    [] IsObj(el) -> MapExp(X, ctx, prop, el, fm)
    [] OTHER ->
         IF prop \in {NoProp, "@graph"} THEN RNull
         ELSE IF Scoped(ctx, prop) THEN
           LET c == PC(X, ctx, Def(ctx, prop).context[2], Def(ctx, prop).base_url, FALSE, TRUE) IN
           [e |-> c.e, alt |-> c.alt, loads |-> c.loads,
            v |-> IF c.e = {} THEN <<"one", ValueExp(c.ctx, prop, el)>> ELSE <<"null">>]
         ELSE ROne(ValueExp(ctx, prop, el))
ExpF == [a \in Any |-> Exp_(a[1], a[2], a[3], a[4], a[5])]
Exp(X, ctx, prop, el, fm) == ExpF[<<X, ctx, prop, el, fm>>]

-----------------------------------------------------------------------------
(* The entries of a map.  The accumulator carries                             *)
(*   f      the result built so far       seen   keywords already set         *)
(*   types  types in order                ts     @type was a single string    *)
(*   nests  <<key, value>> of @nest entries     rv   explicit @reverse seen   *)

Acc0 == [e |-> {}, alt |-> {}, loads |-> {}, f |-> EmptyF, seen |-> {}, types |-> <<>>, ts |-> 0, nests |-> <<>>, it |-> None]

\* language map: 13.7
LangItem(ctx, k, lang, s) ==
  LET f == ("@value" :> s)
      g == IF IsKw(EK(ctx, lang), "@none") THEN f ELSE SetF(f, "@language", JStr(lang))
  IN Obj(WithOpt(g, "@direction", DirOf(ctx, k)))
RECURSIVE LangMap(_, _, _, _)
LangMap(ctx, k, ps, acc) ==
  IF Len(ps) = 0 THEN acc
  ELSE LET lang == Head(ps)[1]
           vs == AsArr(Head(ps)[2])
           bad == \E x \in Range(vs) : ~IsNull(x) /\ ~IsStr(x)
           NN(x) == IsStr(x)
           its == MapSeq(LAMBDA s : LangItem(ctx, k, lang, s), Filter(vs, NN))
       IN LangMap(ctx, k, Tail(ps),
                  [Err(acc, If(bad, {"invalid language map value"})) EXCEPT !.v = <<"many", @[2] \o its>>])

\* index, id, type and graph maps: 13.8
MapItem(X, ac, k, index, item0) ==
  LET cont == Def(ac, k).container
      ei == EK(ac, index)
      none == IsKw(ei, "@none")
      ikey == IF IsSome(Def(ac, k).index) THEN Def(ac, k).index[2] ELSE "@index"
      item == IF "@graph" \in cont /\ ~IsGraphObj(item0) THEN Obj("@graph" :> JArr(<<item0>>)) ELSE item0
      f == item[2]
      Ok(x) == [e |-> {}, alt |-> {}, item |-> x]
  IN
  IF "@index" \in cont /\ ikey # "@index" /\ ~none THEN
    LET p == EK(ac, ikey)
        rv == ValueExp(ac, ikey, JStr(index))
    IN IF ~IsNodeObj(item) THEN [Ok(item) EXCEPT !.e = {"invalid value object"}]
       ELSE IF Dropped(p) \/ p[1] = "kw" THEN Ok(item)
       ELSE Ok(Obj(SetF(f, p[2], <<"a", <<rv>> \o (IF HasF(f, p[2]) THEN f[p[2]][2] ELSE <<>>)>>)))
  ELSE IF "@index" \in cont THEN
    IF ~none /\ ~HasF(f, "@index") THEN Ok(Obj(SetF(f, "@index", JStr(index)))) ELSE Ok(item)
  ELSE IF "@id" \in cont /\ ~none THEN
    IF ~IsNodeObj(item) THEN [Ok(item) EXCEPT !.alt = {"invalid value object", "invalid set or list object"}]
    ELSE IF HasF(f, "@id") THEN Ok(item)
    ELSE LET t == ExpandIri(ac, index, TRUE, FALSE) IN
      IF t[1] = "null" THEN Ok(item) ELSE Ok(Obj(SetF(f, "@id", JStr(t[2]))))
  ELSE IF "@type" \in cont /\ ~none THEN
    IF ~IsNodeObj(item) THEN [Ok(item) EXCEPT !.alt = {"invalid value object", "invalid set or list object", "invalid type value", "invalid typed value"}]
    ELSE IF ei[1] = "null" THEN Ok(item)
    ELSE IF ei[1] = "kw" THEN [Ok(item) EXCEPT !.e = {"invalid type value"}]
    ELSE Ok(Obj(SetF(f, "@type", <<"a", <<JStr(ei[2])>> \o (IF HasF(f, "@type") THEN f["@type"][2] ELSE <<>>)>>)))
  ELSE Ok(item)

RECURSIVE IndexMap(_, _, _, _, _)
IndexMap(X, ac, k, ps, acc) ==
  IF Len(ps) = 0 THEN acc
  ELSE LET index == Head(ps)[1]
           cont == Def(ac, k).container
           mc0 == IF cont \cap {"@id", "@type"} # {} /\ IsSome(ac.prev) THEN ac.prev[2] ELSE ac
           mr == IF "@type" \in cont /\ Scoped(mc0, index)
                 THEN PC(X, mc0, Def(mc0, index).context[2], Def(mc0, index).base_url, FALSE, TRUE)
                 ELSE CtxStart(mc0)
           r == Exp(X, mr.ctx, k, Head(ps)[2], TRUE)
           ms == MapSeq(LAMBDA it : MapItem(X, ac, k, index, it), Items(r.v))
           a1 == Join2(acc, mr)
           a2 == IF mr.e # {} THEN a1
                 ELSE [Join2(a1, r) EXCEPT !.e = @ \cup UNION {m.e : m \in Range(ms)},
                                           !.alt = @ \cup UNION {m.alt : m \in Range(ms)},
                                           !.v = <<"many", @[2] \o MapSeq(LAMBDA m : m.item, ms)>>]
       IN IndexMap(X, ac, k, Tail(ps), a2)

\* the value of a property: a result
PropValue_(X, ac, k, v) ==
  LET d == IF HasTerm(ac, k) THEN Def(ac, k) ELSE EmptyDef
      c == d.container
      r0 == IF TypeOf(d) = "@json" THEN ROne(Obj(("@value" :> Norm(v)) @@ ("@type" :> JStr("@json"))))
            ELSE IF "@language" \in c /\ IsObj(v) THEN LangMap(ac, k, v[2], RMany(<<>>))
            ELSE IF c \cap {"@index", "@type", "@id"} # {} /\ IsObj(v) THEN IndexMap(X, ac, k, v[2], RMany(<<>>))
            ELSE Exp(X, ac, k, v, FALSE)
      r1 == IF r0.v[1] # "null" /\ "@list" \in c /\ ~(r0.v[1] = "one" /\ IsListObj(r0.v[2]))
            THEN [r0 EXCEPT !.v = <<"one", Obj("@list" :> JArr(Items(@)))>>] ELSE r0
      r2 == IF r1.v[1] # "null" /\ "@graph" \in c /\ c \cap {"@id", "@index"} = {}
            THEN [r1 EXCEPT !.v = <<"many", MapSeq(LAMBDA x : Obj("@graph" :> JArr(<<x>>)), Items(@))>>] ELSE r1
  IN r2
PropValueF == [a \in Any |-> PropValue_(a[1], a[2], a[3], a[4])]
PropValue(X, ac, k, v) == PropValueF[<<X, ac, k, v>>]

\* add a reverse property
AddReverse(a, p, its) ==
  LET g == IF HasF(a.f, "@reverse") THEN a.f["@reverse"][2] ELSE EmptyF
      bad == \E x \in Range(its) : ~IsNodeObj(x)
  IN IF bad THEN Err(a, {"invalid reverse property value"})
     ELSE [a EXCEPT !.f = SetF(@, "@reverse", Obj(AddF(g, p, its)))]
RECURSIVE AddReverseMap(_, _, _)
AddReverseMap(a, g, ks) ==
  IF ks = {} THEN a
  ELSE LET k == CHOOSE x \in ks : TRUE IN AddReverseMap(AddReverse(a, k, g[k][2]), g, ks \ {k})
RECURSIVE AddProps(_, _, _)
AddProps(a, g, ks) ==
  IF ks = {} THEN a
  ELSE LET k == CHOOSE x \in ks : TRUE IN AddProps([a EXCEPT !.f = AddF(@, k, g[k][2])], g, ks \ {k})

\* one keyword entry
Keyword(X, ac, tsc, prop, a0, kw, k, v) ==
  LET collides == /\ kw \in a0.seen /\ (X.o.mode = "1.0" \/ kw # "@type") /\ kw # "@included"
                  /\ kw \in {"@id", "@type", "@graph", "@value", "@language", "@direction", "@index", "@list", "@set", "@reverse"}
                  /\ ~(kw = "@direction" /\ X.o.mode = "1.0")
      a1_ == [a0 EXCEPT !.seen = @ \cup {kw}]
      a == IF collides THEN Err(a1_, {"colliding keywords"}) ELSE a1_
      Arr(r) == JArr(Items(r.v))
      Str(code) == IF IsStr(v) THEN [a EXCEPT !.f = SetF(@, kw, v)] ELSE Err(a, {code})
  IN
  IF prop = "@reverse" THEN Err(a, {"invalid reverse property map"})
  ELSE CASE
    kw = "@id" ->
      IF ~IsStr(v) THEN Err(a, {"invalid @id value"})
      ELSE [a EXCEPT !.f = IdF(ExpandIri(ac, v[2], TRUE, FALSE)) @@ @]
    [] kw = "@type" ->
      LET vs == AsArr(v)
          ts == MapSeq(LAMBDA x : ExpandIri(tsc, x[2], TRUE, TRUE), vs)
          NN(t) == t[1] # "null"
      IN IF \E x \in Range(vs) : ~IsStr(x) THEN Err(a, {"invalid type value"})
         ELSE [Alt(a, If(\E t \in Range(ts) : ~NN(t), {"invalid type value"})) EXCEPT !.types = @ \o Filter(ts, NN), !.ts = IF IsStr(v) THEN @ + 1 ELSE 2]
    [] kw = "@graph" ->
      LET r == Exp(X, ac, "@graph", v, FALSE) IN [Join2(a, r) EXCEPT !.f = SetF(@, "@graph", Arr(r))]
    [] kw = "@included" ->
      IF X.o.mode = "1.0" THEN a
      ELSE LET r == Exp(X, ac, "@included", v, FALSE)
               bad == \E x \in Range(Items(r.v)) : ~IsNodeObj(x)
           IN [Join2(Err(a, If(bad, {"invalid @included value"})), r) EXCEPT !.f = AddF(@, "@included", Items(r.v))]
    [] kw = "@value" ->
      IF a.it = Some("json") THEN
        IF X.o.mode = "1.0" THEN Err(a, {"invalid value object value"}) ELSE [a EXCEPT !.f = SetF(@, "@value", v)]
      ELSE IF ~(IsScalar(v) \/ IsNull(v)) THEN Err(a, {"invalid value object value"})
      ELSE [a EXCEPT !.f = SetF(@, "@value", v)]
    [] kw = "@language" -> Str("invalid language-tagged string")
    [] kw = "@direction" ->
      IF X.o.mode = "1.0" THEN a
      ELSE IF v \in {JStr("ltr"), JStr("rtl")} THEN [a EXCEPT !.f = SetF(@, kw, v)]
      ELSE Err(a, {"invalid base direction"})
    [] kw = "@index" -> Str("invalid @index value")
    [] kw = "@list" ->
      IF prop \in {NoProp, "@graph"} THEN a
      ELSE LET r == Exp(X, ac, prop, v, FALSE)
           IN [Join2(a, r) EXCEPT !.f = SetF(@, "@list", Arr(r))]
    [] kw = "@set" ->
      LET r == Exp(X, ac, prop, v, FALSE) IN [Join2(a, r) EXCEPT !.f = SetF(@, "@set", r.v)]
    [] kw = "@reverse" ->
      IF ~IsObj(v) THEN Err(a, {"invalid @reverse value"})
      ELSE LET r == Exp(X, ac, "@reverse", v, FALSE)
               a1 == Join2(a, r)
           IN IF r.v[1] # "one" \/ r.e # {} THEN a1
              ELSE LET g == r.v[2][2]
                       a2 == IF HasF(g, "@reverse") THEN AddProps(a1, g["@reverse"][2], DOMAIN g["@reverse"][2]) ELSE a1
                   IN AddReverseMap(a2, g, DOMAIN g \ {"@reverse"})
    [] kw = "@nest" -> [a EXCEPT !.nests = Append(@, <<k, v>>)]
    [] kw = "@context" -> a0
    [] OTHER -> [Alt(a, {"invalid value object", "invalid set or list object"}) EXCEPT !.seen = a0.seen]

\* step 13 over the entries ps
EntryStep_(X, ac, tsc, prop, k, v, a) ==
  LET t == EK(ac, k) IN IF k = "@context" THEN a
                   ELSE IF Dropped(t) THEN a
                   ELSE IF t[1] = "kw" THEN Keyword(X, ac, tsc, prop, a, t[2], k, v)
                   ELSE LET r == PropValue(X, ac, k, v)
                            a1 == [Join2(a, r) EXCEPT !.seen = @ \cup {"@@property"}]
                        IN IF r.v[1] = "null" THEN a1
                           ELSE IF HasTerm(ac, k) /\ Def(ac, k).reverse THEN AddReverse(a1, t[2], Items(r.v))
                           ELSE [a1 EXCEPT !.f = AddF(@, t[2], Items(r.v))]
EntryStepF == [a \in Any |-> EntryStep_(a[1], a[2], a[3], a[4], a[5], a[6], a[7])]
Entries(X, ac, tsc, prop, fm, ps, a) ==
  IF Len(ps) = 0 THEN a
  ELSE Entries(X, ac, tsc, prop, fm, Tail(ps), EntryStepF[<<X, ac, tsc, prop, Head(ps)[1], Head(ps)[2], a>>])

\* step 14
NestVals(X, ac, tsc, prop, key, vs, a) ==
  IF Len(vs) = 0 THEN a
  ELSE LET v == Head(vs)
           c == IF Scoped(ac, key) THEN PC(X, ac, Def(ac, key).context[2], Def(ac, key).base_url, TRUE, TRUE) ELSE CtxStart(ac)
           a0 == Join2(a, c)
           val == IsObj(v) /\ c.e = {} /\ \E p \in Range(v[2]) : IsKw(EK(c.ctx, p[1]), "@value")
           a1 == IF ~IsObj(v) THEN Err(a0, {"invalid @nest value"})
                 ELSE IF c.e # {} THEN a0
                 ELSE LET Keep(p) == EK(c.ctx, p[1])[1] # "kw" \/ EK(c.ctx, p[1])[2] \notin {"@list", "@set"}
                          es == IF "nest-set" \in Dev THEN Filter(v[2], Keep) ELSE v[2]
                          b == Entries(X, c.ctx, tsc, prop, FALSE, es, [Err(a0, If(val, {"invalid @nest value"})) EXCEPT !.nests = <<>>])
                      IN [Nests(X, c.ctx, tsc, prop, b.nests, b) EXCEPT !.nests = a.nests]
       IN NestVals(X, ac, tsc, prop, key, Tail(vs), a1)
Nests(X, ac, tsc, prop, ns, a) ==
  IF Len(ns) = 0 THEN a
  ELSE Nests(X, ac, tsc, prop, Tail(ns), NestVals(X, ac, tsc, prop, Head(ns)[1], AsArr(Head(ns)[2]), a))

-----------------------------------------------------------------------------
(* Steps 15 to 19: what the entries make                                      *)

TypeStrs(ts) == JArr(MapSeq(LAMBDA t : JStr(t[2]), ts))
Out(a, v) == [e |-> a.e, alt |-> a.alt, loads |-> a.loads, v |-> v]
\* entries that do not belong here may be reported before they are looked at
Misplaced(a, code, allowed) == If(a.seen \ allowed # {}, {code})
ValueObj(X, prop, a) ==
  LET f == a.f
      hasT == "@type" \in a.seen
      hasLD == HasF(f, "@language") \/ HasF(f, "@direction")
      v == IF HasF(f, "@value") THEN f["@value"] ELSE JNull
      extra == DOMAIN f \ {"@direction", "@index", "@language", "@value"}
      one == Len(a.types) = 1 /\ a.ts = 1
      json == one /\ IsKw(a.types[1], "@json")
      g == DropF(f, {"@value"})
      e1 == If(extra # {}, {"invalid value object"}) \cup If(hasT /\ hasLD, {"invalid value object"})
      e2 == IF json \/ IsNull(v) THEN {}
            ELSE If(~IsStr(v) /\ HasF(f, "@language"), {"invalid language-tagged value"})
                 \cup If(hasT /\ ~(one /\ a.types[1][1] = "iri"), {"invalid typed value"})
      alt == If(~IsStr(v) /\ hasLD, {"invalid language-tagged value"})
             \cup If(hasT /\ ~json /\ ~(one /\ a.types[1][1] = "iri"), {"invalid typed value"})
      b == Alt(Err(a, e1 \cup e2), alt \cup Misplaced(a, "invalid value object", {"@value", "@type", "@language", "@direction", "@index"}))
  IN IF prop \in {NoProp, "@graph"} \/ (IsNull(v) /\ ~json) THEN Out(b, <<"null">>)
     ELSE IF json THEN Out(b, <<"one", Obj(("@value" :> Norm(v)) @@ SetF(g, "@type", JStr("@json")))>>)
     ELSE IF hasT /\ one THEN Out(b, <<"one", Obj(("@value" :> v) @@ SetF(g, "@type", JStr(a.types[1][2])))>>)
     ELSE Out(b, <<"one", Obj(("@value" :> v) @@ g)>>)

SetOrList(X, prop, a) ==
  LET f == a.f
      extra == (DOMAIN f \cup If("@type" \in a.seen, {"@type"})) \ {"@index", IF HasF(f, "@set") THEN "@set" ELSE "@list"}
      b == Alt(Err(a, If(extra # {}, {"invalid set or list object"})), Misplaced(a, "invalid set or list object", {"@index", IF HasF(f, "@set") THEN "@set" ELSE "@list"}))
  IN IF HasF(f, "@set") THEN Out(b, f["@set"]) ELSE Out(b, <<"one", Obj(f)>>)

NodeObj(X, prop, a) ==
  LET kwty == \E t \in Range(a.types) : t[1] = "kw"
      b == Err(a, If(kwty, {"invalid type value"}))
      f0 == DropF(a.f, {"@language", "@direction"})
      \* an empty @type is not represented
      f == IF Len(a.types) = 0 THEN f0 ELSE SetF(f0, "@type", TypeStrs(a.types))
      free == prop \in {NoProp, "@graph"}
  IN IF a.seen \cap {"@language", "@direction"} # {} /\ DOMAIN f \subseteq {"@index"} THEN Out(b, <<"null">>)
     ELSE IF free /\ (DOMAIN f = {} \/ DOMAIN f = {"@id"}) THEN Out(b, <<"null">>)
     ELSE Out(b, <<"one", Obj(f)>>)

Finish_(X, prop, a) ==
  LET f == a.f IN
  IF "@value" \in a.seen THEN
    IF HasF(f, "@list") \/ HasF(f, "@set") THEN Out(Err(a, {"invalid value object", "invalid set or list object"}), <<"null">>)
    ELSE ValueObj(X, prop, a)
  ELSE IF HasF(f, "@set") \/ HasF(f, "@list") THEN SetOrList(X, prop, a)
  ELSE NodeObj(X, prop, a)

FinishF == [a \in Any |-> Finish_(a[1], a[2], a[3])]
Finish(X, prop, a) == FinishF[<<X, prop, a>>]

\* steps 7 to 12
RECURSIVE TypeScopes(_, _, _, _)
TypeScopes(X, tsc, r, ts) ==
  IF Len(ts) = 0 \/ r.e # {} THEN r
  ELSE LET t == Head(ts) IN
    TypeScopes(X, tsc,
      IF Scoped(tsc, t) THEN Then(r, PC(X, r.ctx, Def(tsc, t).context[2], Def(tsc, t).base_url, FALSE, FALSE)) ELSE r,
      Tail(ts))
StrsOf(v) == LET P(x) == IsStr(x) IN SortBy(MapSeq(LAMBDA x : x[2], Filter(AsArr(v), P)), StrLt)

MapExp(X, ctx, prop, el, fm) ==
  LET ps == el[2]
      keys == {p[1] : p \in Range(ps)}
      hasValue == \E k \in keys : IsKw(EK(ctx, k), "@value")
      onlyId == Len(ps) = 1 /\ IsKw(EK(ctx, ps[1][1]), "@id")
      c0 == IF IsSome(ctx.prev) /\ ~fm /\ ~hasValue /\ ~onlyId THEN ctx.prev[2] ELSE ctx
      r1 == IF Scoped(ctx, prop)
            THEN PC(X, c0, Def(ctx, prop).context[2], Def(ctx, prop).base_url, TRUE, TRUE) ELSE CtxStart(c0)
      r2 == IF r1.e = {} /\ "@context" \in keys THEN Then(r1, PCDoc(X, r1.ctx, Get(el, "@context"))) ELSE r1
      tsc == r2.ctx
      tkeys == Sorted({k \in keys : IsKw(EK(tsc, k), "@type")})
      r3 == TypeScopes(X, tsc, r2, Flat(MapSeq(LAMBDA k : StrsOf(Get(el, k)), tkeys)))
      ac == r3.ctx
      tv == AsArr(Get(el, tkeys[1]))
      it == IF Len(tkeys) > 0 /\ Len(tv) > 0 /\ IsStr(tv[Len(tv)])
               /\ IsKw(EK(ac, tv[Len(tv)][2]), "@json") THEN Some("json") ELSE None
      a0 == Join2([Acc0 EXCEPT !.it = it], r3)
      a1 == Entries(X, ac, tsc, prop, fm, ps, a0)
      a2 == Nests(X, ac, tsc, prop, a1.nests, a1)
  IN IF r3.e # {} THEN Out(a0, <<"null">>) ELSE Finish(X, prop, a2)

-----------------------------------------------------------------------------
(* The expanded document: [e, alt, loads, v] with v a sequence of items        *)
ExpandDoc(X, ctx, doc) ==
  LET r == Exp(X, ctx, NoProp, doc, FALSE)
      its == IF r.v[1] = "one" /\ DOMAIN r.v[2][2] = {"@graph"} THEN r.v[2][2]["@graph"][2] ELSE Items(r.v)
  IN [r EXCEPT !.v = its]

-----------------------------------------------------------------------------
(* Comparison of expanded documents: arrays are unordered, except in lists and *)
(* JSON literals; @graph, @included and the document itself hold sets.         *)
RECURSIVE Canon(_, _)
\* a reverse property without value says nothing
NonEmptyRev(g) == \E k \in DOMAIN g[2] : g[2][k] # <<"a", <<>>>>
CanonKey(f, k) ==
  CASE k = "@value" -> <<"val", f[k]>>
    [] k = "@list" -> <<"list", MapSeq(LAMBDA x : Canon(x, ""), f[k][2])>>
    [] k = "@reverse" -> <<"o", [x \in {y \in DOMAIN f[k][2] : f[k][2][y] # <<"a", <<>>>>} |-> Canon(f[k][2][x], x)]>>
    [] OTHER -> Canon(f[k], k)
Canon(v, k) ==
  CASE IsObj(v) -> <<"o", [x \in {y \in DOMAIN v[2] : y # "@reverse" \/ NonEmptyRev(v[2][y])} |-> CanonKey(v[2], x)]>>
    [] IsArr(v) -> LET s == MapSeq(LAMBDA x : Canon(x, ""), v[2]) IN
                   IF "set-dedup" \in Dev /\ k \in {"@graph", "@included", "@doc"} THEN <<"set", Range(s)>> ELSE <<"bag", Bag(s)>>
    [] OTHER -> v
CanonDocF == [s \in Any |-> Canon(JArr(s), "@doc")]
CanonDoc(s) == CanonDocF[s]

-----------------------------------------------------------------------------
(* Expanded form: what the output of expansion looks like.                    *)
RECURSIVE WfNode(_)
WfItem(x) ==
  IF IsValueObj(x) THEN
    LET f == x[2] IN
    /\ DOMAIN f \subseteq {"@value", "@type", "@language", "@direction", "@index"}
    /\ HasF(f, "@type") => ~HasF(f, "@language") /\ ~HasF(f, "@direction") /\ IsStr(f["@type"])
    /\ (HasF(f, "@type") /\ f["@type"] = JStr("@json")) \/ IsScalar(f["@value"])
    /\ HasF(f, "@language") => IsStr(f["@value"]) /\ IsStr(f["@language"])
    /\ HasF(f, "@index") => IsStr(f["@index"])
  ELSE IF IsListObj(x) THEN
    /\ DOMAIN x[2] \subseteq {"@list", "@index"} /\ IsArr(x[2]["@list"]) /\ (HasF(x[2], "@index") => IsStr(x[2]["@index"]))
    /\ \A y \in Range(x[2]["@list"][2]) : WfNode(y)
  ELSE IF ~IsObj(x) THEN FALSE
  ELSE \A key \in DOMAIN x[2] :
         LET y == x[2][key] IN
         CASE key \in {"@id", "@index"} -> IsStr(y)
           [] key = "@type" -> IsArr(y) /\ \A z \in Range(y[2]) : IsStr(z) /\ ~IsKeyword(z[2])
           [] key = "@included" -> IsArr(y) /\ \A z \in Range(y[2]) : IsNodeObj(z) /\ WfNode(z)
           \* the standard lets values through in graph containers
           [] key = "@graph" -> IsArr(y) /\ \A z \in Range(y[2]) : WfNode(z)
           [] key = "@reverse" -> IsObj(y) /\ \A p \in DOMAIN y[2] :
                ~IsKeyword(p) /\ Contains(p, ":") /\ IsArr(y[2][p]) /\ \A z \in Range(y[2][p][2]) : IsNodeObj(z) /\ WfNode(z)
           [] OTHER -> ~IsKeyword(key) /\ Contains(key, ":") /\ IsArr(y) /\ \A z \in Range(y[2]) : WfNode(z)
WfNodeF == [x \in Any |-> WfItem(x)]
WfNode(x) == WfNodeF[x]
WellFormedDoc(s) == \A x \in Range(s) : IsNodeObj(x) /\ WfNode(x) /\ x # Obj(EmptyF) /\ DOMAIN x[2] # {"@id"}

-----------------------------------------------------------------------------
(* Expanding an expanded document again, without context or base, changes      *)
(* nothing, but for what says nothing: nodes whose only content *)
(* is an empty @reverse, and values and empty nodes put in a graph by a graph *)
(* container.                                                                 *)
RECURSIVE Untag(_)
UntagF == [v \in Any |->
  CASE IsObj(v) -> JObj(SetSeq({<<key, Untag(v[2][key])>> : key \in DOMAIN v[2]}))
    [] IsArr(v) -> JArr(MapSeq(Untag, v[2]))
    [] OTHER -> v]
Untag(v) == UntagF[v]
ExpandAgain(X, s) == ExpandDoc([X EXCEPT !.burl = None], NewCtx(None), Untag(JArr(s)))

RECURSIVE StripV(_)
RECURSIVE StripItems(_)
StripObj(f) ==
  LET g == Eager([key \in DOMAIN f |-> IF key = "@value" THEN f[key] ELSE StripV(f[key])])
      r == IF HasF(f, "@reverse") /\ \A p \in DOMAIN f["@reverse"][2] : f["@reverse"][2][p][2] = <<>> THEN DropF(g, {"@reverse"}) ELSE g
  IN IF HasF(r, "@graph") THEN SetF(r, "@graph", JArr(StripItems(f["@graph"][2])))
     ELSE r
StripItems(s) ==
  LET P(x) == IsNodeObj(x) /\ ~(DOMAIN StripV(x)[2] \subseteq {"@id", "@index"}) IN MapSeq(StripV, Filter(s, P))
StripVF == [v \in Any |->
  CASE IsObj(v) -> Obj(StripObj(v[2]))
    [] IsArr(v) -> JArr(MapSeq(StripV, v[2]))
    [] OTHER -> v]
StripV(v) == StripVF[v]
Strip(s) == StripItems(s)
=============================================================================
