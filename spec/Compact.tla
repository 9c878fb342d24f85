------------------------------- MODULE Compact -------------------------------
(* The JSON-LD 1.1 compaction algorithm, as a function from an active context  *)
(* and expanded items (as in Expand) to a JSON value whose objects are         *)
(* functions, together with the inverse context / term selection, IRI          *)
(* compaction and value compaction algorithms.                                 *)
(*                                                                             *)
(* A result is [e, alt, loads, u, v]: e, alt, loads as in Expand; `u` tells    *)
(* that the standard does not define the result (a container map has to be     *)
(* added to a value that is not one); v is the JSON value.                     *)
EXTENDS Expand

Confused == "@@confused"
KErr(s) == If(s = Confused, {"IRI confused with prefix"})

-----------------------------------------------------------------------------
(* Inverse context: under which container, and for which types and languages,  *)
(* a term stands for its IRI                                                   *)
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF Len(ss) = 0 THEN "" ELSE Head(ss) \o ConcatAll(Tail(ss))
KContainer(d) == IF d.container = {} THEN "@none" ELSE ConcatAll(Sorted(d.container))
\* a language and a direction, either of which may be missing
LangDir(l, dir) == (IF IsSome(l) THEN Lower(l[2]) ELSE "") \o (IF IsSome(dir) THEN "_" \o dir[2] ELSE "")
DefLangDir(ctx) == IF ~IsSome(ctx.lang) /\ ~IsSome(ctx.dir) THEN "@none" ELSE LangDir(ctx.lang, ctx.dir)
KLangKeys(ctx, d) ==
  LET l == d.language dir == d.direction IN
  IF d.reverse THEN {}
  ELSE IF TypeOf(d) = "@none" THEN {"@any"}
  ELSE IF TypeOf(d) # "" THEN {}
  ELSE IF l[1] # "unset" /\ dir[1] # "unset" THEN {IF ~IsSome(l) /\ ~IsSome(dir) THEN "@null" ELSE LangDir(l, dir)}
  ELSE IF l[1] # "unset" THEN {IF IsSome(l) THEN Lower(l[2]) ELSE "@null"}
  ELSE IF dir[1] # "unset" THEN {IF IsSome(dir) THEN "_" \o dir[2] ELSE "@none"}
  ELSE {DefLangDir(ctx), "@none"}
KTypeKeys(ctx, d) ==
  IF d.reverse THEN {"@reverse"}
  ELSE IF TypeOf(d) = "@none" THEN {"@any"}
  ELSE IF TypeOf(d) # "" THEN {TypeOf(d)}
  ELSE IF d.language[1] # "unset" \/ d.direction[1] # "unset" THEN {}
  ELSE {"@none"}
KMapped(d) == d.value[1] # "null"
KTermsOf(ctx, var) == SortedShort({t \in DOMAIN ctx.terms : KMapped(ctx.terms[t]) /\ Lexical(ctx.terms[t].value) = var})

\* Term Selection: None or the term
RECURSIVE KPick(_, _, _, _, _, _)
KPick(ctx, ts, keys, prefs, i, j) ==
  IF i > Len(prefs) THEN None
  ELSE IF j > Len(ts) THEN KPick(ctx, ts, keys, prefs, i + 1, 1)
  ELSE IF prefs[i] \in keys[ts[j]] THEN Some(ts[j])
  ELSE KPick(ctx, ts, keys, prefs, i, j + 1)
RECURSIVE KSelect(_, _, _, _, _, _)
KSelect(ctx, ts, conts, tl, prefs, i) ==
  IF i > Len(conts) THEN None
  ELSE LET In(t) == KContainer(ctx.terms[t]) = conts[i]
           cs == Filter(ts, In)
           keys == Eager([t \in Range(cs) |-> CASE tl = "@language" -> KLangKeys(ctx, ctx.terms[t])
                                               [] tl = "@type" -> KTypeKeys(ctx, ctx.terms[t])
                                               [] OTHER -> {"@none"}])
           p == IF cs = <<>> THEN None ELSE KPick(ctx, cs, keys, prefs, 1, 1)
       IN IF IsSome(p) THEN p ELSE KSelect(ctx, ts, conts, tl, prefs, i + 1)

OptOf(f, k) == IF HasF(f, k) THEN Some(f[k][2]) ELSE None
ItemLang(x) == LET f == x[2] IN
  IF ~HasF(f, "@value") THEN "@none"
  ELSE IF HasF(f, "@direction") \/ HasF(f, "@language") THEN LangDir(OptOf(f, "@language"), OptOf(f, "@direction"))
  ELSE IF HasF(f, "@type") THEN "@none" ELSE "@null"
ItemType(x) == LET f == x[2] IN
  IF ~HasF(f, "@value") THEN "@id"
  ELSE IF HasF(f, "@direction") \/ HasF(f, "@language") \/ ~HasF(f, "@type") THEN "@none" ELSE f["@type"][2]
RECURSIVE CommonLang(_, _)
CommonLang(s, c) ==
  IF Len(s) = 0 THEN c
  ELSE LET l == ItemLang(Head(s)) IN
       CommonLang(Tail(s), IF c = "" THEN l ELSE IF l # c /\ HasF(Head(s)[2], "@value") THEN "@none" ELSE c)
RECURSIVE CommonType(_, _)
CommonType(s, c) ==
  IF Len(s) = 0 THEN c
  ELSE LET t == ItemType(Head(s)) IN CommonType(Tail(s), IF c = "" THEN t ELSE IF t # c THEN "@none" ELSE c)

\* A reference to `iri` with regard to `base` is left open: it is "@@rel base iri" here,
\* and stands for every reference that resolves to the IRI.  It must not be absolute
\* when the IRI is in the directory of the base and the rest of it is unproblematic.
RelMark == "@@rel "
RelRest(base, iri) ==
  LET b == Split(base)
      dir == OptStr(b.scheme, "", ":") \o OptStr(b.auth, "//", "") \o SubSeq(b.path, 1, RFind(b.path, "/"))
  IN IF ~IsSome(b.auth) \/ b.path = "" \/ ~StartsWith(iri, dir) \/ Len(iri) = Len(dir) THEN None ELSE Some(Tail1(iri, Len(dir) + 1))
MustBeRel(base, iri) == LET r == RelRest(base, iri) IN
  /\ IsSome(r)
  /\ LET p == Split("/" \o r[2]).path IN
     /\ p # "/" /\ Find(p, "//") = 0 /\ Find(p, ":") = 0 /\ RemoveDots(p) = p
     /\ p # SubSeq(Split(base).path, RFind(Split(base).path, "/"), Len(Split(base).path))
     /\ ~KeywordLike(r[2])
\* r is a reference to iri that an expansion takes for one
IsRelOf(base, iri, r) ==
  IF IsIri(r) THEN r = iri /\ ~MustBeRel(base, iri)
  ELSE IsIriRef(r) /\ ~KeywordLike(r) /\ ~IsBlank(r) /\ Resolve(base, r) = iri
\* one such reference
SomeRel(base, iri) == IF MustBeRel(base, iri) THEN RelRest(base, iri)[2] ELSE iri

-----------------------------------------------------------------------------
(* IRI compaction.  `val` is JNull or an expanded item; the result is a string  *)
(* (possibly "@@rel ...") or Confused.                                          *)
\* terms whose IRI mapping is a proper prefix of var and that may be used as prefixes
KPrefixes(ctx, var) == {t \in DOMAIN ctx.terms : LET d == ctx.terms[t] m == Lexical(d.value) IN
  KMapped(d) /\ d.prefix /\ m # var /\ StartsWith(var, m)}

\* what matches a string of the specification
RelSplit(x) == LET y == Tail1(x, Len(RelMark) + 1) i == Find(y, " ") IN <<SubSeq(y, 1, i - 1), Tail1(y, i + 1)>>
StrOk(o, x) == IF StartsWith(x, RelMark) THEN LET p == RelSplit(x) IN IsRelOf(p[1], p[2], o) ELSE o = x
Concrete(x) == IF StartsWith(x, RelMark) THEN LET p == RelSplit(x) IN SomeRel(p[1], p[2]) ELSE x
RECURSIVE ValOk(_, _)
ValOk(o, x) ==
  IF IsStr(x) THEN IsStr(o) /\ StrOk(o[2], x[2])
  ELSE IF IsArr(x) THEN IsArr(o) /\ Len(o[2]) = Len(x[2]) /\ \A i \in 1..Len(x[2]) : ValOk(o[2][i], x[2][i])
  ELSE IF IsObj(x) THEN IsObj(o) /\ Cardinality(DOMAIN o[2]) = Cardinality(DOMAIN x[2])
       /\ \A k \in DOMAIN x[2] : \E j \in DOMAIN o[2] : StrOk(j, k) /\ ValOk(o[2][j], x[2][k])
  ELSE o = x
RECURSIVE ConcreteVal(_)
ConcreteVal(x) ==
  IF IsStr(x) THEN JStr(Concrete(x[2]))
  ELSE IF IsArr(x) THEN JArr(MapSeq(ConcreteVal, x[2]))
  ELSE IF IsObj(x) THEN
    LET ks == Eager([j \in {Concrete(k) : k \in DOMAIN x[2]} |-> CHOOSE k \in DOMAIN x[2] : Concrete(k) = j])
    IN Obj(Eager([j \in DOMAIN ks |-> ConcreteVal(x[2][ks[j]])]))
  ELSE x

RECURSIVE KCI(_, _, _, _, _, _)
KCI_(mode, ctx, var, val, vocab, rev) ==
  LET f == IF IsObj(val) THEN val[2] ELSE EmptyF
      idx == HasF(f, "@index")
      v11 == mode # "1.0"
      ts == IF vocab THEN KTermsOf(ctx, var) ELSE <<>>
      lst == IsListObj(val)
      ls == f["@list"][2]
      graph == IsGraphObj(val)
      ct == IF ls = <<>> THEN "@none" ELSE CommonType(ls, "")
      cl == IF ls = <<>> THEN DefLangDir(ctx) ELSE CommonLang(ls, "")
      hasdir == HasF(f, "@direction") \/ HasF(f, "@language")
      c0 == IF idx /\ ~graph THEN <<"@index", "@index@set">> ELSE <<>>
      \* [type/language, its value, containers]
      s == IF rev THEN <<"@type", "@reverse", <<"@set">>>>
           ELSE IF lst THEN <<IF ct # "@none" THEN "@type" ELSE "@language", IF ct # "@none" THEN ct ELSE cl,
                              IF idx THEN <<>> ELSE <<"@list">>>>
           ELSE IF graph THEN <<"@type", "@id",
             (IF idx THEN <<"@graph@index", "@graph@index@set">> ELSE <<>>)
             \o (IF HasF(f, "@id") THEN <<"@graph@id", "@graph@id@set">> ELSE <<>>)
             \o <<"@graph", "@graph@set", "@set">>
             \o (IF idx THEN <<>> ELSE <<"@graph@index", "@graph@index@set">>)
             \o (IF HasF(f, "@id") THEN <<>> ELSE <<"@graph@id", "@graph@id@set">>)
             \o <<"@index", "@index@set">> >>
           ELSE IF IsValueObj(val) THEN
             (IF hasdir /\ ~idx THEN <<"@language", LangDir(OptOf(f, "@language"), OptOf(f, "@direction")),
                 (IF HasF(f, "@direction") THEN <<>> ELSE <<"@language", "@language@set">>) \o <<"@set">> >>
              ELSE IF HasF(f, "@type") THEN <<"@type", f["@type"][2], <<"@set">> >>
              ELSE <<"@language", "@null", <<"@set">> >>)
           ELSE <<"@type", "@id", <<"@id", "@id@set", "@type", "@set@type", "@set">> >>
      conts == c0 \o s[3] \o <<"@none">>
               \o (IF v11 /\ ~idx THEN <<"@index", "@index@set">> ELSE <<>>)
               \o (IF v11 /\ DOMAIN f = {"@value"} THEN <<"@language", "@language@set">> ELSE <<>>)
      idv == f["@id"][2]
      byterm == LET t == KCI(mode, ctx, idv, JNull, TRUE, FALSE) IN
                HasTerm(ctx, t) /\ KMapped(Def(ctx, t)) /\ Lexical(Def(ctx, t).value) = idv
      prefs0 == (IF s[2] = "@reverse" THEN <<"@reverse">> ELSE <<>>)
                \o (IF s[2] \in {"@id", "@reverse"} /\ s[1] = "@type" /\ HasF(f, "@id")
                    THEN (IF byterm THEN <<"@vocab", "@id", "@none">> ELSE <<"@id", "@vocab", "@none">>)
                    ELSE <<s[2], "@none">>)
                \o <<"@any">>
      us == FindFrom(s[2], "_", 1)
      prefs == prefs0 \o (IF s[1] = "@language" /\ us > 1 THEN <<Tail1(s[2], us)>> ELSE <<>>)
      tl == IF lst /\ ls = <<>> THEN "@any" ELSE s[1]
      term == IF ts = <<>> THEN None ELSE KSelect(ctx, ts, conts, tl, prefs, 1)
      vm == Lexical(ctx.vocab)
      suffix == Tail1(var, Len(vm) + 1)
      ps == KPrefixes(ctx, var)
      cands == {c \in {t \o ":" \o Tail1(var, Len(Lexical(ctx.terms[t].value)) + 1) : t \in ps} :
                  ~HasTerm(ctx, c) \/ (KMapped(Def(ctx, c)) /\ Lexical(Def(ctx, c).value) = var /\ IsNull(val))}
  IN IF IsSome(term) THEN term[2]
     ELSE IF vocab /\ ctx.vocab[1] # "null" /\ StartsWith(var, vm) /\ Len(var) > Len(vm) /\ ~HasTerm(ctx, suffix) THEN suffix
     ELSE IF cands # {} THEN SortedShort(cands)[1]
     ELSE IF IsIri(var) /\ ~IsSome(Split(var).auth)
             /\ HasTerm(ctx, Split(var).scheme[2]) /\ Def(ctx, Split(var).scheme[2]).prefix THEN Confused
     ELSE IF ~vocab /\ IsSome(ctx.base) /\ IsIri(var) THEN RelMark \o ctx.base[2] \o " " \o var
     ELSE var
KCIF == [a \in Any |-> KCI_(a[1], a[2], a[3], a[4], a[5], a[6])]
KCI(mode, ctx, var, val, vocab, rev) == KCIF[<<mode, ctx, var, val, vocab, rev>>]
CI(X, ctx, var, val, vocab, rev) == KCI(X.o.mode, ctx, var, val, vocab, rev)
KAlias(X, ctx, kw) == CI(X, ctx, kw, JNull, TRUE, FALSE)

-----------------------------------------------------------------------------
KNull == [e |-> {}, alt |-> {}, loads |-> {}, u |-> FALSE, v |-> JNull]
KJoin(a, r) == [a EXCEPT !.e = @ \cup r.e, !.alt = @ \cup r.alt, !.loads = @ \cup r.loads, !.u = @ \/ r.u]
KFail(a, s) == [a EXCEPT !.e = @ \cup KErr(s)]
KCont(ctx, t) == IF HasTerm(ctx, t) THEN Def(ctx, t).container ELSE {}

\* add value
RECURSIVE KAdd(_, _, _, _)
RECURSIVE KAddAll(_, _, _, _)
KAdd(f0, k, v, asarr) ==
  LET f == IF ~asarr THEN f0
           ELSE IF ~HasF(f0, k) THEN SetF(f0, k, JArr(<<>>))
           ELSE IF ~IsArr(f0[k]) THEN SetF(f0, k, JArr(<<f0[k]>>)) ELSE f0
  IN IF IsArr(v) THEN KAddAll(f, k, v[2], asarr)
     ELSE IF ~HasF(f, k) THEN SetF(f, k, v)
     ELSE SetF(f, k, JArr((IF IsArr(f[k]) THEN f[k][2] ELSE <<f[k]>>) \o <<v>>))
KAddAll(f, k, vs, asarr) == IF Len(vs) = 0 THEN f ELSE KAddAll(KAdd(f, k, Head(vs), asarr), k, Tail(vs), asarr)

\* Value compaction of a value object
SameTag(f, k, o) == IF HasF(f, k) THEN IsSome(o) /\ Lower(f[k][2]) = Lower(o[2]) ELSE ~IsSome(o)
KValue(X, ctx, prop, x) ==
  LET f == x[2]
      typ == IF HasTerm(ctx, prop) THEN TypeOf(Def(ctx, prop)) ELSE ""
      keep == HasF(f, "@index") /\ "@index" \notin KCont(ctx, prop)
      plain == IF HasF(f, "@type") THEN typ = f["@type"][2]
               ELSE IF typ # "" THEN FALSE
               ELSE ~IsStr(f["@value"]) \/ (SameTag(f, "@language", LangOf(ctx, prop)) /\ SameTag(f, "@direction", DirOf(ctx, prop)))
      ks == SetSeq(DOMAIN f \ (IF keep THEN {} ELSE {"@index"}))
      dt == IF HasF(f, "@type") THEN CI(X, ctx, f["@type"][2], JNull, TRUE, FALSE) ELSE ""
      al == Eager([k \in Range(ks) |-> KAlias(X, ctx, k)])
      inv == Eager([a \in Range(al) |-> CHOOSE k \in Range(ks) : al[k] = a])
  IN IF plain /\ ~keep THEN [KNull EXCEPT !.v = f["@value"]]
     ELSE [KNull EXCEPT !.e = KErr(dt),
            !.v = Obj(Eager([a \in Range(al) |-> IF inv[a] = "@type" THEN JStr(dt) ELSE f[inv[a]]]))]

RECURSIVE KMap(_, _, _, _)
RECURSIVE KSeq(_, _, _, _, _)
RECURSIVE KItems(_, _, _, _, _, _)
RECURSIVE KEntries(_, _, _, _, _, _, _, _)

KPC(c) == [e |-> c.e, alt |-> c.alt, loads |-> c.loads, u |-> FALSE]

\* an array of expanded items
KSeq(X, ac, prop, s, acc) ==
  IF Len(s) > 0 THEN
    LET r == KMap(X, ac, prop, Head(s)) IN
    KSeq(X, ac, prop, Tail(s), [KJoin(acc, r) EXCEPT !.v = IF IsNull(r.v) THEN @ ELSE Append(@, r.v)])
  ELSE IF Len(acc.v) # 1 \/ ~X.arrays \/ prop \in {"@graph", "@set"} \/ KCont(ac, prop) \cap {"@list", "@set"} # {}
  THEN [acc EXCEPT !.v = JArr(acc.v)]
  ELSE [acc EXCEPT !.v = acc.v[1]]
KArr(X, ac, prop, s) == KSeq(X, ac, prop, s, [KNull EXCEPT !.v = <<>>])

RECURSIVE KTypes(_, _, _, _)
KTypes(X, tsc, ts, c) ==
  IF Len(ts) = 0 \/ c.e # {} THEN c
  ELSE IF ~Scoped(tsc, Head(ts)) THEN KTypes(X, tsc, Tail(ts), c)
  ELSE LET d == Def(tsc, Head(ts)) IN
       KTypes(X, tsc, Tail(ts), Then(c, PC(X, c.ctx, d.context[2], d.base_url, FALSE, FALSE)))

KMap_(X, tsc, prop, el) ==
  LET f == el[2]
      ac1 == IF IsSome(tsc.prev) /\ ~HasF(f, "@value") /\ DOMAIN f # {"@id"} THEN tsc.prev[2] ELSE tsc
      c1 == IF Scoped(tsc, prop) THEN PC(X, ac1, Def(tsc, prop).context[2], Def(tsc, prop).base_url, TRUE, TRUE)
            ELSE CtxStart(ac1)
      ac2 == c1.ctx
      typ == IF HasTerm(ac2, prop) THEN TypeOf(Def(ac2, prop)) ELSE ""
      Fin(r) == [r EXCEPT !.alt = @ \cup c1.alt, !.loads = @ \cup c1.loads]
  IN IF c1.e # {} THEN [KNull EXCEPT !.e = c1.e, !.alt = c1.alt, !.loads = c1.loads]
     ELSE IF IsValueObj(el) THEN Fin(KValue(X, ac2, prop, el))
     ELSE IF HasF(f, "@id") /\ DOMAIN f \subseteq {"@id", "@index"} /\ typ \in {"@id", "@vocab"}
          THEN LET s == CI(X, ac2, f["@id"][2], JNull, typ = "@vocab", FALSE) IN Fin([KNull EXCEPT !.v = JStr(s), !.e = KErr(s)])
     ELSE IF IsListObj(el) /\ "@list" \in KCont(ac2, prop) THEN Fin(KArr(X, ac2, prop, f["@list"][2]))
     ELSE LET tys == IF HasF(f, "@type") THEN f["@type"][2] ELSE <<>>
              ctys == MapSeq(LAMBDA t : CI(X, tsc, t[2], JNull, TRUE, FALSE), tys)
              bad == UNION {KErr(s) : s \in Range(ctys)}
              c2 == KTypes(X, tsc, SortBy(ctys, StrLt), [c1 EXCEPT !.e = @ \cup bad])
          IN IF c2.e # {} THEN [KNull EXCEPT !.e = c2.e, !.alt = c2.alt, !.loads = c2.loads]
             ELSE LET a == KEntries(X, c2.ctx, tsc, prop, f, SetSeq(DOMAIN f), ctys,
                                    [e |-> {}, alt |-> c2.alt, loads |-> c2.loads, u |-> FALSE, v |-> EmptyF])
                  IN [a EXCEPT !.v = Obj(a.v)]
KMapF == [a \in Any |-> KMap_(a[1], a[2], a[3], a[4])]
KMap(X, tsc, prop, el) == KMapF[<<X, tsc, prop, el>>]

\* the reverse properties among the entries of the compacted @reverse map
RECURSIVE KRevAdd(_, _, _, _, _)
KRevAdd(X, ac, g, ks, f) ==
  IF ks = {} THEN f
  ELSE LET k == CHOOSE x \in ks : TRUE IN
       KRevAdd(X, ac, g, ks \ {k}, KAdd(f, k, g[k], "@set" \in KCont(ac, k) \/ ~X.arrays))

KEntries(X, ac, tsc, prop, f, ks, ctys, a) ==
  IF Len(ks) = 0 THEN a
  ELSE LET k == Head(ks)
           Put(key, v) == [a EXCEPT !.v = SetF(@, KAlias(X, ac, key), v)]
           next ==
             CASE k = "@id" -> LET s == CI(X, ac, f[k][2], JNull, FALSE, FALSE) IN KFail(Put(k, JStr(s)), s)
               [] k = "@type" ->
                    LET al == KAlias(X, ac, k)
                        asarr == (X.o.mode # "1.0" /\ "@set" \in KCont(ac, al)) \/ ~X.arrays
                    IN IF ctys = <<>> THEN a ELSE [a EXCEPT !.v = KAdd(@, al, JArr(MapSeq(JStr, ctys)), asarr)]
               [] k = "@reverse" ->
                    LET ac1 == IF IsSome(ac.prev) THEN ac.prev[2] ELSE ac
                        g == f[k][2]
                        r == KItems(X, ac1, SetSeq(DOMAIN g), g, TRUE, [a EXCEPT !.v = EmptyF])
                        rv == {p \in DOMAIN r.v : HasTerm(ac, p) /\ Def(ac, p).reverse}
                        rest == DropF(r.v, rv)
                        b == [r EXCEPT !.v = KRevAdd(X, ac, r.v, rv, a.v)]
                    IN IF DOMAIN rest = {} THEN b ELSE [b EXCEPT !.v = SetF(@, KAlias(X, ac, k), Obj(rest))]
               [] k = "@index" -> IF "@index" \in KCont(ac, prop) THEN a ELSE Put(k, f[k])
               [] OTHER -> KItems(X, ac, <<k>>, f, FALSE, a)
       IN KEntries(X, ac, tsc, prop, f, Tail(ks), ctys, next)

\* the nest entry under which a term is put: None, Some(term), or <<"bad">>
KNest(ac, t) ==
  IF ~HasTerm(ac, t) \/ Def(ac, t).nest[1] # "v" THEN None
  ELSE LET n == Def(ac, t).nest[2] IN
       IF n = "@nest" \/ IsKw(EK(ac, n), "@nest") THEN Some(n) ELSE <<"bad">>

RECURSIVE KPropItems(_, _, _, _, _, _)
\* the properties ks of g
KItems(X, ac, ks, g, inrev, a) ==
  IF Len(ks) = 0 THEN a
  ELSE LET k == Head(ks) its == g[k][2]
           b == IF its # <<>> THEN KPropItems(X, ac, k, its, inrev, a)
                ELSE LET t == CI(X, ac, k, JNull, TRUE, inrev)
                         n == KNest(ac, t)
                         h == IF IsSome(n) /\ HasF(a.v, n[2]) THEN a.v[n[2]][2] ELSE IF IsSome(n) THEN EmptyF ELSE a.v
                         h2 == KAdd(h, t, JArr(<<>>), TRUE)
                     IN IF n[1] = "bad" THEN [a EXCEPT !.e = @ \cup {"invalid @nest value"}]
                        ELSE KFail(IF IsSome(n) THEN [a EXCEPT !.v = SetF(@, n[2], Obj(h2))] ELSE [a EXCEPT !.v = h2], t)
       IN KItems(X, ac, Tail(ks), g, inrev, b)

\* take the first value of entry k of the map v, if a string: [key, rest]
KTakeFirst(v, k) ==
  IF ~IsObj(v) \/ ~HasF(v[2], k) THEN [key |-> None, v |-> v]
  ELSE LET s == AsArr(v[2][k]) IN
       IF s = <<>> \/ ~IsStr(s[1]) THEN [key |-> None, v |-> v]
       ELSE [key |-> Some(s[1][2]),
             v |-> Obj(IF Len(s) = 1 THEN DropF(v[2], {k}) ELSE SetF(v[2], k, IF Len(s) = 2 THEN s[2] ELSE JArr(Tail(s))))]

\* one item: [r: the accumulated errors, h: the (nest) result]
KItem(X, ac, t, item, h) ==
  LET cont == KCont(ac, t)
      d == IF HasTerm(ac, t) THEN Def(ac, t) ELSE EmptyDef
      asarr == "@set" \in cont \/ t \in {"@graph", "@list"} \/ ~X.arrays
      f == item[2]
      graph == IsGraphObj(item)
      lst == IsListObj(item)
      r == IF lst THEN KArr(X, ac, t, f["@list"][2])
           ELSE IF graph THEN KArr(X, ac, t, f["@graph"][2])
           ELSE KMap(X, ac, t, item)
      Out2(rr, hh) == [r |-> rr, h |-> hh]
      idx(g) == IF HasF(f, "@index") THEN SetF(g, KAlias(X, ac, "@index"), f["@index"]) ELSE g
      \* add v under key to the map object in entry t
      InMap(rr, key, v) ==
        IF HasF(h, t) /\ ~IsObj(h[t]) THEN Out2([rr EXCEPT !.u = TRUE], h)
        ELSE LET m == IF HasF(h, t) THEN h[t][2] ELSE EmptyF
             IN Out2(KFail(rr, key), SetF(h, t, Obj(KAdd(m, key, v, asarr))))
      none == KAlias(X, ac, "@none")
      simple == DOMAIN f \subseteq {"@graph", "@index"}
  IN IF lst THEN
       LET v == IF IsArr(r.v) THEN r.v ELSE JArr(<<r.v>>) IN
       IF "@list" \in cont THEN Out2(r, SetF(h, t, v))
       ELSE Out2(r, KAdd(h, t, Obj(idx(KAlias(X, ac, "@list") :> v)), asarr))
     ELSE IF graph THEN
       IF {"@graph", "@id"} \subseteq cont
       THEN InMap(r, IF HasF(f, "@id") THEN CI(X, ac, f["@id"][2], JNull, FALSE, FALSE) ELSE none, r.v)
       ELSE IF {"@graph", "@index"} \subseteq cont /\ simple
       THEN InMap(r, IF HasF(f, "@index") THEN f["@index"][2] ELSE none, r.v)
       ELSE IF "@graph" \in cont /\ simple
       THEN Out2(r, KAdd(h, t, IF IsArr(r.v) /\ Len(r.v[2]) > 1 THEN Obj(KAlias(X, ac, "@included") :> r.v) ELSE r.v, asarr))
       ELSE LET id == CI(X, ac, f["@id"][2], JNull, FALSE, FALSE)
                g0 == KAlias(X, ac, "@graph") :> r.v
                g1 == IF HasF(f, "@id") THEN SetF(g0, KAlias(X, ac, "@id"), JStr(id)) ELSE g0
            IN Out2(IF HasF(f, "@id") THEN KFail(r, id) ELSE r, KAdd(h, t, Obj(idx(g1)), asarr))
     ELSE IF "@graph" \notin cont /\ cont \cap {"@language", "@index", "@id", "@type"} # {} THEN
       LET kk == IF "@language" \in cont THEN "@language" ELSE IF "@index" \in cont THEN "@index"
                 ELSE IF "@id" \in cont THEN "@id" ELSE "@type"
           ikey0 == IF kk = "@index" /\ IsSome(d.index) THEN CI(X, ac, d.index[2], JNull, TRUE, FALSE) ELSE ""
           ikey == IF ikey0 = Confused THEN d.index[2] ELSE ikey0     \* an index mapping may be a compact IRI
           ck == KAlias(X, ac, kk)
           m == CASE kk = "@language" -> [key |-> OptOf(f, "@language"), v |-> IF HasF(f, "@value") THEN f["@value"] ELSE r.v]
                  [] kk = "@index" /\ ~IsSome(d.index) -> [key |-> OptOf(f, "@index"), v |-> r.v]
                  [] kk = "@index" -> KTakeFirst(r.v, ikey)
                  [] kk = "@id" -> IF IsObj(r.v) /\ HasF(r.v[2], ck) THEN [key |-> Some(r.v[2][ck][2]), v |-> Obj(DropF(r.v[2], {ck}))]
                                   ELSE [key |-> None, v |-> r.v]
                  [] OTHER -> KTakeFirst(r.v, ck)
           onlyid == kk = "@type" /\ IsObj(m.v) /\ Cardinality(DOMAIN m.v[2]) = 1 /\ HasF(f, "@id")
                     /\ \A x \in DOMAIN m.v[2] : IsKw(EK(ac, x), "@id")
           r2 == IF onlyid THEN KMap(X, ac, t, Obj("@id" :> f["@id"])) ELSE r
           rr == IF onlyid THEN KJoin(r, r2) ELSE r
       IN InMap(rr, IF IsSome(m.key) THEN m.key[2] ELSE none, IF onlyid THEN r2.v ELSE m.v)
     ELSE Out2(r, KAdd(h, t, r.v, asarr))

KPropItems(X, ac, k, its, inrev, a) ==
  IF Len(its) = 0 THEN a
  ELSE LET item == Head(its)
           t == CI(X, ac, k, item, TRUE, inrev)
           n == KNest(ac, t)
           h == IF ~IsSome(n) THEN a.v ELSE IF HasF(a.v, n[2]) THEN a.v[n[2]][2] ELSE EmptyF
           x == KItem(X, ac, t, item, h)
           \* selecting a term for a reference compacts its IRI first, which may be refused
           conf == HasF(item[2], "@id") /\ CI(X, ac, item[2]["@id"][2], JNull, TRUE, FALSE) = Confused
           b == LET j == KJoin(a, x.r) IN IF conf THEN [j EXCEPT !.alt = @ \cup KErr(Confused)] ELSE j
           c == IF t = Confused THEN KFail(a, t)
                ELSE IF n[1] = "bad" THEN [b EXCEPT !.e = @ \cup {"invalid @nest value"}]
                ELSE [b EXCEPT !.v = IF IsSome(n) THEN SetF(@, n[2], Obj(x.h)) ELSE x.h]
       IN KPropItems(X, ac, k, Tail(its), inrev, c)

\* the whole document: X has arrays (compactArrays); result without @context
CompactDoc(X, ctx, items) ==
  LET r == KArr(X, ctx, NoProp, items) g == KAlias(X, ctx, "@graph") IN
  IF IsArr(r.v) THEN [r EXCEPT !.v = Obj(IF r.v[2] = <<>> THEN EmptyF ELSE g :> r.v)] ELSE r
=============================================================================
