---------------------------- MODULE CheckCompact ----------------------------
(* Conformance of compaction: the observed compacted document is the one of   *)
(* the specification for the observed expanded document, and expanding it     *)
(* again gives that document back whenever the standard loses nothing.        *)
EXTENDS Compact, CheckExpand

KOpts(e) == [DefaultOpts EXCEPT !.mode = EStr(e, "mode", "1.1"), !.remote = ERemote(e)]
KX(e) == [o |-> KOpts(e), burl |-> BurlOf(e), arrays |-> EBool(e, "compactArrays", TRUE)]
KBase(e) == IF EHas(e, "base") /\ e.base # "" THEN Some(e.base)
            ELSE IF EBool(e, "compactToRelative", TRUE) THEN EOpt(e, "url") ELSE None

CompactEvent(e) ==
  LET X == KX(e)
      l == LoadCtx(X.o, e.ctx)
      p == PC(X, NewCtx(KBase(e)), l.c, X.burl, FALSE, TRUE)
      r == CompactDoc(X, p.ctx, ObsDoc(e.expanded))
  IN IF l.e # {} THEN [KNull EXCEPT !.e = l.e]
     ELSE IF p.e # {} THEN [KNull EXCEPT !.e = p.e, !.alt = p.alt]
     ELSE [r EXCEPT !.alt = @ \cup p.alt]

\* the context a result must carry, if not empty: the possible values
KContexts(e) ==
  LET l == LoadCtx(KOpts(e), e.ctx) IN
  {Norm(l.c)} \cup (IF IsObj(e.ctx) /\ Has(e.ctx, "@ref") THEN {Get(e.ctx, "@ref")} ELSE {})
NoCtx(v) == IsNull(v) \/ v \in {<<"a", <<>>>>, <<"o", EmptyF>>}
KContextOk(e, v) ==
  LET body == DropF(v[2], {"@context"}) IN
  IF HasF(v[2], "@context") THEN DOMAIN body # {} /\ v[2]["@context"] \in KContexts(e)
  ELSE DOMAIN body = {} \/ \E c \in KContexts(e) : NoCtx(c)
KResultOk(e, r) ==
  LET v == Norm(e.res[2]) IN
  IsObj(v) /\ ValOk(Obj(DropF(v[2], {"@context"})), r.v) /\ KContextOk(e, v)

\* what expanding the compacted document v gives, according to the specification
KBackOf(e, v) ==
  LET X == [o |-> KOpts(e), burl |-> BurlOf(e)]
      l == LoadCtx(X.o, e.ctx)
      p == PC(X, NewCtx(ABase(e)), l.c, X.burl, FALSE, TRUE)
  IN ExpandDoc(X, p.ctx, Untag(v))
KFaithful(e, v) == LET b == KBackOf(e, v) IN b.e = {} /\ CanonDoc(b.v) = CanonDoc(ObsDoc(e.expanded))
KLossless(e, r) == KFaithful(e, ConcreteVal(r.v))
\* the standard leaves the relative references open: those chosen may be read with another base
KExcused(e, r) == KResultOk(e, r) /\ ~KFaithful(e, Obj(DropF(Norm(e.res[2])[2], {"@context"})))

CheckCompactEvent(e) ==
  IF ~EHas(e, "res") THEN <<"no result">>
  ELSE IF e.res[1] = "experr" THEN <<>>
  ELSE LET r == CompactEvent(e) IN
    IF e.res[1] = "err" THEN (IF e.res[2] \in r.e \cup r.alt THEN <<>> ELSE <<"error">>)
    ELSE IF e.res[1] # "ok" THEN <<"panic">>
    ELSE IF r.e # {} THEN <<"accepted">>
    ELSE IF r.u THEN <<>>
    ELSE IF EHas(e, "back") THEN
      (IF KLossless(e, r) /\ ~(e.reexp[1] = "ok" /\ CanonDoc(ObsDoc(e.reexp[2])) = CanonDoc(ObsDoc(e.expanded)))
           /\ ~KExcused(e, r)
       THEN <<"lost">> ELSE <<>>)
    ELSE IF ~KResultOk(e, r) THEN <<"compaction">>
    ELSE <<>>
ExpectedCompact(e) == LET r == CompactEvent(e) IN
  <<r.e, r.alt, r.u, r.v, IF r.e = {} /\ ~r.u THEN KLossless(e, r) ELSE FALSE>>
=============================================================================
