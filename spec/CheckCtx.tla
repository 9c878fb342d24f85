------------------------------ MODULE CheckCtx ------------------------------
(* Conformance of context processing: the active contexts the code reached    *)
(* against the ones the specification computes, step by step.                 *)
EXTENDS Ctx, Event

Bool(s) == s = "true"
DefOf(d) ==
  IF d.kind = "type" THEN TypeDef(Bool(d.protected))
  ELSE [kind |-> "term", value |-> d.value, prefix |-> Bool(d.prefix), protected |-> Bool(d.protected),
        reverse |-> Bool(d.reverse), base_url |-> d.base_url, context |-> Norm2(d.context),
        container |-> Range(d.container), direction |-> d.direction, index |-> d.index,
        language |-> d.language, nest |-> d.nest, typ |-> d.typ]
RECURSIVE CtxOf(_)
CtxOf(d) == [base |-> d.base, obase |-> d.obase, vocab |-> d.vocab, lang |-> d.lang, dir |-> d.dir,
             prev |-> IF IsSome(d.prev) THEN Some(CtxOf(d.prev[2])) ELSE None,
             terms |-> [t \in {p[1] : p \in Range(d.terms)} |-> DefOf(GetP(d.terms, t, 1))]]
RECURSIVE NormCtx(_)
NormCtx(c) == [c EXCEPT !.prev = IF IsSome(@) THEN Some(NormCtx(@[2])) ELSE None,
                        !.terms = [t \in DOMAIN @ |-> [@[t] EXCEPT !.context = Norm2(@)]]]

\* one step: does the observed result agree with the specification's?
StepOk(act, st, obs, e, rev) ==
  LET o == [DefaultOpts EXCEPT !.mode = EStr(e, "mode", "1.1"), !.over = EBool(st, "override", FALSE),
                               !.prop = EBool(st, "propagate", TRUE), !.rev = rev, !.remote = ERemote(e)]
      r == ProcessLocal(act, st.c, EOpt(st, "curl"), o)
  IN IF obs.res[1] = "parse" THEN [ok |-> ShapeErrors(st.c) # {}, ctx |-> act]
     ELSE IF obs.res[1] = "err" THEN [ok |-> obs.res[2] \in r.e \cup r.alt, ctx |-> act]
     ELSE IF obs.res[1] # "ok" THEN [ok |-> FALSE, ctx |-> act]
     ELSE IF r.e # {} THEN [ok |-> FALSE, ctx |-> act]
     ELSE [ok |-> CtxOf(obs.res[2]) = NormCtx(r.ctx) /\ Dedup(obs.loads) = Dedup(r.loads), ctx |-> r.ctx]

RECURSIVE Steps(_, _, _)
Steps(act, e, k) ==
  IF k > Len(e.steps) THEN 0
  ELSE LET a == StepOk(act, e.ctxs[k], e.steps[k], e, FALSE)
           b == IF a.ok THEN a ELSE StepOk(act, e.ctxs[k], e.steps[k], e, TRUE)
       IN IF ~b.ok THEN k ELSE Steps(b.ctx, e, k + 1)

Explain(e) == LET k == Steps(NewCtx(EOpt(e, "base")), e, 1) IN
  IF k = 0 THEN <<>> ELSE <<"step", k>>
CheckCtxEvent(e) == IF "steps" \notin DOMAIN e THEN <<"no result">> ELSE Explain(e)

\* what the specification expects at the failing step (for reports)
RECURSIVE Fold(_, _, _, _)
Fold(act, e, k, n) ==
  LET st == e.ctxs[k]
      o == [DefaultOpts EXCEPT !.mode = EStr(e, "mode", "1.1"), !.over = EBool(st, "override", FALSE),
                               !.prop = EBool(st, "propagate", TRUE), !.remote = ERemote(e)]
      r == ProcessLocal(act, st.c, EOpt(st, "curl"), o)
  IN IF k = n THEN r ELSE Fold(r.ctx, e, k + 1, n)
ExpectedCtx(e, v) == Fold(NewCtx(EOpt(e, "base")), e, 1, v[2])
=============================================================================
