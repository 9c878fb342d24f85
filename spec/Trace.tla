------------------------------- MODULE Trace --------------------------------
(* Validation of recorded executions.  Every event is one call of the code    *)
(* with its inputs and its observed result; the trace machine consumes the    *)
(* events (in WORKERS interleaved strands, so that TLC can use its workers)   *)
(* and prints those that the specification rejects.                           *)
EXTENDS CheckCtx, CheckExpand, CheckRdf, CheckFromRdf, CheckCompact, Load, Compare, Expanded, CheckVariants, Http

Events == ndJsonDeserialize(IOEnv.EVENTS)
N == Len(Events)
W == atoi(IOEnv.WORKERS)
Explain_ == IOEnv.EXPLAIN = "1"

Check(e) ==
  IF EHas(e, "crashed") THEN <<"crashed", e.crashed>>
  ELSE CASE e.op = "ctx" -> CheckCtxEvent(e)
         [] e.op = "expand" -> CheckExpandEvent(e)
         [] e.op = "rdf" -> CheckRdfEvent(e)
         [] e.op = "flatten" -> CheckFlattenEvent(e)
         [] e.op = "fromrdf" -> CheckFromRdfEvent(e)
         [] e.op = "compact" -> CheckCompactEvent(e)
         [] e.op = "load" -> CheckLoadEvent(e)
         [] e.op = "compare" -> CheckCompareEvent(e)
         [] e.op = "expjson" -> CheckExpandedEvent(e)
         [] e.op = "http" -> CheckHttpEvent(e)
         [] e.op = "variants" -> CheckVariantsEvent(e)
         [] OTHER -> <<"unknown operation">>
Expected(e, v) ==
  IF EHas(e, "crashed") THEN <<"an answer">>
  ELSE CASE e.op = "ctx" /\ v[1] = "step" -> ExpectedCtx(e, v)
         [] e.op = "expand" -> ExpectedExpand(e)
         [] e.op = "rdf" -> ExpectedRdf(e)
         [] e.op = "flatten" -> ExpectedFlatten(e)
         [] e.op = "fromrdf" -> ExpectedFromRdf(e)
         [] e.op = "compact" -> ExpectedCompact(e)
         [] e.op = "load" -> ExpectedLoad(e)
         [] e.op = "compare" -> ExpectedCompare(e)
         [] e.op = "expjson" -> ExpectedExpanded(e)
         [] e.op = "http" -> ExpectedHttp(e)
         [] e.op = "variants" -> ExpectedVariants(e)
         [] OTHER -> <<>>

VARIABLES vStrand, vIndex
vars == <<vStrand, vIndex>>
Init == vStrand \in 1..W /\ vIndex = vStrand
Next == /\ vIndex <= N
        /\ LET v == Check(Events[vIndex]) IN
           IF v = <<>> THEN TRUE
           ELSE /\ PrintT(ToJson(<<"FAIL", vIndex, v>>))
                /\ IF Explain_ THEN PrintT(ToJson(<<"EXPECTED", vIndex, Expected(Events[vIndex], v)>>)) ELSE TRUE
        /\ vIndex' = vIndex + W
        /\ vStrand' = vStrand
Spec == Init /\ [][Next]_vars
=============================================================================
