------------------------------- MODULE MCHttp -------------------------------
(* The HTTP loader against any server: each request is answered by a response  *)
(* of the pool, chosen anew for the first Depth requests and repeated after.   *)
(* The answers given are printed, to be replayed into the implementation.      *)
EXTENDS Http

CONSTANTS Depth, Emit

HUniverse == ndJsonDeserialize(IOEnv.UNIVERSE)[1]
HPool == HUniverse.pool
HUrl == "http://a.example/d/doc"

VARIABLES vConn, vGiven, vCount, vOut
hvars == <<vConn, vGiven, vCount, vOut>>
Init == vConn = HStart(HUrl) /\ vGiven = <<>> /\ vCount = 0 /\ vOut = <<>>
Answer(i) ==
  LET s == HStep(HUniverse.max, vConn, HPool[i]) IN
  /\ vGiven' = IF Len(vGiven) < Depth THEN Append(vGiven, i) ELSE vGiven
  /\ vCount' = vCount + 1
  /\ CASE s.k = "next" -> (\E x \in s.to : vConn' = x) /\ vOut' = vOut
       [] OTHER -> vConn' = vConn /\ vOut' = <<s>>
Next == /\ vOut = <<>>
        /\ IF Len(vGiven) < Depth THEN \E i \in 1..Len(HPool) : Answer(i) ELSE Answer(vGiven[Depth])
Spec == Init /\ [][Next]_hvars /\ WF_hvars(Next)

Printed == IF Emit = "yes" /\ vOut # <<>> THEN PrintT(ToJson(<<vGiven>>)) ELSE TRUE
-----------------------------------------------------------------------------
\* the loader comes to an end, whatever the server does
Ends == <>(vOut # <<>>)
InvBound == vCount <= (HUniverse.max + 1) * (HMaxRedirects + 1)
LastGiven == HPool[vGiven[Len(vGiven)]]
\* a document is only ever made of a good answer
InvSafe == vOut # <<>> /\ vOut[1].k = "ok" =>
  /\ ~LastGiven.broken /\ LastGiven.status = 200 /\ Len(LastGiven.json) = 1 /\ HIsJson(LastGiven.media)
  /\ LastGiven.media # HLd => Len(Filter(LastGiven.links, LAMBDA l : HCtxRel \in Range(l.rel))) <= 1
  /\ \A d \in vOut[1].docs : d.url = Some(vConn.at) \/ \E i \in Range(vGiven) : HPool[i].status = 303
\* a good answer is not refused
InvTaken == vOut # <<>> /\ vOut[1].k = "fail" =>
  \/ LastGiven.broken \/ LastGiven.status # 200 \/ Len(LastGiven.json) = 0 \/ ~HIsJson(LastGiven.media)
  \/ Len(Filter(LastGiven.links, LAMBDA l : HCtxRel \in Range(l.rel))) > 1
=============================================================================
