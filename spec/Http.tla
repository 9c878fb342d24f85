-------------------------------- MODULE Http --------------------------------
(* Loading a remote document over HTTP: what the loader does with each         *)
(* response of the server (JSON-LD API, LoadDocumentCallback).                 *)
EXTENDS Expand, Event

HRedirects == {301, 302, 303, 307, 308}
HMaxRedirects == 10          \* of the HTTP client
HLd == "application/ld+json"
HCtxRel == "http://www.w3.org/ns/json-ld#context"
HIsJson(media) == media = "application/json" \/ (Len(media) > 5 /\ Tail1(media, Len(media) - 4) = "+json")

HStart2(url, hops) == [at |-> url, doc |-> {url}, hops |-> hops, redirs |-> 0]
HStart(url) == HStart2(url, 0)
HFail == [k |-> "fail"]
\* m: the request being answered: its URL, the URL of the document that would come of it
\* (after a 303 redirect, either), the alternates followed, and the redirects since
HStep(max, m, r) ==
  LET ctxs == Filter(r.links, LAMBDA l : HCtxRel \in Range(l.rel))
      alts == Filter(r.links, LAMBDA l : "alternate" \in Range(l.rel) /\ l.type = HLd)
  IN IF r.broken THEN HFail
     ELSE IF r.status \in HRedirects /\ r.location # "" THEN
       IF m.redirs >= HMaxRedirects THEN HFail
       ELSE LET to == Resolve(m.at, r.location) IN
            [k |-> "next", to |-> {[at |-> to, doc |-> IF r.status = 303 THEN m.doc \cup {to} ELSE {to}, hops |-> m.hops, redirs |-> m.redirs + 1]}]
     ELSE IF r.status # 200 THEN HFail
     ELSE IF HIsJson(r.media) THEN
       IF (r.media # HLd /\ Len(ctxs) > 1) \/ Len(r.json) = 0 THEN HFail
       ELSE [k |-> "ok",
             docs |-> {[url |-> Some(d), contentType |-> Some(r.media),
                        contextUrl |-> IF r.media # HLd /\ Len(ctxs) = 1 THEN Some(Resolve(d, ctxs[1].href)) ELSE None,
                        profile |-> Range(r.profile), document |-> Norm(r.json[1])] : d \in m.doc}]
     ELSE IF Len(alts) = 0 \/ m.hops >= max THEN HFail
     ELSE [k |-> "next", to |-> {HStart2(Resolve(d, l.href), m.hops + 1) : d \in m.doc, l \in Range(alts)}]

\* -- conformance ---------------------------------------------------------------
HMax(e) == IF EHas(e, "max") THEN e.max ELSE 8
HAnswer(e, k) == e.script[IF k > Len(e.script) THEN Len(e.script) ELSE k]
\* what is asked for: the document, preferably as JSON-LD with the given profiles, else as JSON
HSub(s, p) == \E i \in 1..Len(s) : StartsWith(Tail1(s, i), p)
HAcceptOk(e, a) ==
  /\ StartsWith(a, HLd) /\ HSub(a, "application/json")
  /\ EHas(e, "profiles") => \A p \in Range(e.profiles) : HSub(a, p)
HDocOk(d, w) ==
  d.url = w.url /\ d.contentType = w.contentType /\ d.contextUrl = w.contextUrl /\ Range(d.profile) = w.profile /\ Norm(d.document) = w.document
RECURSIVE HRun(_, _, _)
HRun(e, k, m) ==
  LET s == HStep(HMax(e), m, HAnswer(e, k)) n == Len(e.requests) IN
  IF ~HAcceptOk(e, e.requests[k][2]) THEN <<"accept header">>
  ELSE CASE s.k = "fail" -> IF e.res[1] # "err" THEN <<"accepted">> ELSE IF n # k THEN <<"request", k + 1>> ELSE <<>>
         [] s.k = "ok" -> IF n # k THEN <<"request", k + 1>>
                          ELSE IF e.res[1] = "ok" /\ \E w \in s.docs : HDocOk(e.res[2], w) THEN <<>> ELSE <<"document">>
         [] s.k = "next" -> IF n <= k THEN <<"stopped", k>>
                            ELSE IF ~\E x \in s.to : x.at = e.requests[k + 1][1] THEN <<"request", k + 1>>
                            ELSE HRun(e, k + 1, CHOOSE x \in s.to : x.at = e.requests[k + 1][1])
CheckHttpEvent(e) ==
  IF ~EHas(e, "res") THEN <<"no result">>
  ELSE IF Len(e.requests) = 0 \/ e.requests[1][1] # e.url THEN <<"request", 1>>
  ELSE HRun(e, 1, HStart(e.url))
RECURSIVE HExpect(_, _, _)
HExpect(e, k, m) ==
  LET s == HStep(HMax(e), m, HAnswer(e, k)) IN
  CASE s.k = "fail" -> <<"fail after request", k>>
    [] s.k = "ok" -> <<"ok", k, SetSeq(s.docs)>>
    [] OTHER -> HExpect(e, k + 1, CHOOSE x \in s.to : TRUE)
ExpectedHttp(e) == HExpect(e, 1, HStart(e.url))
=============================================================================
