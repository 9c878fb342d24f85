------------------------------- MODULE Event --------------------------------
(* Access to recorded events.                                                 *)
EXTENDS Base, Json, IOUtils

EHas(e, k) == k \in DOMAIN e
EStr(e, k, d) == IF EHas(e, k) THEN e[k] ELSE d
EBool(e, k, d) == IF EHas(e, k) THEN e[k] ELSE d
EOpt(e, k) == IF EHas(e, k) /\ e[k] # "" THEN Some(e[k]) ELSE None
\* the loader's content: IRI -> document and final URL
ERemote(e) == IF ~EHas(e, "remote") THEN <<>>
  ELSE Eager([i \in {p[1] : p \in Range(e.remote)} |->
                LET p == CHOOSE q \in Range(e.remote) : q[1] = i IN [doc |-> p[2], url |-> p[3]]])
=============================================================================
