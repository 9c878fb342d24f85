----------------------------- MODULE MCCompare ------------------------------
(* A document and an edited copy of it: one edit after the other, anywhere.   *)
(* Comparison must tell the edits that matter from those that do not.  Every  *)
(* pair is printed, to be compared by the implementation.                     *)
EXTENDS Compare

CONSTANTS MaxEdits, Emit

Docs == Range(ndJsonDeserialize(IOEnv.UNIVERSE)[1].docs)

VARIABLES vDoc, vCopy, vKinds
cvars == <<vDoc, vCopy, vKinds>>
Init == vDoc \in Docs /\ vCopy = vDoc /\ vKinds = <<>>
Next == /\ Len(vKinds) < MaxEdits
        /\ \E x \in Edits(vCopy, "") : vCopy' = x[2] /\ vKinds' = Append(vKinds, x[1])
        /\ vDoc' = vDoc
Spec == Init /\ [][Next]_cvars
View == <<vDoc, vCopy, vKinds>>

Printed == IF Emit = "yes" THEN PrintT(ToJson(<<vDoc, vCopy>>)) ELSE TRUE
-----------------------------------------------------------------------------
CmpBase == "http://a.example/d/doc"
CmpX == [o |-> DefaultOpts, burl |-> Some(CmpBase)]
Eq(a, b) == DocEq(CmpX, NewCtx(Some(CmpBase)), a, b)
\* what is only put in another order stays equal, syntactically
InvOrder == (\A i \in 1..Len(vKinds) : vKinds[i] = "swap") => SynEq(vDoc, vCopy)
\* a single other edit is seen
InvSeen == Len(vKinds) = 1 /\ vKinds[1] # "swap" => ~SynEq(vDoc, vCopy)
\* equivalence
InvEquivalence == /\ SynEq(vDoc, vDoc) /\ SynEq(vDoc, vCopy) = SynEq(vCopy, vDoc)
                  /\ Eq(vDoc, vDoc).e = {} => Eq(vDoc, vDoc).eq
                  /\ Eq(vDoc, vCopy) = Eq(vCopy, vDoc)
\* canonical forms are stable, and equal documents have equal ones
InvCanonical == LET r == ExpandDoc(CmpX, NewCtx(Some(CmpBase)), vCopy) d == CanonLits(<<"a", r.v>>) IN
  r.e = {} => CanonLits(d) = d /\ (Eq(vDoc, vCopy).eq => Sets(d, "@doc") = Sets(CanonLits(<<"a", ExpandDoc(CmpX, NewCtx(Some(CmpBase)), vDoc).v>>), "@doc"))
=============================================================================
