----------------------------- MODULE MCExpanded -----------------------------
(* Expanded documents, built from the inside out, and then blemished: an edit *)
(* anywhere, or an entry too many.  Every document is printed, to be read,    *)
(* expanded and written by the implementation.                                *)
EXTENDS Expanded

CONSTANTS Depth, Emit

XUniverse == ndJsonDeserialize(IOEnv.UNIVERSE)[1]
XBase == "http://a.example/d/doc"

RECURSIVE Fill(_, _)
Fill(f, v) ==
  CASE f = JStr("@@") -> v
    [] IsArr(f) -> JArr(MapSeq(LAMBDA x : Fill(x, v), f[2]))
    [] IsObj(f) -> JObj(MapSeq(LAMBDA p : <<p[1], Fill(p[2], v)>>, f[2]))
    [] OTHER -> f
Strays == { <<"@index", JStr("i")>>, <<"http://e/z", JArr(<<>>)>>, <<"@value", <<"n", "1">> >>, <<"@id", JStr("http://e/z")>>, <<"@list", JArr(<<>>)>>,
            <<"@type", JStr("http://e/T")>>, <<"@type", JArr(<<JStr("http://e/T")>>)>>, <<"@language", JStr("en")>>, <<"@direction", JStr("rtl")>>,
            <<"@set", JArr(<<>>)>>, <<"@context", JObj(<<>>)>>, <<"@graph", JArr(<<>>)>> }
RECURSIVE Strayed(_)
Strayed(v) ==
  CASE IsArr(v) -> UNION {{JArr([v[2] EXCEPT ![i] = x]) : x \in Strayed(v[2][i])} : i \in 1..Len(v[2])}
    [] IsObj(v) -> {JObj(Append(v[2], p)) : p \in Strays}
                   \cup UNION {{JObj([v[2] EXCEPT ![i] = <<v[2][i][1], x>>]) : x \in Strayed(v[2][i][2])} : i \in 1..Len(v[2])}
    [] OTHER -> {}

\* vMark: "built" of sound parts only, "odd" with others in it, "edited" once blemished
VARIABLES vDoc, vSteps, vMark
xvars == <<vDoc, vSteps, vMark>>
View == <<vDoc, vMark>>
Init == /\ \/ vDoc \in Range(XUniverse.leaves) /\ vMark = "built"
           \/ vDoc \in Range(XUniverse.oddleaves) /\ vMark = "odd"
        /\ vSteps = 0
Whole(v) == JArr(<<v>>)
Next == /\ vMark # "edited"
        /\ \/ /\ vSteps < Depth
              /\ \/ \E f \in Range(XUniverse.frames) : vDoc' = Fill(f, vDoc) /\ vMark' = vMark
                 \/ \E f \in Range(XUniverse.oddframes) : vDoc' = Fill(f, vDoc) /\ vMark' = "odd"
              /\ vSteps' = vSteps + 1
           \/ /\ vSteps > 0
              /\ vDoc' \in {x[2] : x \in Edits(vDoc, "")} \cup Strayed(vDoc)
              /\ vMark' = "edited" /\ vSteps' = vSteps
Spec == Init /\ [][Next]_xvars

Printed == IF Emit = "yes" /\ vSteps > 0 THEN PrintT(ToJson(<<Whole(vDoc)>>)) ELSE TRUE
-----------------------------------------------------------------------------
XX == [o |-> DefaultOpts, burl |-> None]
Items_ == Norm(Whole(vDoc))[2]
\* what the machine builds is in expanded form, and must be readable
InvBuilt == vMark = "built" /\ IsNodeObj(Items_[1]) /\ Items_[1] # Obj(EmptyF) /\ DOMAIN Items_[1][2] # {"@id"} => Readable(Items_)
\* the expanded form is a fixed point of expansion, and nothing else that can be written is read into it
InvFixed == ~DupEntries(vDoc, "") /\ Readable(Items_) =>
  LET r == ExpandAgain(XX, Items_) IN r.e = {} /\ SameJson(Strip(r.v), Strip(Items_))
\* writing loses nothing but empty types
InvSame == ~DupEntries(vDoc, "") => SameJson(Items_, Items_)
=============================================================================
