------------------------------- MODULE MCDoc --------------------------------
(* The construction of a document, from the inside out: a value is plugged    *)
(* into one frame of the universe after the other.  TLC visits every document *)
(* of at most Depth frames, checks the invariants of expansion in each, and   *)
(* prints them so that they can be replayed into the implementation.          *)
(* The universe (context, leaves, frames, store) is read from a file; the     *)
(* hole of a frame is the string "@@".                                        *)
EXTENDS Expand, Event

CONSTANTS Depth, Emit

Universe == ndJsonDeserialize(IOEnv.UNIVERSE)[1]
Leaves == Range(Universe.leaves)
Frames == Range(Universe.frames)
DBase == "http://a.example/d/doc"
DOpts == [DefaultOpts EXCEPT !.mode = Universe.mode, !.remote = ERemote(Universe)]
DX == [o |-> DOpts, burl |-> Some(DBase)]
\* the initial context, given as the expand context option
DCtx == LET r == PC(DX, NewCtx(Some(DBase)), Universe.ctx, Some(DBase), FALSE, TRUE) IN
        IF r.e = {} /\ ShapeErrors(Universe.ctx) = {} THEN r.ctx ELSE Assert(FALSE, r.e \cup ShapeErrors(Universe.ctx))

RECURSIVE Plug(_, _)
Plug(f, v) ==
  CASE f = JStr("@@") -> v
    [] IsArr(f) -> JArr(MapSeq(LAMBDA x : Plug(x, v), f[2]))
    [] IsObj(f) -> JObj(MapSeq(LAMBDA p : <<p[1], Plug(p[2], v)>>, f[2]))
    [] OTHER -> f

VARIABLES vDoc, vSteps
dvars == <<vDoc, vSteps>>
View == vDoc

Init == vDoc \in Leaves /\ vSteps = 0
Next == /\ vSteps < Depth
        /\ \E f \in Frames : vDoc' = Plug(f, vDoc)
        /\ vSteps' = vSteps + 1
Spec == Init /\ [][Next]_dvars

Printed == IF Emit = "yes" /\ vSteps > 0 THEN PrintT(ToJson(<<vDoc>>)) ELSE TRUE

-----------------------------------------------------------------------------
Expansion == ExpandDoc(DX, DCtx, vDoc)

InvWellFormed == LET r == Expansion IN r.e = {} => WellFormedDoc(r.v)

\* expanding again without a context changes nothing
InvIdempotent == LET r == Expansion s == ExpandAgain(DX, r.v) IN
  r.e = {} => s.e = {} /\ CanonDoc(Strip(s.v)) = CanonDoc(Strip(r.v))

\* the order of entries is irrelevant
RECURSIVE Reversed(_)
Reversed(v) == CASE IsObj(v) -> JObj(Rev(MapSeq(LAMBDA p : <<p[1], Reversed(p[2])>>, v[2])))
                 [] IsArr(v) -> JArr(MapSeq(Reversed, v[2]))
                 [] OTHER -> v
InvOrderFree == LET r == Expansion s == ExpandDoc(DX, DCtx, Reversed(vDoc)) IN
  /\ (r.e = {}) = (s.e = {}) /\ r.loads = s.loads
  /\ r.e = {} => CanonDoc(r.v) = CanonDoc(s.v)
=============================================================================
