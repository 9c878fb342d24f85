----------------------------- MODULE MCCompact ------------------------------
(* The construction of a compaction: term definitions of the universe are     *)
(* added to the context one after the other, and a value is plugged into the  *)
(* frames of an expanded document.  TLC visits every pair of a context of at  *)
(* most MaxDefs definitions and a document of at most MaxPlugs frames, checks *)
(* the invariants of compaction in each, and prints them to be replayed into  *)
(* the implementation.                                                        *)
EXTENDS Compact, Event

CONSTANTS MaxDefs, MaxPlugs, Emit

Universe == ndJsonDeserialize(IOEnv.UNIVERSE)[1]
Leaves == Range(Universe.leaves)
Frames == Range(Universe.frames)
DefPool == Range(Universe.defs)                       \* <<name, definition>>
CBase == "http://a.example/d/doc"
COpts == [DefaultOpts EXCEPT !.mode = Universe.mode]
CX == [o |-> COpts, burl |-> Some(CBase), arrays |-> Universe.arrays]

RECURSIVE Plugged(_, _)
Plugged(f, v) ==
  CASE f = JStr("@@") -> v
    [] IsArr(f) -> JArr(MapSeq(LAMBDA x : Plugged(x, v), f[2]))
    [] IsObj(f) -> JObj(MapSeq(LAMBDA p : <<p[1], Plugged(p[2], v)>>, f[2]))
    [] OTHER -> f

VARIABLES vDefs, vDoc, vPlugs
cvars == <<vDefs, vDoc, vPlugs>>
View == <<vDefs, vDoc>>

Init == vDefs = {} /\ vDoc \in Leaves /\ vPlugs = 0
AddDef == /\ Cardinality(vDefs) < MaxDefs
          /\ \E d \in DefPool : (\A x \in vDefs : x[1] # d[1]) /\ vDefs' = vDefs \cup {d}
          /\ UNCHANGED <<vDoc, vPlugs>>
AddFrame == /\ vPlugs < MaxPlugs
        /\ \E f \in Frames : vDoc' = Plugged(f, vDoc)
        /\ vPlugs' = vPlugs + 1
        /\ UNCHANGED vDefs
Next == AddDef \/ AddFrame
Spec == Init /\ [][Next]_cvars

\* the context: the entries common to all, then the definitions by name
CCtx == LET names == Sorted({d[1] : d \in vDefs}) IN
        JObj(Universe.ctx[2] \o MapSeq(LAMBDA n : (CHOOSE d \in vDefs : d[1] = n), names))
Whole == Plugged(Universe.whole, vDoc)

-----------------------------------------------------------------------------
\* the initial context has the base of the document
ActiveCtx == PC(CX, NewCtx(Some(CBase)), CCtx, Some(CBase), FALSE, TRUE)
Source == ExpandDoc(CX, NewCtx(Some(CBase)), Whole)
Compacted == CompactDoc(CX, ActiveCtx.ctx, Source.v)
\* what is no document or no context is not looked at
Valid == ActiveCtx.e = {} /\ Source.e = {}

\* only these errors may stop a compaction
InvErrors == Valid => Compacted.e \subseteq {"IRI confused with prefix", "invalid @nest value"}

\* nothing is lost, but where the standard is known to lose something
RECURSIVE Mentions(_, _)
Mentions(v, k) == CASE IsObj(v) -> \E p \in Range(v[2]) : p[1] = k \/ Mentions(p[2], k)
                    [] IsArr(v) -> \E x \in Range(v[2]) : Mentions(x, k)
                    [] OTHER -> v = JStr(k)
RECURSIVE Native(_)
Native(v) == CASE IsObj(v) -> \E p \in Range(v[2]) : Native(p[2])
               [] IsArr(v) -> \E x \in Range(v[2]) : Native(x)
               [] OTHER -> v[1] \in {"n", "b"}
Said(k) == Mentions(CCtx, k)
RECURSIVE Lists(_)
Lists(v) == CASE IsObj(v) -> UNION {(IF p[1] = "@list" THEN {p[2]} ELSE {}) \cup Lists(p[2]) : p \in Range(v[2])}
              [] IsArr(v) -> UNION {Lists(x) : x \in Range(v[2])}
              [] OTHER -> {}
Losing ==
  \/ Said("@json")                                                     \* arrays and maps of JSON literals are taken apart
  \/ Said("@graph") /\ Mentions(Whole, "@graph")                       \* graphs of no node, of many nodes, with both an index and a name
  \/ Said("@index") /\ (Mentions(Whole, "@graph") \/ Mentions(Whole, "@list")) \* lists and graphs in index maps
  \/ Said("@reverse") /\ Mentions(Whole, "@list")
  \/ Mentions(Whole, "@index")                                         \* an index is lost with references, and with index mappings
  \/ Said("@language") /\ Native(Whole)                                \* numbers in language maps
  \/ Said("@type") /\ \E l \in Lists(Whole) : Mentions(l, "@list")     \* lists of lists of coerced values
  \/ Said("@context") /\ Mentions(Whole, "@type")                      \* types are compacted with the context around the property
  \* IRIs that are the vocabulary and something that is not read as a term
  \/ Said("http://a.example/d/") /\ (Mentions(Whole, "http://a.example/d/@foo") \/ Mentions(Whole, "http://a.example/d/a:b"))
InvBack == Valid /\ ~Losing => LET r == Compacted IN r.e = {} /\ ~r.u =>
  LET b == ExpandDoc(CX, ActiveCtx.ctx, Untag(ConcreteVal(r.v))) IN b.e = {} /\ CanonDoc(b.v) = CanonDoc(Source.v)

Printed == IF Emit = "yes" /\ Source.e = {} THEN PrintT(ToJson(<<CCtx, Whole>>)) ELSE TRUE
=============================================================================
