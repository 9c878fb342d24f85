-------------------------------- MODULE Iri ---------------------------------
(* IRIs and IRI references (RFC 3986 / 3987): shape, components, resolution  *)
(* and relativisation; blank node identifiers and compact IRIs (JSON-LD).    *)
EXTENDS Base

SubDelims == Chars("!$&'()*+,;=")
Unreserved == AlNum \cup Chars("-._~")
Gen == Chars(":/?#[]@")
BadChars == Chars(" <>\"\\^`{|}[]")        \* [ ] only occur in IP literals, which are not modelled

\* every "%" starts an escape
RECURSIVE PctOk(_, _)
PctOk(s, i) == LET j == FindFrom(s, "%", i) IN
  IF j = 0 THEN TRUE
  ELSE j + 2 <= Len(s) /\ At(s, j + 1) \in HexDig /\ At(s, j + 2) \in HexDig /\ PctOk(s, j + 3)

CharsOk(s) == NoneIn(s, BadChars) /\ PctOk(s, 1)
              /\ LET h == Find(s, "#") IN h = 0 \/ FindFrom(s, "#", h + 1) = 0

\* Position of the colon that ends the scheme, 0 if there is none
SchemeEnd(s) ==
  LET c == Find(s, ":") IN
  IF c > 1 /\ At(s, 1) \in Alpha /\ AllIn(SubSeq(s, 1, c - 1), AlNum \cup {"+", "-", "."})
  THEN c ELSE 0

\* A colon in the first segment without a scheme in front of it
BadFirstSegment(s) ==
  LET c == Find(s, ":") d == FindAnyFrom(s, {"/", "?", "#"}, 1) IN
  c > 0 /\ (d = 0 \/ c < d)

IsIriF == [s \in Any |-> SchemeEnd(s) > 0 /\ CharsOk(s)]
IsIri(s) == IsIriF[s]
IsIriRefF == [s \in Any |-> CharsOk(s) /\ (SchemeEnd(s) > 0 \/ ~BadFirstSegment(s))]
IsIriRef(s) == IsIriRefF[s]

\* Components: each is an option, path is a string
Split(s) ==
  LET c == SchemeEnd(s)
      scheme == IF c > 0 THEN Some(SubSeq(s, 1, c - 1)) ELSE None
      r0 == SubSeq(s, c + 1, Len(s))
      h == Find(r0, "#")
      frag == IF h > 0 THEN Some(SubSeq(r0, h + 1, Len(r0))) ELSE None
      r1 == IF h > 0 THEN SubSeq(r0, 1, h - 1) ELSE r0
      q == Find(r1, "?")
      query == IF q > 0 THEN Some(SubSeq(r1, q + 1, Len(r1))) ELSE None
      r2 == IF q > 0 THEN SubSeq(r1, 1, q - 1) ELSE r1
      hasAuth == StartsWith(r2, "//")
      sl == IF hasAuth THEN FindFrom(r2, "/", 3) ELSE 0
      auth == IF hasAuth THEN Some(IF sl > 0 THEN SubSeq(r2, 3, sl - 1) ELSE SubSeq(r2, 3, Len(r2))) ELSE None
      path == IF hasAuth THEN (IF sl > 0 THEN SubSeq(r2, sl, Len(r2)) ELSE "") ELSE r2
  IN [scheme |-> scheme, auth |-> auth, path |-> path, query |-> query, frag |-> frag]

OptStr(o, pre, post) == IF IsSome(o) THEN pre \o o[2] \o post ELSE ""
Join(x) == OptStr(x.scheme, "", ":") \o OptStr(x.auth, "//", "") \o x.path
           \o OptStr(x.query, "?", "") \o OptStr(x.frag, "#", "")

\* RFC 3986 5.2.4
RECURSIVE DotSeg(_, _)
DotSeg(in, out) ==
  IF in = "" THEN out
  ELSE IF StartsWith(in, "../") THEN DotSeg(Tail1(in, 4), out)
  ELSE IF StartsWith(in, "./") THEN DotSeg(Tail1(in, 3), out)
  ELSE IF StartsWith(in, "/./") THEN DotSeg(Tail1(in, 3), out)
  ELSE IF in = "/." THEN DotSeg("/", out)
  ELSE IF StartsWith(in, "/../") \/ in = "/.."
       THEN LET l == RFind(out, "/") o2 == IF l > 0 THEN SubSeq(out, 1, l - 1) ELSE ""
            IN DotSeg(IF in = "/.." THEN "/" ELSE Tail1(in, 4), o2)
  ELSE IF in = "." \/ in = ".." THEN out
  ELSE LET e == FindFrom(in, "/", 2) IN
       IF e = 0 THEN out \o in ELSE DotSeg(Tail1(in, e), out \o SubSeq(in, 1, e - 1))
RemoveDots(p) == DotSeg(p, "")

Merge(b, rpath) ==
  IF IsSome(b.auth) /\ b.path = "" THEN "/" \o rpath
  ELSE LET l == RFind(b.path, "/") IN SubSeq(b.path, 1, l) \o rpath

\* RFC 3986 5.2.2; base must be an IRI, ref an IRI reference
Resolve_(base, ref) ==
  LET r == Split(ref) b == Split(base) IN
  IF IsSome(r.scheme) THEN Join([r EXCEPT !.path = RemoveDots(r.path)])
  ELSE IF IsSome(r.auth) THEN Join([r EXCEPT !.scheme = b.scheme, !.path = RemoveDots(r.path)])
  ELSE IF r.path = ""
       THEN Join([b EXCEPT !.query = IF IsSome(r.query) THEN r.query ELSE b.query, !.frag = r.frag])
  ELSE Join([b EXCEPT !.path = RemoveDots(IF StartsWith(r.path, "/") THEN r.path ELSE Merge(b, r.path)),
                      !.query = r.query, !.frag = r.frag])

ResolveF == [a \in Any |-> Resolve_(a[1], a[2])]
Resolve(base, ref) == ResolveF[<<base, ref>>]

\* resolve an IRI reference against an optional base: an option
ResolveOpt(ref, base) ==
  IF IsSome(base) THEN Some(Resolve(base[2], ref))
  ELSE IF IsIri(ref) THEN Some(ref) ELSE None

-----------------------------------------------------------------------------
\* Blank node identifiers: "_:" followed by a label
BnStart == AlNum \cup {"_", ":"}
BnRest == BnStart \cup {"-"}
IsBlank(s) == /\ Len(s) > 2 /\ StartsWith(s, "_:")
              /\ At(s, 3) \notin {"-", "."}
              /\ LET R(c) == c \in BnRest \/ c \notin DOMAIN AsciiIndex IN
                 \A i \in 3..Len(s) : R(At(s, i))
              /\ At(s, Len(s)) # "."

\* Compact IRI: prefix:suffix where the prefix is not "_" and the suffix does not start with "//"
CompactSplit(s) == Find(s, ":")
IsCompact(s) == LET c == Find(s, ":") IN
  c > 0 /\ SubSeq(s, 1, c - 1) # "_" /\ ~StartsWith(Tail1(s, c + 1), "//") /\ IsIriRef(s)
CPrefix(s) == SubSeq(s, 1, Find(s, ":") - 1)
CSuffix(s) == Tail1(s, Find(s, ":") + 1)
=============================================================================
