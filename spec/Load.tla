-------------------------------- MODULE Load --------------------------------
(* Document loaders: the file system loader, the map and null loaders, and    *)
(* chains of loaders.  A loader tree is a record t with t.t its kind; asking  *)
(* it for a URL gives [ok, doc, cause, calls]: the document or the cause of   *)
(* the failure, and the calls received by the scripted members in order.      *)
EXTENDS Iri, Event

\* -- the file system loader ------------------------------------------------
RECURSIVE CutAt(_, _)
CutAt(s, c) == LET i == Find(s, c) IN IF i = 0 THEN <<s>> ELSE <<Prefix(s, i - 1)>> \o CutAt(Tail1(s, i + 1), c)
\* the segments of a path; the root has none
Segs(p) == LET q == IF StartsWith(p, "/") THEN Tail1(p, 2) ELSE p IN IF q = "" THEN <<>> ELSE CutAt(q, "/")
\* dot segments are resolved; what climbs above the start of a relative path stays
RECURSIVE UpDown(_, _, _)
UpDown(ss, rel, out) ==
  IF Len(ss) = 0 THEN out
  ELSE UpDown(Tail(ss), rel,
    CASE Head(ss) = "." -> out
      [] Head(ss) = ".." -> IF (IF Len(out) = 0 THEN rel ELSE out[Len(out)] = "..") THEN Append(out, "..")
                            ELSE IF Len(out) = 0 THEN out ELSE SubSeq(out, 1, Len(out) - 1)
      [] OTHER -> Append(out, Head(ss)))
NormSegs(p) == UpDown(Segs(p), ~StartsWith(p, "/"), <<>>)

HexVal(c) == LET k == Find("0123456789abcdef", Lower(c)) IN k - 1
\* segments are equal when they are once percent-decoded
RECURSIVE PctDecode(_)
PctDecode(s) ==
  IF s = "" THEN ""
  ELSE IF At(s, 1) = "%" /\ Len(s) > 2 THEN
    LET k == 16 * HexVal(At(s, 2)) + HexVal(At(s, 3))
        c == IF k >= 32 /\ k < 127 THEN At(Ascii, k - 31) ELSE Prefix(s, 3)
    IN c \o PctDecode(Tail1(s, 4))
  ELSE At(s, 1) \o PctDecode(Tail1(s, 2))

\* the segments of a mount point: a final slash says nothing
MountSegs(iri) == LET s == NormSegs(Split(iri).path) IN IF Len(s) > 0 /\ s[Len(s)] = "" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
\* with an authority the empty path is the root
Rooted(u) == StartsWith(u.path, "/") \/ IsSome(u.auth)
\* the segments of url below the mount point, if it covers url
Below(url, mount) ==
  LET u == Split(url) m == Split(mount) us == NormSegs(u.path) ms == MountSegs(mount) IN
  IF /\ u.scheme = m.scheme /\ u.auth = m.auth
     /\ Rooted(u) = Rooted(m)
     /\ Len(ms) <= Len(us) /\ \A i \in 1..Len(ms) : PctDecode(us[i]) = PctDecode(ms[i])
  THEN Some(SubSeq(us, Len(ms) + 1, Len(us))) ELSE None

\* mounts: <<iri, directory>> in order; the path of a url is a sequence of segments
RECURSIVE FsPath(_, _)
FsPath(mounts, url) ==
  IF Len(mounts) = 0 THEN None
  ELSE LET b == Below(url, Head(mounts)[1]) IN
    IF ~IsSome(b) \/ ".." \in Range(b[2]) THEN FsPath(Tail(mounts), url)
    ELSE Some(Segs(Head(mounts)[2]) \o b[2])
NotEmpty(s) == s # ""
Real(path) == Filter(path, NotEmpty)

\* files: <<path, text, [content] or []>>
FileAt(files, path) ==
  LET S == {f \in Range(files) : Segs(f[1]) = Real(path)} IN
  IF S = {} \/ path[Len(path)] = "" THEN None ELSE Some(CHOOSE f \in S : TRUE)
Doc_(url, ct, cu, v) == [url |-> url, contentType |-> ct, contextUrl |-> cu, profile |-> <<>>, document |-> v]
Okay(d, calls) == [ok |-> TRUE, doc |-> d, cause |-> <<>>, calls |-> calls]
Failed(c, calls) == [ok |-> FALSE, doc |-> <<>>, cause |-> c, calls |-> calls]
FsLoad(mounts, files, url) ==
  LET p == FsPath(mounts, url) f == IF IsSome(p) /\ Len(p[2]) > 0 THEN FileAt(files, p[2]) ELSE None IN
  IF ~IsSome(p) THEN Failed(<< <<"no mount point", TRUE>> >>, <<>>)
  ELSE IF ~IsSome(f) THEN Failed(<< <<"IO: ", FALSE>> >>, <<>>)
  ELSE IF Len(f[2][3]) = 0 THEN Failed(<< <<"", FALSE>> >>, <<>>)
  ELSE Okay(Doc_(Some(url), Some("application/ld+json"), None, f[2][3][1]), <<>>)

\* -- loader trees ------------------------------------------------------------
\* causes are sequences of <<text, whether it is all of it>>
Stored(t, url) == {i \in 1..Len(t.entries) : t.entries[i][1] = url}
RECURSIVE LoadFrom(_, _, _)
LoadFrom(t, files, url) ==
  CASE t.t = "leaf" -> LET c == << t.name \o ":" \o url >> IN
         IF url \in Range(t.ok) THEN Okay(Doc_(Some(url), None, None, JStr(t.name)), c)
         ELSE Failed(<< <<t.name, TRUE>> >>, c)
    [] t.t \in {"map", "bmap"} ->
         IF Stored(t, url) = {} THEN Failed(<< <<"document not found", TRUE>> >>, <<>>)
         ELSE LET i == CHOOSE j \in Stored(t, url) : \A k \in Stored(t, url) : k <= j     \* the last one stored
                  d == t.entries[i][2] IN
              Okay(Doc_(EOpt(d, "url"), EOpt(d, "contentType"), EOpt(d, "contextUrl"), JStr(d.document)), <<>>)
    [] t.t = "none" -> Failed(<< <<"no loader", TRUE>> >>, <<>>)
    [] t.t = "fs" -> FsLoad(t.mounts, files, url)
    [] t.t = "chain" ->
         LET a == LoadFrom(t.l, files, url) IN
         IF a.ok THEN a
         ELSE LET b == LoadFrom(t.r, files, url) IN
              IF b.ok THEN [b EXCEPT !.calls = a.calls \o b.calls]
              ELSE Failed(a.cause \o b.cause, a.calls \o b.calls)
RECURSIVE Members(_)
Members(t) == IF t.t = "chain" THEN Members(t.l) \o Members(t.r) ELSE <<t>>

\* -- conformance ---------------------------------------------------------------
CauseText(c) == LET RECURSIVE T(_) T(s) == s[1][1] \o (IF Len(s) = 1 THEN "" ELSE ", then " \o T(Tail(s))) IN T(c)
Within(s, p) == p = "" \/ \E i \in 1..Len(s) : StartsWith(Tail1(s, i), p)
CauseOk(text, c) ==
  IF \A p \in Range(c) : p[2] THEN text = CauseText(c)
  ELSE IF Len(c) = 1 THEN StartsWith(text, c[1][1]) /\ text # "no mount point"
  ELSE \A p \in Range(c) : Within(text, p[1])
DocOk(d, w) ==
  /\ d.url = w.url /\ d.contentType = w.contentType /\ d.contextUrl = w.contextUrl
  /\ d.profile = w.profile /\ Norm(d.document) = Norm(w.document)
LoadOk(e, o) ==
  LET w == LoadFrom(e.tree, IF EHas(e, "files") THEN e.files ELSE <<>>, o.url) IN
  /\ o.calls = w.calls
  /\ IF w.ok THEN o.res[1] = "ok" /\ DocOk(o.res[2], w.doc)
     ELSE o.res[1] = "err" /\ o.res[2] = o.url /\ CauseOk(o.res[3], w.cause)
  /\ e.tree.t = "fs" =>
       LET p == FsPath(e.tree.mounts, o.url) IN
       IF IsSome(p) THEN o.path[1] = "v" /\ UpDown(Real(Segs(o.path[2])), FALSE, <<>>) = Real(p[2]) /\ ".." \notin Range(Segs(o.path[2]))
       ELSE o.path = <<"null">>
CheckLoadEvent(e) ==
  IF ~EHas(e, "results") THEN <<"no result">>
  ELSE LET bad == {i \in 1..Len(e.results) : ~LoadOk(e, e.results[i])} IN
       IF bad = {} THEN <<>> ELSE <<"load", CHOOSE i \in bad : \A j \in bad : i <= j>>
ExpectedLoad(e) ==
  MapSeq(LAMBDA o : LoadFrom(e.tree, IF EHas(e, "files") THEN e.files ELSE <<>>, o.url), e.results)
=============================================================================
