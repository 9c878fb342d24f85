-------------------------------- MODULE MCFs --------------------------------
(* Mount tables of the file system loader, built one mount at a time, and     *)
(* what they answer to every request of a pool.  Each table is printed, to be *)
(* replayed into the implementation over a real directory.                    *)
EXTENDS Load, TLC

CONSTANTS MaxMounts, Emit

Hosts == <<"http://m", "https://m", "http://M", "http://m:80", "x:", "urn:n">>
Dirs == <<"m1", "m1/d", "m2">>
MountIris == <<"http://m", "http://m/", "http://m/a", "http://m/a/", "http://m/a/b", "http://m/a/../a", "http://m/%61", "http://M/a",
               "https://m/a", "x:", "x:a", "x:/a", "http://m//a", "http://m/a?q">>
Suffixes == <<"", "/", "/x", "/a", "/a/", "/a/x", "/a/b", "/a/b/x", "/a/../a/x", "/a/../secret", "/a/b/../x", "/../a/x", "/a/./x",
              "/a//x", "//a/x", "/%61/x", "/a/%78", "/a/%2e%2e/secret", "/a/..%2fsecret", "/ab/x", "/a/x?q", "/a/x#f", "/a/b/../../../secret">>
Rootless == <<"x:x", "x:a", "x:a/x", "x:../secret", "x:a/../../secret", "x:a/../x", "x:./x">>
Requests == {Hosts[1] \o s : s \in Range(Suffixes)} \cup {h \o s : h \in Range(Hosts), s \in {"/a/x", "/a/b/x"}} \cup Range(Rootless)
\* what lies on the disk: every file says where it is
FilePaths == <<"m1/x", "m1/b/x", "m1/a/x", "m1/d/x", "m1/d/b/x", "m2/x", "m2/a/b/x", "m2/b", "secret", "m1/a%2fx">>
FileText(p) == <<p, "\"" \o p \o "\"", <<JStr(p)>> >>
Files == MapSeq(FileText, FilePaths) \o << <<"m2/bad", "{", <<>> >> >>

VARIABLES vMounts
Init == vMounts = <<>>
Next == /\ Len(vMounts) < MaxMounts
        /\ \E m \in Range(MountIris), d \in Range(Dirs) : vMounts' = Append(vMounts, <<m, d>>)
Spec == Init /\ [][Next]_vMounts

Printed == IF Emit = "yes" THEN PrintT(ToJson(<<vMounts, Requests, Files>>)) ELSE TRUE

\* nothing outside of the mounted directories is ever named
PrefixOf(s, p) == Len(s) <= Len(p) /\ SubSeq(p, 1, Len(s)) = s
InvContained == \A u \in Requests : LET p == FsPath(vMounts, u) IN
  IsSome(p) => ".." \notin Range(p[2]) /\ \E m \in Range(vMounts) : PrefixOf(Segs(m[2]), p[2])
\* every document below a mount point is found: whatever extends its IRI by a slash and plain names
InvCovered == \A m \in Range(vMounts) : \A s \in {"x", "b/x"} :
  Find(m[1], "?") = 0 =>
    LET u == m[1] \o (IF At(m[1], Len(m[1])) \in {"/", ":"} THEN "" ELSE "/") \o s
        w == FsPath(<<m>>, u) IN
    IsSome(w) /\ w[2] = Segs(m[2]) \o Segs(s) /\ IsSome(FsPath(vMounts, u))
\* the scheme and the authority are those of the mount
InvOrigin == \A u \in Requests : LET p == FsPath(vMounts, u) IN
  IsSome(p) => \E m \in Range(vMounts) : Split(m[1]).scheme = Split(u).scheme /\ Split(m[1]).auth = Split(u).auth /\ PrefixOf(Segs(m[2]), p[2])
\* earlier mounts come first: mounting something else changes no answer already given
FirstWins == [][\A u \in Requests : LET p == FsPath(vMounts, u) IN IsSome(p) => FsPath(vMounts', u) = p]_vMounts
=============================================================================
