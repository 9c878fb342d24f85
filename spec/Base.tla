-------------------------------- MODULE Base --------------------------------
(* Strings, JSON values and small helpers shared by every module.            *)
(*                                                                           *)
(* A JSON value is a tagged tuple                                            *)
(*    <<"0">>                 null                                           *)
(*    <<"b", "true">>         boolean (also "false")                         *)
(*    <<"n", lexical>>        number, by its lexical form                    *)
(*    <<"s", string>>         string                                         *)
(*    <<"a", <<v1, v2, ..>>>> array                                          *)
(*    <<"o", <<<<k1, v1>>, ..>>>>  object: its entries in document order     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

At(s, i) == SubSeq(s, i, i)
Chars(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
Tail1(s, i) == SubSeq(s, i, Len(s))          \* suffix starting at i (may be "")
Prefix(s, n) == SubSeq(s, 1, n)

(* TLC evaluates an operator in the environment of its caller, so that deep    *)
(* recursion makes every lookup slow; the body of a constant function is       *)
(* evaluated in an empty one.  `XxxF == [a \in Any |-> ..]` below is only that. *)
RECURSIVE FindFrom_(_, _, _)
FindFrom_(s, c, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = c THEN i ELSE FindFrom_(s, c, i + 1)
FindF == [a \in Any |-> FindFrom_(a[1], a[2], a[3])]
FindFrom(s, c, i) == FindF[<<s, c, i>>]
Find(s, c) == FindFrom(s, c, 1)

RECURSIVE FindAnyFrom_(_, _, _)
FindAnyFrom_(s, S, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) \in S THEN i ELSE FindAnyFrom_(s, S, i + 1)
FindAnyF == [a \in Any |-> FindAnyFrom_(a[1], a[2], a[3])]
FindAnyFrom(s, S, i) == FindAnyF[<<s, S, i>>]

RECURSIVE RFindFrom(_, _, _)
RFindFrom(s, c, i) == IF i < 1 THEN 0 ELSE IF At(s, i) = c THEN i ELSE RFindFrom(s, c, i - 1)
RFind(s, c) == RFindFrom(s, c, Len(s))

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Contains(s, c) == Find(s, c) > 0

RECURSIVE AllInFrom_(_, _, _)
AllInFrom_(s, S, i) == IF i > Len(s) THEN TRUE ELSE At(s, i) \in S /\ AllInFrom_(s, S, i + 1)
AllInF == [a \in Any |-> AllInFrom_(a[1], a[2], a[3])]
AllInFrom(s, S, i) == AllInF[<<s, S, i>>]
AllIn(s, S) == AllInFrom(s, S, 1)
RECURSIVE NoneInFrom_(_, _, _)
NoneInFrom_(s, S, i) == IF i > Len(s) THEN TRUE ELSE At(s, i) \notin S /\ NoneInFrom_(s, S, i + 1)
NoneInF == [a \in Any |-> NoneInFrom_(a[1], a[2], a[3])]
NoneInFrom(s, S, i) == NoneInF[<<s, S, i>>]
NoneIn(s, S) == NoneInFrom(s, S, 1)

LowerStr == "abcdefghijklmnopqrstuvwxyz"
UpperStr == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == Chars("0123456789")
Alpha == Chars(LowerStr) \cup Chars(UpperStr)
AlNum == Alpha \cup Digits
HexDig == Digits \cup Chars("abcdefABCDEF")
LowerOf == [c \in Chars(UpperStr) |-> LET i == CHOOSE j \in 1..26 : At(UpperStr, j) = c IN At(LowerStr, i)]
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LET c == At(s, 1) IN (IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c) \o Lower(Tail1(s, 2))

\* Code point order of the ASCII characters; any other character sorts after them.
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@" \o UpperStr \o "[\\]^_`" \o LowerStr \o "{|}~"
AsciiIndex == [c \in Chars(Ascii) |-> Find(Ascii, c)]
Code(c) == IF c \in DOMAIN AsciiIndex THEN AsciiIndex[c] ELSE 1000
RECURSIVE StrLtFrom(_, _, _)
StrLtFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE LET x == At(a, i) y == At(b, i) IN
       IF x = y THEN StrLtFrom(a, b, i + 1) ELSE Code(x) < Code(y)
StrLt(a, b) == StrLtFrom(a, b, 1)
\* shorter first, then code point order
ShortLt(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ StrLt(a, b))

Range(f) == {f[x] : x \in DOMAIN f}
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* (the concatenation and @@ make TLC evaluate the function once, here)
Eager(f) == f @@ <<>>
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])] \o <<>>
Filter(s, P(_)) == SelectSeq(s, P)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) = 0 THEN <<>> ELSE
            LET r == Dedup(SubSeq(s, 1, Len(s) - 1)) IN
            IF s[Len(s)] \in Range(r) THEN r ELSE Append(r, s[Len(s)])

SortBy(s, Lt(_, _)) == SortSeq(s, Lt)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Sorted(S) == SortBy(SetSeq(S), StrLt)
SortedShort(S) == SortBy(SetSeq(S), ShortLt)

-----------------------------------------------------------------------------
(* Options: <<"null">> or <<"v", x>>                                         *)
None == <<"null">>
Some(x) == <<"v", x>>
IsSome(o) == o[1] = "v"

-----------------------------------------------------------------------------
(* JSON                                                                      *)
JNull == <<"0">>
JStr(s) == <<"s", s>>
JBool(b) == <<"b", IF b THEN "true" ELSE "false">>
JArr(s) == <<"a", s>>
JObj(ps) == <<"o", ps>>
IsNull(v) == v[1] = "0"
IsStr(v) == v[1] = "s"
IsNum(v) == v[1] = "n"
IsBool(v) == v[1] = "b"
IsArr(v) == v[1] = "a"
IsObj(v) == v[1] = "o"
IsScalar(v) == v[1] \in {"s", "n", "b"}
JKeys(v) == {v[2][i][1] : i \in 1..Len(v[2])}
Has(v, k) == \E i \in 1..Len(v[2]) : v[2][i][1] = k
RECURSIVE GetP(_, _, _)
GetP(ps, k, i) == IF ps[i][1] = k THEN ps[i][2] ELSE GetP(ps, k, i + 1)
Get(v, k) == GetP(v[2], k, 1)                      \* k must be present
GetOr(v, k, d) == IF Has(v, k) THEN Get(v, k) ELSE d
DupKeys(v) == Cardinality(JKeys(v)) # Len(v[2])
AsArr(v) == IF IsArr(v) THEN v[2] ELSE <<v>>
Without(v, ks) == LET P(p) == p[1] \notin ks IN JObj(Filter(v[2], P))

\* Order-insensitive form of a JSON value: objects as functions, arrays kept.
RECURSIVE Norm(_)
NormF == [v \in Any |-> CASE IsObj(v) -> <<"o", Eager([k \in JKeys(v) |-> Norm(Get(v, k))])>>
             [] IsArr(v) -> <<"a", MapSeq(Norm, v[2])>>
             [] OTHER -> v]
Norm(v) == NormF[v]

\* bag (multiset) of a sequence, as a function from elements to counts
Bag(s) == Eager([x \in Range(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})])

-----------------------------------------------------------------------------
(* Keywords                                                                  *)
Keywords == {"@base", "@container", "@context", "@direction", "@graph", "@id", "@import",
  "@included", "@index", "@json", "@language", "@list", "@nest", "@none", "@prefix",
  "@propagate", "@protected", "@reverse", "@set", "@type", "@value", "@version", "@vocab"}
IsKeyword(s) == s \in Keywords
KeywordLike(s) == Len(s) > 1 /\ At(s, 1) = "@" /\ AllInFrom(s, Alpha, 2)
=============================================================================
