------------------------------- MODULE MCLoad -------------------------------
(* Chains of loaders: a tree is built from members (pushed on a stack, the    *)
(* top two chained), then a document is requested and the members are asked   *)
(* one at a time.  Each tree is printed, to be replayed.                      *)
EXTENDS Load, TLC

CONSTANTS MaxMembers, Emit

Urls == <<"http://u/1", "http://u/2", "http://u/3", "http://v/1">>
Leaf(name, ok) == [t |-> "leaf", name |-> name, ok |-> ok]
Pool == <<
  Leaf("A", <<"http://u/1">>), Leaf("B", <<"http://u/1", "http://u/2">>), Leaf("C", <<>>),
  [t |-> "none"],
  [t |-> "map", entries |-> << <<"http://u/1", [document |-> "first", url |-> "http://u/1"]>>,
                               <<"http://u/2", [document |-> "moved", url |-> "http://v/2", contentType |-> "application/json", contextUrl |-> "http://c/"]>>,
                               <<"http://u/1", [document |-> "last", url |-> "http://u/1"]>> >>],
  [t |-> "bmap", entries |-> << <<"http://u/3", [document |-> "bare"]>> >>],
  [t |-> "fs", mounts |-> << <<"http://u", "d">> >>] >>
Files == << <<"d/1", "{}", <<JObj(<<>>)>> >>, <<"d/3", "{", <<>> >> >>

VARIABLES vStack, vCount, vUrl, vTodo, vAsked, vGot
lvars == <<vStack, vCount, vUrl, vTodo, vAsked, vGot>>
\* asking: the url being loaded ("" while building), the members left, the members asked, the answer
Init == vStack = <<>> /\ vCount = 0 /\ vUrl = "" /\ vTodo = <<>> /\ vAsked = <<>> /\ vGot = <<>>
Push == /\ vUrl = "" /\ vCount < MaxMembers
        /\ \E t \in Range(Pool) : vStack' = Append(vStack, t)
        /\ vCount' = vCount + 1
        /\ UNCHANGED <<vUrl, vTodo, vAsked, vGot>>
Chain == /\ vUrl = "" /\ Len(vStack) > 1
         /\ LET k == Len(vStack) IN
            vStack' = Append(SubSeq(vStack, 1, k - 2), [t |-> "chain", l |-> vStack[k - 1], r |-> vStack[k]])
         /\ UNCHANGED <<vCount, vUrl, vTodo, vAsked, vGot>>
Ask == /\ vUrl = "" /\ Len(vStack) = 1
       /\ \E u \in Range(Urls) : vUrl' = u
       /\ vTodo' = Members(vStack[1])
       /\ UNCHANGED <<vStack, vCount, vAsked, vGot>>
Answer == /\ vUrl # "" /\ Len(vGot) = 0 /\ Len(vTodo) > 0
          /\ LET a == LoadFrom(Head(vTodo), Files, vUrl) IN
             /\ vAsked' = Append(vAsked, a)
             /\ vTodo' = Tail(vTodo)
             /\ vGot' = IF a.ok THEN <<a.doc>> ELSE <<>>
          /\ UNCHANGED <<vStack, vCount, vUrl>>
Next == Push \/ Chain \/ Ask \/ Answer
Spec == Init /\ [][Next]_lvars

Printed == IF Emit = "yes" /\ vUrl = "" /\ Len(vStack) = 1 THEN PrintT(ToJson(<<vStack[1], Urls, Files>>)) ELSE TRUE

Done == vUrl # "" /\ (Len(vGot) > 0 \/ Len(vTodo) = 0)
Whole == LoadFrom(vStack[1], Files, vUrl)
\* asking the members in order is loading from the tree: chaining is associative
InvSame == Done =>
  /\ Whole.ok = (Len(vGot) > 0)
  /\ Whole.ok => Whole.doc = vGot[1]
  /\ Whole.calls = Flat(MapSeq(LAMBDA a : a.calls, vAsked))
\* the first member that has the document gives it, and no member behind it is asked
InvFirst == Done /\ Whole.ok =>
  LET ms == Members(vStack[1]) k == Len(vAsked) IN
  /\ LoadFrom(ms[k], Files, vUrl).doc = Whole.doc
  /\ \A i \in 1..(k - 1) : ~LoadFrom(ms[i], Files, vUrl).ok
  /\ Len(Whole.calls) <= k
\* a failure carries the cause of every member
InvCauses == Done /\ ~Whole.ok => Whole.cause = Flat(MapSeq(LAMBDA a : a.cause, vAsked)) /\ Len(vAsked) = Len(Members(vStack[1]))
=============================================================================
