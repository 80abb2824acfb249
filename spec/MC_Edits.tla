---- MODULE MC_Edits ----
(* Every history of up to `depth` edits of a list: elements are replaced,   *)
(* added, put in and taken out, the raw form is forgotten, and the file is  *)
(* written and read back in between.                                        *)
EXTENDS Edit, Json, IOUtils
Scope == JsonDeserialize(IOEnv.SCOPE)     \* depth, start (elements), donor (elements)
VARIABLES list, disk, hist
Start == [i \in 1..Scope.start |-> <<"own", i - 1>>]
Donor(i) == <<"new", i>>
Init == list = Start /\ disk = Start /\ hist = <<>>
Did(c) == hist' = Append(hist, c) /\ PrintT("CASE " \o ToJson([acts |-> hist']))
Act(a, i) ==
  /\ a = "append" \/ i < Len(list)
  /\ list' = ListAct(a, list, i, Donor(i))
  /\ disk' = disk
  /\ Did([act |-> a, i |-> i])
Write == list # disk /\ disk' = list /\ list' = list /\ Did([act |-> "write", i |-> 0])
Strip == list = disk /\ UNCHANGED <<list, disk>> /\ (\A k \in 1..Len(hist) : hist[k].act # "strip") /\ Did([act |-> "strip", i |-> 0])
Next == /\ Len(hist) < Scope.depth
        /\ \/ \E a \in {"set", "append", "insert", "delete"}, i \in 0..(Scope.donor - 1) : Act(a, i)
           \/ Write \/ Strip
Spec == Init /\ SInit /\ [][Next /\ UNCHANGED svars]_<<list, disk, hist, svars>>
\* an element that was there and was not replaced or taken out is still there, in order
Own(l) == SelectSeq(l, LAMBDA x : x[1] = "own")
Ordered == \A i, j \in 1..Len(Own(list)) : i < j => Own(list)[i][2] < Own(list)[j][2]
Count == Len(list) = Scope.start + Cardinality({k \in 1..Len(hist) : hist[k].act \in {"append", "insert"}})
                     - Cardinality({k \in 1..Len(hist) : hist[k].act = "delete"})
====
