---- MODULE MC_Framing ----
(***************************************************************************)
(* A card download arriving byte by byte, read by a counter of header and  *)
(* value bytes.  The counter knows at each moment whether what has arrived *)
(* splits into whole records, and agrees with the definition of framing.   *)
(***************************************************************************)
EXTENDS Card, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Alphabet == {0, 1, 2}
VARIABLES b, head, left       \* what arrived; header bytes of the present record; value bytes still to come
vars == <<b, head, left>>
Init == b = <<>> /\ head = <<>> /\ left = 0
HeadValue(h) == h[4] * 256 + h[5]
Arrive(x) ==
  /\ b' = Append(b, x)
  /\ IF left > 0 THEN left' = left - 1 /\ head' = (IF left = 1 THEN <<>> ELSE head)
     ELSE LET h == Append(head, x) IN
          IF Len(h) < 5 THEN head' = h /\ left' = 0
          ELSE IF HeadValue(h) = 0 THEN head' = <<>> /\ left' = 0 ELSE head' = h /\ left' = HeadValue(h)
\* the first two bytes are those of a card
Next == /\ Len(b) < Depth
        /\ \E x \in (IF Len(b) = 0 THEN {0} ELSE IF Len(b) = 1 THEN {2} ELSE Alphabet) : Arrive(x)
        /\ PrintT("CASE " \o ToJson([b |-> b']))
Spec == Init /\ [][Next]_vars
Agrees == Framed(b) <=> (head = <<>> /\ left = 0)
Invertible == Framed(b) => Stream(Records(b)) \o <<>> = b
\* a record is never shorter than its header, and records do not overlap
Exact == Framed(b) => LET r == Records(b) RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE 5 + Len(r[k].v) + S(k - 1) IN S(Len(r)) = Len(b)
\* whatever arrives later, the records already complete stay what they are
Stays == [][\A k \in 1..Len(Split(b).offs) : k <= Len(Split(b').offs) /\ Split(b').offs[k] = Split(b).offs[k]]_vars
====
